#!/bin/bash
# commit /repo's working tree as a fix and record it: tools/fix.sh <property> "<message without fix:>"
set -e
git -C /repo commit -qam "fix: $2"
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1 || true
python3 -c "
import json;d=json.load(open('/tmp/o.json'));print(len(d['passed']),'passed',d['failed'])"
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/known_findings.txt
