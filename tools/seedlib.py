"""make and confirm a planted bug (kept in /verif/seeded/<id>/)"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def clean():
    return sh('git -C /repo status --porcelain').stdout.strip() == ''


def undo():
    sh('git -C /repo checkout -- .')


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    d = json.load(open('/tmp/seed_o.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('tests') or base.get('passed') or base.get('stable') or base
    miss = [n for n in names if n not in set(d['passed'])]
    return miss


def demo(d):
    tmp = '/tmp/seed_demo'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh('timeout 300 bash %s/demo.sh' % tmp, cwd=REPO)
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode, r.stdout[-600:]


def seed(id, prop, edits, needs, what, demo_py=None, demo_c=None, check=True, server=True):
    assert clean(), 'repo not clean'
    d = '%s/seeded/%s' % (V, id)
    try:
        for f, old, new in edits:
            p = REPO + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'edit does not match uniquely:', f, s.count(old))
                return False
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C /repo diff').stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
        if demo_py:
            shutil.copy(V + '/tools/demolib.py', d + '/demolib.py')
            open(d + '/demo.py', 'w').write(demo_py)
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        if demo_c:
            open(d + '/demo.c', 'w').write(demo_c)
            open(d + '/demo.sh', 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
B=/repo/_build
gcc -g -I/repo/include -I$B -I$B/include -DHAVE_CONFIG_H $(pkg-config --cflags lua5.1 2>/dev/null) $(pkg-config --cflags glib-2.0 gthread-2.0 gmodule-2.0) -o "$T/demo" "$D/demo.c" \\
  $B/src/main/liblighttpd2-shared-2.0.0.so $B/src/common/liblighttpd2-common-2.0.0.so \\
  $(pkg-config --libs glib-2.0 gthread-2.0 gmodule-2.0) -lev -Wl,-rpath,$B/src/main:$B/src/common || exit 4
cd "$T" && timeout 60 ./demo
''')
        os.chmod(d + '/demo.sh', 0o755)
        ok, out = build()
        if not ok:
            print(id, 'BUILD FAILED', out)
            return False
        miss = tests()
        if miss:
            print(id, 'TESTS FAIL', miss[:5])
            return False
        rc, out = demo(d)
        print(id, 'demo with bug rc', rc, out.strip()[-200:])
        good = rc not in (0,)
        if check:
            r = sh('./check.sh %s quick' % prop, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(id, 'CHECK rc', r.returncode, v[:1], [l for l in r.stdout.splitlines() if 'wall=' in l][:1])
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        undo()
    ok, out = build()
    rc, out = demo(d)
    print(id, 'demo without bug rc', rc, out.strip()[-300:] if rc else '')
    if rc != 0 or not good:
        print(id, '*** NOT VALID')
        return False
    return True
