#!/bin/sh
# build the instrumented server and the harness once (checks rebuild incrementally)
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0, '.')
from lib import build
build.build()
print('ok')"
