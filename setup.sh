#!/bin/sh
# nothing is compiled: the checks import /repo directly; make sure that works here
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -B -c "
import sys
sys.path[:0] = ['.', '/repo']
from kv import core, models, oracle, lincommon, nlcommon, emcommon
core.check_import()
print('ready')"
