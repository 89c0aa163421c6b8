#!/bin/sh
# Nothing to compile: check that the solver and the code under test load.
cd "$(dirname "$0")" || exit 1
. /opt/venv/bin/activate 2>/dev/null || true
PYTHONPATH=lib /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import tulip
print('z3', z3.get_version_string(), tulip.__file__)
P
