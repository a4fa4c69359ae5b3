#!/bin/bash
# nothing is built: the checks import /repo's current sources directly
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
P
