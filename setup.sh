#!/bin/bash
# Nothing to build: verify that the interpreter, hypothesis and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, hypothesis
print('numpy', numpy.__version__, 'hypothesis', hypothesis.__version__)
P
