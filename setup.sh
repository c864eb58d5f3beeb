#!/bin/bash
# nothing to build: checks that the interpreter, numpy and the solver are there
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, z3; print('z3', z3.get_version_string(), 'numpy', numpy.__version__)"
