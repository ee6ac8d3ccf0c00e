#!/bin/bash
# Nothing to build: checks the interpreter and the solvers are present.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore -c 'import pv, z3, numpy; print("z3", z3.get_version_string(), "numpy", numpy.__version__)'
