#!/bin/sh
# Nothing to build: checks that the solver and the interpreter are there and that the models agree with CPython.
set -e
cd "$(dirname "$0")"
chmod +x check.py concrete.py
/opt/veriftools/pyvenv/bin/python3 -B -c "import z3; print('z3', z3.get_version_string())"
/opt/veriftools/pyvenv/bin/python3 -B tests/selftest.py
