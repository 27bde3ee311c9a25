#!/bin/bash
# Nothing to build: the checks run from committed files. Fails early when the interpreters are missing.
. /opt/vp/env.sh >/dev/null 2>&1
/opt/veriftools/pyvenv/bin/python -c 'import z3, cvc5, sympy' && "${PY:-/opt/venv/bin/python}" -c 'import numpy, scipy, networkx'
