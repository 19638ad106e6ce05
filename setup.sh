#!/bin/bash
# nothing to build: check that the interpreter, the solver and the code under test are there
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B -W ignore -c "
import sys
sys.path.insert(0, '/repo/src')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, autograd, nlopt, compas, compas_cem
assert compas_cem.__file__.startswith('/repo/src/')
print('z3', z3.get_version_string(), 'compas', compas.__version__, 'compas_cem', compas_cem.__file__)
"
