#!/usr/bin/env python3
"""Run one check:  run.py <property-id> [--tier quick|thorough] [--seed N] [--replay FILE] [--case N]

Exit 0: held on everything observed; 1: VIOLATION line printed; 2: no answer (harness
problem, or the monitors saw nothing).
"""
import os, sys
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY] + sys.argv)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1:] == ['--setup']:
    # nothing to build: the checks load /repo's working tree themselves; make sure they can
    import numpy, scipy, sympy
    from vf import env, monitor
    monitor.Monitor().install(helpers=True)
    print('setup ok: python %s numpy %s scipy %s sympy %s' % (sys.version.split()[0], numpy.__version__, scipy.__version__, sympy.__version__))
    sys.exit(0)
from vf import core
sys.exit(core.main(sys.argv[1:]))
