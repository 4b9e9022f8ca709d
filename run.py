#!/usr/bin/env python3
"""Entry point of every check:  run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a line
`VIOLATION property=<id> replay=<path>`: it is broken.  Any other exit is an
error of the check itself."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

if os.environ.get('_VF_STARTED') != HERE:
    env = {k: v for k, v in os.environ.items() if k in ('VERIF_SEED', 'VERIF_TIER', 'TMPDIR')
           or k.startswith('VF_')}
    env.update(_VF_STARTED=HERE, HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8', PYTHONUTF8='1',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               TRACEON_THREADS='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
    os.execve(PY, [PY, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vf.harness import main
sys.exit(main(sys.argv[1:]))
