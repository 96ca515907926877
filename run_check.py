#!/usr/bin/env python3
"""python3 run_check.py <property id> [--tier quick|thorough] [--replay file]"""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONUTF8': '1', 'MPLBACKEND': 'Agg',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'VERIF_INNER': '1',
}

if os.environ.get('VERIF_INNER') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env.pop('PYTHONPATH', None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

from vlib import harness  # noqa: E402

if __name__ == '__main__':
    try:
        rc = harness.main(sys.argv[1], sys.argv[2:])
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)    # not through the interpreter's exit handlers, which wait for the workers
