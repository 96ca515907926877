#!/usr/bin/env python3
"""Nothing to compile: make sure the interpreter, the libraries and the code under test can be used."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
code = ('import sys; sys.path.insert(0, "/repo"); import numpy, pandas, scipy; '
        'import heat_load_calc.core.core, heat_load_calc.initializer.initializer; print("ready")')
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
sys.exit(subprocess.call(['/opt/venv/bin/python', '-W', 'ignore', '-c', code], env=env, cwd=ROOT))
