#!/usr/bin/env python3
"""Nothing to build: checks that the interpreter and the working tree can be loaded."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ("import sys; sys.path.insert(0, %r); from sim import boot; boot.load(); "
        "from sim import runner, world; print('ok')" % VERIF)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONPATH='')
sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', code], env=env))
