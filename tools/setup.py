#!/usr/bin/env python3
"""Offline setup: nothing is compiled; check that the simulator boots against the working tree."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
code = "from sim import env; env.boot(); import nephosem; f = nephosem.__file__; import sys; sys.stderr = sys.__stderr__; sys.__stdout__.write(f + chr(10)); sys.__stdout__.flush(); env.STATE['cleanup']()"
e = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
sys.exit(subprocess.call([PY, '-c', code], cwd=HERE, env=e))
