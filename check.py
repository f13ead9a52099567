#!/opt/venv/bin/python
"""python check.py Cxx [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', BROWSER='true',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TZ='UTC', LANG='C.UTF-8')
    e.setdefault('HOME', '/root')
    e.pop('DISPLAY', None)
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__)] + sys.argv[1:], e)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import run
run.main(sys.argv[1:])
