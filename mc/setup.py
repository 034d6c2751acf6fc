#!/opt/venv/bin/python
"""setup: nothing to compile; verify that the interpreter and the code import"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('MC_REPO', '/repo'))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy, scipy, netCDF4, h5py
from mc import core
print('ready', sys.version.split()[0], 'numpy', numpy.__version__)
