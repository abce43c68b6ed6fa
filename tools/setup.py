#!/usr/bin/env python3
"""setup: nothing is kept between checks; this only makes sure that the drivers build and TLC runs"""
import os, shutil, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vlib'))
import run
wd = tempfile.mkdtemp(prefix='verif-setup-')
try:
    run.build(os.path.join(wd, 'b'))
finally:
    shutil.rmtree(wd, ignore_errors=True)
print('ok')
