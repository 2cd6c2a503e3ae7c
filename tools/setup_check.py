#!/usr/bin/env python3
"""nothing to build: the framework is plain Python; check that the two interpreters it needs are there"""
import subprocess, sys
for py,mods in (('/opt/veriftools/pyvenv/bin/python','z3'),('/opt/venv/bin/python','numpy, astropy, numba')):
    subprocess.check_call([py,'-c','import '+mods])
print('ok')
