#!/usr/bin/env python3
"""Nothing to install: checks that the tools the framework uses are there."""
import os, subprocess, sys
for c in (['clang++-18', '--version'], ['/usr/lib/llvm-18/bin/opt', '--version'], ['/opt/veriftools/pyvenv/bin/python3', '-c', 'import z3, jsonschema'],
          ['/opt/stempy-venv/bin/python', '-c', 'import numpy, h5py']):
    p = subprocess.run(c, capture_output=True, text=True)
    if p.returncode:
        sys.exit('missing: %s\n%s' % (c, p.stderr))
print('tools present')
