#!/usr/bin/env python3
"""Checks that the tools are there and that the driver builds (each check builds its own)."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import common as C
C.build('vdriver')
for m in sorted(os.listdir(C.SPEC)):
    if m.endswith('.tla'):
        r = subprocess.run(['java', '-cp', C.TLAJAR, 'tla2sany.SANY', m], cwd=C.SPEC, capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout[-2000:])
            sys.exit('%s does not parse' % m)
print('ready')
