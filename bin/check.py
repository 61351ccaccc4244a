#!/usr/bin/env python3
"""check.py PROPERTY: decide one property; see DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import runner, registry

prop = sys.argv[1]
chk = runner.Check(prop)
registry.MAIN[prop](chk)
chk.finish()
