#!/usr/bin/env python3
"""Build the operator overrides and the driver, compare the overrides with
their TLA+ definitions (SelfTest)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import build, tlc
build.classes(); build.repo('plain')
rc, out = tlc.run('SelfTest', timeout=1500)
print(out[-1500:])
sys.exit(0 if rc == 0 and 'FALSE' not in out else 1)
