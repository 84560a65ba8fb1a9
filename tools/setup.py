#!/usr/bin/env python3
"""setup_cmd: check the toolchain and build the tool once (checks rebuild by themselves when the source differs)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c
for p in c.CP.split(':'):
    if not os.path.exists(p):
        sys.exit('missing ' + p)
os.makedirs(os.path.join(c.VERIF, 'evidence'), exist_ok=True)
print(c.build_tool())
