#!/usr/bin/env python3
"""builds what the checks need: the binary from /repo's working tree"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common
print(common.build())
if os.path.exists(os.path.join(common.VERIF, "shim", "shim.c")):
    print(common.shim())
