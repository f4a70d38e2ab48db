#!/usr/bin/env python3
"""Nothing to build ahead: checks compile their drivers. Verify the tools exist."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
ok = shutil.which("java") and vlib.CXX and os.path.exists(vlib.JARS)
print("java", shutil.which("java"), "compiler", vlib.CXX, "tlc", vlib.JARS)
sys.exit(0 if ok else 1)
