#!/usr/bin/env python3
"""Nothing has to be kept from here: every check builds what it needs. This
only finds out early whether it can."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.build import build
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    build(work)
finally:
    shutil.rmtree(work, ignore_errors=True)
print("ok")
