#!/usr/bin/env python3
"""setup: is everything the checks need present?"""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "ar", "nm", "valgrind") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.path.insert(0, os.path.join(V, "lib"))
import props
print("setup ok: %d properties" % len(props.SPECS))
