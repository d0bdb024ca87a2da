#!/usr/bin/env python3
"""Verify that the tools the checks use are here; each check builds what it needs from /repo's current tree."""
import shutil, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence"): os.makedirs(os.path.join(V, d), exist_ok=True)
missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
if missing: print("missing: " + ", ".join(missing)); sys.exit(1)
print("ready")
