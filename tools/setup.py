#!/usr/bin/env python3
"""checks that the verification tools are present"""
import shutil, sys
missing = [t for t in ("goto-cc", "goto-instrument", "cbmc", "gcc") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present"); sys.exit(1 if missing else 0)
