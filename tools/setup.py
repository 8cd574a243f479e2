#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds from /repo's working tree.  This only verifies that the tools are there."""
import shutil, sys
miss = [t for t in ("gcc", "g++", "clang", "clang++", "objcopy", "objdump", "ld") if not shutil.which(t)]
if miss:
    print("missing tools:", miss)
    sys.exit(1)
print("ok")
