#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles what it needs from /repo's working tree. Only report the tools."""
import shutil, sys
need = ["clang++"]
missing = [n for n in need if not (shutil.which(n) or shutil.which(n + "-18"))]
print("tools present" if not missing else "missing: " + ", ".join(missing))
sys.exit(1 if missing else 0)
