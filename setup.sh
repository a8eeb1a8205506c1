#!/bin/bash
# Warms the build cache (every check builds for itself anyway).
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, ".")
import check
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("built")
P
