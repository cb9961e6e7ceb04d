#!/bin/sh
# Checks the tools, parses the specification and warms the object cache.
# Every check can also run without it.
set -e
cd "$(dirname "$0")"
command -v quint >/dev/null
command -v g++ >/dev/null
for f in spec/*.qnt; do
  quint typecheck "$f" >/dev/null
done
PYTHONDONTWRITEBYTECODE=1 python3-vt - <<'PY'
import glob, os
from vlib import build
for f in sorted(glob.glob("harness/drv_*.cpp")):
    build.driver(os.path.basename(f)[:-4])
build.python_package()
PY
echo ready
