#!/bin/sh
# Builds the MIR driver and warms the dependency cache (offline).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import os, sys, tempfile
sys.path.insert(0, ".")
from jj import build
d = tempfile.mkdtemp()
build.dump(d + "/dump.json")
os.remove(d + "/dump.json")
os.rmdir(d)
P
