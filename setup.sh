#!/bin/bash
# Nothing to compile: check that the interpreter, the library and the simulator import.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo"); sys.path.insert(0, ".")
from simlib import core
core.load_library()
print("ok")
P
