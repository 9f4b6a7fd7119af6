#!/bin/bash
# Checks that the tools are there and that the harness builds from /repo's tree.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, "tools")
from lib import *
c = Ctx("setup", "quick", 1)
try:
    c.harness()
    out, rc = c.tlc("RatusGen", "RatusGen.cfg", 300, env={"GRID": c.scratch + "/grid.json"})
    if rc:
        print(out)
        sys.exit(1)
finally:
    c.close()
print("ready")
P
