#!/bin/bash
# Builds the harness on /repo's working tree once, so that dependencies are compiled.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
from mv import core
print(core.build())
PY
