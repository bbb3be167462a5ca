#!/bin/bash
# Nothing to compile: the monitors are Python and import /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg "$PY" - <<'PYEOF'
import sys
sys.path.insert(0, "/repo")
import numpy, scipy, toolz, networkx, pandas, distributed
import leap_ec
assert leap_ec.__file__.startswith("/repo/"), leap_ec.__file__
print("setup ok:", sys.version.split()[0], leap_ec.__file__)
PYEOF
