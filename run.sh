#!/bin/bash
# run.sh CNN [--replay FILE] [--section NAME,...]   (tier: VERIF_TIER, seed: VERIF_SEED)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg SDL_VIDEODRIVER=dummy
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYGAME_HIDE_SUPPORT_PROMPT=1
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
exec "$PY" vlib/run.py "$@"
