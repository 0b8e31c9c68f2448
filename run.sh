#!/bin/bash
# run.sh Cxx [--replay FILE]: run the check of one property against /repo's working tree.
# Seed and tier come from VERIF_SEED and VERIF_TIER (quick by default).
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset APPLETREE_USE_HYBRID JAX_ENABLE_X64 JAX_DISABLE_JIT
exec "$PY" -B lib/main.py "$@"
