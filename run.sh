#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE]     (tier and seed: VERIF_TIER, VERIF_SEED)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY="${VERIF_PYTHON:-/opt/venv/bin/python}"
exec "$PY" -m vmon.main "$@"
