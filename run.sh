#!/bin/sh
# usage: run.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
id=$(echo "$1" | tr 'A-Z' 'a-z')
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 DUCC0_NUM_THREADS=1 MKL_NUM_THREADS=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec /opt/venv/bin/python -B "harness/$id.py" "${2:-${VERIF_TIER:-quick}}"
