#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--only SUBCHECK]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export RAY_USAGE_STATS_ENABLED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m harness.run "$@"
