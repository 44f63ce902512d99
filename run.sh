#!/bin/bash
# run.sh <property id> [tier]: runs one check against /repo's current tree
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python -W ignore check.py "$1"
