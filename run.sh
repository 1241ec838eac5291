#!/bin/bash
# run.sh ID [--thorough]   |   run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
if [ "$2" = "--thorough" ]; then export VERIF_TIER=thorough; fi
exec /opt/venv/bin/python -W ignore harness/main.py "$@"
