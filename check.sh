#!/bin/bash
# ./check.sh <property id>: run one property's check against /repo's working tree.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore harness/run.py "$@"
