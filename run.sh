#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE] [--jobs N] [--only SUBCHECK] [--scale X]
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=agg QT_QPA_PLATFORM=offscreen PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export QUANTIFY_VERIF=1
py=/opt/venv/bin/python
exec "$py" -W ignore "$here/vf/main.py" "$@"
