#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (run from /verif)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -m mc "$@"
