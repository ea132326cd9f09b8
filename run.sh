#!/bin/bash
# run.sh setup | run.sh <PROPERTY> [quick|thorough] | run.sh replay <FILE> | run.sh regress
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -S -E -s harness/main.py "$@"
