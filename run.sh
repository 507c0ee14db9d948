#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/pycold-venv/bin/python -u -m vlib.main "$@"
