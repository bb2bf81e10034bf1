#!/bin/bash
# check.sh <property> [quick|thorough] | check.sh --replay <file>
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTHONOPTIMIZE
exec /opt/venv/bin/python -m mc.run "$@"
