#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -c 'import sys; sys.path.insert(0, "."); from pbt.core import main; sys.exit(main(sys.argv[1:]))' "$@"
