#!/bin/sh
# check.sh P01 quick|thorough        run a check
# check.sh replay FILE               replay a violation
# check.sh determinism [ID…] [N]     the same N seeds in different surroundings
here=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PYTHONHASHSEED=${VERIF_HASHSEED:-0}
cd "$here" && exec /opt/venv/bin/python -m sim.cli "$@"
