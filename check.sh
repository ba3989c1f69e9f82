#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [extra args]     (run from anywhere)
here=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
cd "$here"
exec /opt/venv/bin/python -m mon.run --prop "$prop" --tier "$tier" "$@"
