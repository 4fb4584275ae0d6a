#!/bin/bash
# bash /verif/check.sh ID [quick|thorough] [extra arguments of run_check.py]
here=$(dirname "$(realpath "$0")")
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export PYTHONPYCACHEPREFIX=/nonexistent/pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH
exec /opt/venv/bin/python "$here/run_check.py" "$id" --tier "$tier" "$@"
