#!/bin/bash
# bash run.sh P01 quick|thorough     run one check
# bash run.sh replay FILE            run one recorded execution again
export HOME=/root LANG=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/mplconfig.$$}
cd "$(dirname "$(readlink -f "$0")")" || exit 3
trap 'case "$MPLCONFIGDIR" in /tmp/mplconfig.*) rm -rf "$MPLCONFIGDIR";; esac' EXIT
/opt/venv/bin/python -m mc.main "$@"
