#!/bin/bash
# run.sh <property id>   -- quick by default, VERIF_TIER=thorough for the deep run
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} LANG=C.UTF-8 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="/repo/src:/verif"
export PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
