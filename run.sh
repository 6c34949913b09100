#!/bin/bash
# usage: run.sh PROPERTY quick|thorough   (run from anywhere; checks /repo's working tree)
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} LANG=C.UTF-8
unset CC MPICC
export PYTHONPATH="${RT_REPO:-/repo}:$HERE" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
cd "$HERE" && exec /opt/venv/bin/python -m rt.main "$1" "${2:-${VERIF_TIER:-quick}}" "${@:3}"
