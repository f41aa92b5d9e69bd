#!/bin/bash
# usage: check.sh <property> [quick|thorough] [options]
cd "$(dirname "$0")" || exit 2
SCR=$(mktemp -d /tmp/symx.XXXXXX)
trap 'rm -rf -- "$SCR"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$SCR" HOME="$SCR" PYTHONPATH=/verif
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$(pwd)"
/opt/venv/bin/python -m symx.cli "$@"
