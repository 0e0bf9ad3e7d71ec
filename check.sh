#!/bin/bash
# ./check.sh C01 quick|thorough     ./check.sh replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
cp /opt/venv/mplconfig/*.json "$D"/ 2>/dev/null
export MPLCONFIGDIR="$D"
/opt/venv/bin/python -m dst.core "$@"
