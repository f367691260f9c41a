#!/bin/bash
# ./run.sh CNN  - run one check against /repo's current working tree
cd "$(dirname "$0")" || exit 3
id="$1"; shift
lower=$(echo "$id" | tr 'A-Z' 'a-z')
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg BROWSER=true
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-4} OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$PWD/vlib:$PWD/checks"
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
exec /opt/venv/bin/python "checks/$lower.py" "$@"
