#!/bin/bash
# bash check.sh PROPERTY [quick|thorough | --replay FILE]
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
# Cached bytecode is looked for nowhere, so only /repo's current sources count.
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX") || exit 2
export TMPDIR=$SCRATCH MPLCONFIGDIR=$SCRATCH PYTHONPYCACHEPREFIX=$SCRATCH/none
/opt/venv/bin/python -B -W ignore run.py "$@"
CODE=$?
rm -rf "$SCRATCH"
exit $CODE
