#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [-v]
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONHASHSEED=0
scratch="$(mktemp -d /tmp/symq.XXXXXX)"
export MPLCONFIGDIR="$scratch" JOBLIB_TEMP_FOLDER="$scratch" TMPDIR="$scratch"
/opt/venv/bin/python -m symq.runner "$@"
rc=$?
rm -rf "$scratch"
exit $rc
