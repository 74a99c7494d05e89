#!/bin/bash
# usage: run.sh <PROPERTY> <quick|thorough>   |  run.sh replay <file>  |  run.sh setup
# Runs one check against /repo's current working tree, in a scratch directory it removes again.
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/vmc.XXXXXXXX)" || exit 3
trap 'rm -rf -- "$scratch"' EXIT
unset CC CXX MPICC PYTHONPATH
export PATH="$here/tools/bin":/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export TMPDIR="$scratch" VMC_SCRATCH="$scratch" HOME="$scratch"
cd "$scratch" || exit 3
/opt/venv/bin/python -B "$here/mc/main.py" "$@"
rc=$?
exit $rc
