#!/bin/bash
# check.sh <property> [--replay FILE]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MKL_NUM_THREADS=1 QISKIT_PARALLEL=FALSE MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -W ignore -m vp "$@"
