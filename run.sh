#!/bin/sh
# run.sh PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree
cd "$(dirname "$0")" || exit 3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore HDF5_USE_FILE_LOCKING=FALSE
exec /opt/venv/bin/python -B -m mc.main "$@"
