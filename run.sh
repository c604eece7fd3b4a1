#!/bin/bash
# usage: bash run.sh <PROPERTY> [--replay FILE]; VERIF_SEED and VERIF_TIER from the environment
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat PYTHONHASHSEED=0 TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
cd "$here" && exec /opt/venv/bin/python "$here/harness/run.py" "$@"
