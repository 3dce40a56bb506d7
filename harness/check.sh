#!/bin/sh
# runs one check against /repo's working tree (Python: nothing to build)
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$here/standin:${BGV_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PROJ_NETWORK=OFF TZ=UTC PYTHONWARNINGS=ignore PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
  exec /opt/venv/bin/python "$here/run.py" "$@"
