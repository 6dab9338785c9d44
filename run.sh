#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough]   |   run.sh --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 \
  OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
exec /opt/venv/bin/python -W ignore "$here/vf/cli.py" "$@"
