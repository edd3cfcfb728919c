#!/bin/bash
# usage: check.sh check <PROPERTY> <quick|thorough> | replay <FILE>
cd "$(dirname "$0")" || exit 2
export NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 \
  PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
[ -n "$MPLCONFIGDIR" ] || { [ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig; }
export PYTHONPATH="${VF_REPO:-/repo}:$PWD"
exec /opt/venv/bin/python -m vf.cli "$@"
