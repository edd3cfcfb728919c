#!/bin/bash
# nothing to build: checks that the interpreter, the solver and /repo load
cd "$(dirname "$0")" || exit 1
export NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig
PYTHONPATH="/repo:$PWD" exec /opt/venv/bin/python -c 'import vf.env, vf.world; print("ok")'
