#!/bin/sh
# usage: sh check.sh Cxx [--tier quick|thorough] [--seed N] [--replay evidence/replay/....json]
cd "$(dirname "$0")" || exit 2
# the code under test is imported from /repo/src, its current working tree; nothing is written there
export PYTHONPATH="/repo/src:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m pv.main "$@"
