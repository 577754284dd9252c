#!/bin/sh
# Nothing to compile: the code under test and the monitors are Python. Verify that both import.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
PYTHONPATH="/repo/src:$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import pv.core, pysatl_criterion; print('setup ok', pysatl_criterion.__file__)"
