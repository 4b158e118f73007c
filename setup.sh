#!/bin/bash
# Nothing is compiled: the checks import lop from /repo/src. Only make sure the interpreter can do that.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence replay
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "import mc.core, lop; print('lop from', lop.__file__)"
