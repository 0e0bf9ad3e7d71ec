#!/bin/bash
# Nothing to compile: verify that the interpreter, the library and the simulator load.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
/opt/venv/bin/python -c "from dst import seams; seams.install(); print('ok', seams.REPO)"
