#!/bin/bash
# Nothing to build: the checks import /repo/src with the installed interpreter. This only makes sure that this works.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src:/verif MPLBACKEND=Agg
/opt/venv/bin/python -W ignore -c "import mc.core, pymgrid; assert pymgrid.__file__.startswith('/repo/src/'), pymgrid.__file__; print('ok')"
