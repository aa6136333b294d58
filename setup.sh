#!/bin/sh
# Nothing to compile: check that the interpreter, numpy and the library are usable.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" "$PY" -W ignore -c "import numpy, scipy, vsim.main, vsim.worker, vsim.sched, vsim.models; print('ready')"
