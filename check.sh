#!/bin/sh
# check.sh PROP [quick|thorough]   or   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" "$PY" -W ignore -m vsim.main "$@"
