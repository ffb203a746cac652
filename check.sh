#!/bin/bash
# check.sh <property> [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY check.py "$@"
