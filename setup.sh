#!/bin/bash
# nothing to build: the simulator compiles /repo's current tree in each check. Make sure the tools are there.
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
$PY -c 'import pysodium, termcolor, typing_extensions, sqlite3' || exit 1
mkdir -p "$(dirname "$0")/evidence"
