#!/bin/bash
# Nothing to build: checks import the library from /repo's working tree. Verify that they can.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src "$PY" -c 'import arinc424, prettytable, termcolor' || exit 1
mkdir -p evidence replays
