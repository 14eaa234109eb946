#!/bin/bash
# bash check.sh <property> [options]: runs one check from a fixed interpreter environment.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env -u NO_COLOR -u FORCE_COLOR -u ANSI_COLORS_DISABLED -u COLUMNS -u LINES -u PYTHONPATH -u PYTHONOPTIMIZE \
  -u PYTHONWARNINGS -u PYTHONDEVMODE -u TZ -u LC_ALL \
  PYTHONHASHSEED=0 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 TERM=dumb "$PY" check.py "$@"
