#!/bin/sh
# check.sh <property id>...   decides the properties from /repo's current sources
here=$(CDPATH= cd -- "$(dirname -- "$0")" && pwd)
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" "$here/vp/check.py" "$@"
