#!/bin/bash
# check.sh <property> [quick|thorough]
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0
PY=/opt/pypyvenv/bin/python
exec "$PY" "$(dirname "$0")/check.py" "$@"
