#!/bin/bash
# check.sh <property> [quick|thorough]: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1
unset PYTHONPATH PYTHONSTARTUP FORCE_COLOR NO_COLOR
export PYTHONPATH="$PWD/lib"
PY=/opt/venv/bin/python
exec "$PY" -B -X utf8 "checks/$(echo "$1" | tr A-Z a-z).py" < /dev/null
