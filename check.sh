#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
exec $PY harness/main.py "$1" "${2:-${VERIF_TIER:-quick}}"
