#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1 LANG=C.UTF-8
exec /opt/venv/bin/python run.py "$1" --tier "${2:-quick}"
