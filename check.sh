#!/bin/bash
# check.sh <property id> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -W ignore -m mc "$@"
