#!/bin/bash
# usage: run.sh <property id>      (run in /verif)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B -m symx.runner "$1"
