#!/bin/bash
# usage: check.sh PROPERTY [options of sx.run]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -W ignore -m sx.run "$@"
