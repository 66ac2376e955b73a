#!/bin/bash
# Nothing to compile: checks that the solver, the tool's models and the code under test are usable
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -W ignore -m sx.selftest
