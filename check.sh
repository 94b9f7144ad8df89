#!/bin/sh
# usage: ./check.sh PROPERTY [options]   (see pbt/run.py)
cd "$(dirname "$0")" && exec /opt/venv/bin/python -m pbt.run "$@"
