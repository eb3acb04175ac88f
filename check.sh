#!/bin/sh
# check.sh PROPERTY [options]: runs the monitors of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
exec "$PY" harness/run.py "$@"
