#!/bin/sh
# Runs one check against the working tree in /repo.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo PYTHONWARNINGS=ignore
unset JAVA_TOOL_OPTIONS
exec /opt/venv/bin/python "$here/check.py" "$@"
