#!/bin/sh
# Nothing to build: checks that the tools are there and that the library imports.
set -e
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -c "import jsonpickle"
