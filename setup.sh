#!/bin/sh
# Nothing to build: the monitors are Python and import the code from /repo.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '.'); import vmon.core, vmon.gen, vmon.ref"
