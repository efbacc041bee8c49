#!/bin/bash
# nothing to build: the specifications are interpreted by TLC and the drivers are Python.  Check the tools.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
command -v java iverilog vvp >/dev/null
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
python3 -m compileall -q harness >/dev/null || true
echo ok
