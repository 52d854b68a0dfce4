#!/bin/sh
# Nothing to build: python and TLC run from source. Says early if either is missing.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence out
/opt/venv/bin/python -c "import numpy, json"
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
