#!/bin/bash
# Nothing to build: specifications are interpreted by TLC, harness by Python.
cd "$(dirname "$0")"
set -e
mkdir -p evidence replays
java -version >/dev/null 2>&1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0,'/repo'); import toughio"
echo ok
