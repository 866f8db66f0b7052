#!/bin/sh
# nothing to build: the checks run from source; make sure the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt -c "import z3; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import sys; print(sys.version)"
