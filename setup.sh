#!/bin/bash
# Nothing to build: checks read /repo's source on every run. Verify the tools.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy, sys; sys.path.insert(0, '/repo/src'); import ConfigSpace"
python3-vt -c "import z3"
echo ready
