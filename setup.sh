#!/bin/bash
# Nothing to build: the checks compile what they need from /repo on every run. Verify the tools are present.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, z3, mpmath, pybind11
print("ok", z3.get_version_string())
P
mkdir -p evidence
