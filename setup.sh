#!/bin/bash
# Nothing to build ahead of time: every check derives its encoding from /repo when it runs.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
print("z3", z3.get_version_string())
P
mkdir -p out evidence
