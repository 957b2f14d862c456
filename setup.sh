#!/bin/bash
# Nothing to compile; checks that the interpreter and the packages the checks need are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONPATH="${VERIF_REPO:-/repo}/src:$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B - <<'P'
import numpy, yaml, general_robotics_toolbox, mc.core, mc.ref, mc.robots
print('setup ok')
P
