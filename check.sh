#!/bin/bash
# check.sh <property> <quick|thorough>: run one check from /verif against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export HAMILTON_TELEMETRY_ENABLED=false HAMILTON_REPO="${HAMILTON_REPO:-/repo}"
# the tracking SDK has an environment of its own
[ "$1" = C21 ] && VP_PYTHON="${VP_PYTHON:-/opt/venv-sdk/bin/python}"
exec "${VP_PYTHON:-/opt/venv/bin/python}" run.py "$1" "$2"
