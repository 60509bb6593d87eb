#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"; cd "$here" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$here/build/nocache" PYTHONHASHSEED=0 PYTHONPATH="/repo:$here/harness"
exec /opt/venv/bin/python -W ignore harness/run.py "$1"
