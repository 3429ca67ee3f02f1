#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE] ...
# Imports the package from /repo's working tree; nothing is written outside /verif and a temp dir.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 PYTHONPATH="$HERE"
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
export PYTHONPYCACHEPREFIX="$WORK/pyc" HYPOTHESIS_STORAGE_DIRECTORY="$WORK/hyp"
cd "$HERE" || exit 2
timeout -k 10 "${PBT_LIMIT:-86400}" /opt/venv/bin/python -W ignore -m pbt "$@"
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
