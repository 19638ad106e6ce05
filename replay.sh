#!/bin/bash
# replay.sh <property> <replay.json>: run a recorded counterexample on the unpatched code
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
out=$(mktemp)
/opt/venv/bin/python -B -W ignore -m engine.concrete "$1" "$2" "$out"
cat "$out"; rm -f "$out"
