#!/bin/bash
# run with cwd = the repository: exit 0 when the property holds here, non-zero when it is broken
export HOME=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_DISABLE_JIT=1 RAY_USAGE_STATS_ENABLED=0 PYTHONPATH="$PWD"
trap '/bin/rm -rf "$HOME"' EXIT
timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"
