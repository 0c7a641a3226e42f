#!/bin/bash
# usage: run.sh <property id> [--replay file]   (tier in VERIF_TIER)
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pyc PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="${JADN_REPO:-/repo}/distribution/src:$PWD/lib" TZ=UTC LC_ALL=C.UTF-8 PYTHONUTF8=1
id=$1; shift
exec /opt/venv/bin/python -W ignore "checks/$id.py" "$@"
