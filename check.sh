#!/bin/sh
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=${OMP_NUM_THREADS:-4} MPLBACKEND=Agg HF_HUB_OFFLINE=1
PYTHONPATH=${VERIF_DEV_REPO:-/repo} exec /opt/venv/bin/python -W ignore lib/run.py "$@"
