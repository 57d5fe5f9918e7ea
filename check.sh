#!/bin/bash
# usage: check.sh <property id> <quick|thorough> [--replay FILE]
# runs the monitors of one property against the code in /repo (or $VERIF_REPO)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -B -W ignore -m vlib.run "$@"
