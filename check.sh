#!/bin/bash
# usage: check.sh <property id>   (tier and seed from VERIF_TIER / VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="/repo:$PWD/harness" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "harness/checks/$(echo "$1" | tr A-Z a-z).py"
