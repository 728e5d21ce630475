#!/bin/bash
# run.sh PROPERTY TIER: decide one property (see MANIFEST.json).
cd "$(dirname "$0")" || exit 3
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python sim/check.py "$1"
