#!/bin/bash
# bash /verif/check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONWARNINGS=ignore
export VERIF_SEED=${VERIF_SEED:-1}
exec /opt/venv/bin/python -m harness.run "$1" "${2:-quick}"
