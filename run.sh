#!/bin/bash
# usage: run.sh <property id> [--replay FILE] [--tier quick|thorough] [--seed N] [--only SUBCHECK]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m vbpbt.runner "$@"
