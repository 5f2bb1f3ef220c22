#!/bin/bash
# bash run.sh <check> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
exec env PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore -m vlib.engine "$@"
