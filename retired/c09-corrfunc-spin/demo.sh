#!/bin/bash
# cwd: the repository. exit 0: behaviour is right
REPO="$PWD"
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
export PYTHONPATH="$REPO" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TMPDIR="$T" PYSCF_TMPDIR="$T"
/opt/venv/bin/python -W ignore "$HERE/demo.py" --quiet
