#!/bin/bash
# Builds the C library of the code under test; the framework itself is plain Python.
bash /opt/vp/build.sh --lib >/dev/null 2>&1
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import vlib.engine" || exit 1
exit 0
