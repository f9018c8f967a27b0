#!/bin/bash
# Builds the compiled kernels of /repo into .cache/ (the checks do the same
# themselves when the cache is missing or stale).
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c '
import sys
sys.path.insert(0, ".")
from pbt.boot import boot
boot()
import hypothesis, brainstorm
print("ready: hypothesis", hypothesis.__version__)'
