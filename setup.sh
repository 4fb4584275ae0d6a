#!/bin/bash
# Nothing to build: the package is pure Python and is imported from /repo/src by each check.
here=$(dirname "$(realpath "$0")")
mkdir -p "$here/evidence"
cd / && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src exec /opt/venv/bin/python -c 'import diffpy.srmise, numpy, scipy, matplotlib; print("ok", diffpy.srmise.__file__)'
