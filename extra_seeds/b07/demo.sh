#!/bin/bash
# run with cwd = repository root; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD/products"
exec timeout 250 /opt/pypyenv/bin/python -W ignore "$here/demo.py"
