#!/bin/bash
# Nothing is compiled: check that the interpreter, its packages and the project's modules are importable.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat PYTHONHASHSEED=0
exec /opt/venv/bin/python -c 'import py2compat, sys; sys.path.insert(0, "/repo"); import numpy, netCDF4, qc, Extended_IMMA, track_check, trackqc; print("setup ok")'
