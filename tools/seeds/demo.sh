#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" JAX_PLATFORMS=cpu MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
