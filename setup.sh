#!/bin/bash
# nothing to build: every check encodes /repo's current source when it runs. Only look at the tools.
cd "$(dirname "$0")" || exit 1
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo"
exec /opt/venv/bin/python -W ignore -c "from engine import sym; print('z3', sym.z3.get_version_string())"
