#!/bin/bash
# usage: run.sh <property id> [--quick|--thorough|--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export JAX_PLATFORMS=cpu JAX_PLATFORM_NAME=cpu TF_CPP_MIN_LOG_LEVEL=3
export SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy RAY_USAGE_STATS_ENABLED=0
export PYTHONPATH="$PWD:/repo" OMP_NUM_THREADS=2
exec /opt/venv/bin/python -W ignore -m checks.main "$@"
