#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE]     (environment: VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PYBIN="${PY:-/opt/venv/bin/python}"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONWARNINGS=ignore
unset JAX_COMPILATION_CACHE_DIR
exec "$PYBIN" run.py "$@"
