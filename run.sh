#!/bin/bash
# usage: run.sh <property-id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu HOME="${HOME:-/root}" PYTHONHASHSEED=0
exec /opt/venv/bin/python -m checks."$1"
