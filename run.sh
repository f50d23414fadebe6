#!/bin/bash
# usage: ./run.sh C01 [--replay FILE] [--part NAME]   (tier and seed: VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m lib.pbt "$@"
