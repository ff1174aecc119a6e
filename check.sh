#!/bin/bash
# usage: check.sh ID [REPLAY]   (VERIF_SEED, VERIF_TIER, REPO are read from the environment)
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B harness/check.py "$@"
