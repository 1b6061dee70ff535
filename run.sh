#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PYTHONDONTWRITEBYTECODE=1
exec python3 "checks/$1.py"
