#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]  -- builds the engine and decides one property
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export GOSYM_VERIF="$V"
tier="${2:-${VERIF_TIER:-quick}}"
bash "$V/setup.sh" || { echo "engine build failed"; exit 2; }
exec "$V/bin/gosym" run "$1" "$tier"
