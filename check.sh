#!/bin/bash
# check.sh ID [--replay FILE] [driver flags]: builds from the working tree and decides one property.
V=$(cd "$(dirname "$0")" && pwd)
OUT=${SIM_BUILD:-$V/.build}
ID=$1; shift
bash "$V/build.sh" || { echo "build of the simulator failed" >&2; exit 2; }
export SIM_WORKER=$OUT/worker SIM_WORKER386=$OUT/worker386 SIM_WORKERRACE=$OUT/workerrace SIM_SITES=$OUT/sites.json SIM_VERIF=$V
if [ "${1:-}" = "--replay" ]; then shift; exec "$OUT/drive" -prop "$ID" -replay "$1"; fi
exec "$OUT/drive" -prop "$ID" "$@"
