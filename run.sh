#!/bin/bash
# run.sh <property id> <quick|thorough> [-replay FILE]
# Rebuilds the instrumented copy and the explorer from /repo's working tree,
# then runs one check.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VMC_VERIF="$V"
. "$V/build.sh"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift || true
vmc_build "$id" || exit 2
if [ "${1:-}" = "-replay" ]; then
  exec "$V/build/mc" -replay "$2" -racebin "$V/build/mcrace"
fi
exec "$V/build/mc" -check "$id" -tier "$tier" -racebin "$V/build/mcrace" "$@"
