#!/bin/bash
# replay.sh FILE : reproduces a reported violation on /repo's current working tree (exit 1 if it shows).
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/build"
BIN="$V/build/goidcsim.replay.$$"
trap 'rm -f "$BIN" "$BIN.race"' EXIT
"$V/build.sh" "$BIN" || exit 2
if grep -q '"race_detector": true' "$1"; then
  GOIDCSIM_RACE=1 "$V/build.sh" "$BIN.race" || exit 2
  export GOIDCSIM_RACEBIN="$BIN.race"
fi
VERIF_DIR="$V" "$BIN" replay "$(realpath "$1")"
