#!/bin/bash
# check.sh ID [quick|thorough] : decides one property on /repo's current working tree.
# Environment: VERIF_SEED (default 1), VERIF_TIER, VERIF_SECS (overrides the time budget).
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
case "$TIER" in
  thorough) SECS="${VERIF_SECS:-700}" ;;
  *) TIER=quick; SECS="${VERIF_SECS:-30}" ;;
esac
mkdir -p "$V/build" "$V/evidence"
BIN="$V/build/goidcsim.$ID.$$"
trap 'rm -f "$BIN" "$BIN.race"' EXIT
case "$ID" in
  C17|C21|C22) # these also look for data races
    (GOIDCSIM_RACE=1 "$V/build.sh" "$BIN.race" >"$BIN.race.log" 2>&1 || cat "$BIN.race.log" >&2; rm -f "$BIN.race.log") & ;;
esac
if ! "$V/build.sh" "$BIN"; then
  wait
  echo "cannot build the simulator from /repo" >&2
  exit 2
fi
wait
[ -x "$BIN.race" ] && export GOIDCSIM_RACEBIN="$BIN.race"
VERIF_DIR="$V" "$BIN" check -prop "$ID" -tier "$TIER" -seed "$SEED" -secs "$SECS" -out "$V/evidence/$ID.json"
