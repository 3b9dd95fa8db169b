#!/bin/bash
# Builds the simulator from /repo's current working tree (and only from it) into $1.
# The repository's own go.mod is not tracked by git; a committed copy stands in for it.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
OUT="${1:-$V/build/goidcsim}"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export HOME="${HOME:-/root}"
mkdir -p "$(dirname "$OUT")"
T="$(mktemp -d "${TMPDIR:-/tmp}/goidcsim.XXXXXX")"
trap 'rm -rf "$T"' EXIT
cp -r "$V/sim" "$T/sim"
sed -i "s#=> /verif/stubs/jwx#=> $V/stubs/jwx#; s#=> /repo#=> ${GOIDC_REPO:-/repo}#" "$T/sim/go.mod"
# the standard library's clock gets a seam (used for C21 only): time.SimNow
G="$(go env GOROOT)"
mkdir -p "$T/time"
sed 's/^func Now() Time {$/var SimNow = simStart()\n\nfunc Now() Time {\n\tif SimNow != nil {\n\t\tif s, n, ok := SimNow(); ok {\n\t\t\treturn Unix(s, int64(n))\n\t\t}\n\t}/' "$G/src/time/time.go" > "$T/time/time.go"
printf '\n// SimHook is the scheduler.\nvar SimHook func()\n\nfunc SimStep() {\n\tif SimHook != nil {\n\t\tSimHook()\n\t}\n}\n' >> "$T/time/time.go"
cat >> "$T/time/time.go" <<'E'

// simStart: with GOIDCSIM_START=N the clock stands at second N from the first instruction on.
func simStart() func() (sec int64, nsec int32, ok bool) {
	v, ok := syscall.Getenv("GOIDCSIM_START")
	if !ok {
		return nil
	}
	n := int64(0)
	for _, c := range []byte(v) {
		n = n*10 + int64(c-'0')
	}
	return func() (int64, int32, bool) { return n, 123456789, true }
}
E
sed -i 's/^import (/import (\n\t"syscall"/' "$T/time/time.go"
# timers made by the code under test fire in simulated time (sim/timers.go)
"$V/tools/timers.py" "$G/src/time/sleep.go" > "$T/time/sleep.go"
R="${GOIDC_REPO:-/repo}"
# where the library synchronises, the scheduler gets a say around each such operation
STEPS=""
if grep -rqE --include=*.go '"sync"|"sync/atomic"|\<chan\>|time\.Sleep' "$R"; then
  (cd "$V/tools/instr" && go build -o "$T/instr" .)
  mkdir "$T/lib"
  STEPS="$("$T/instr" "$R" "$T/lib")"
fi
[ -n "$GOIDCSIM_RACE" ] && export GOEXPERIMENT=nosizespecializedmalloc,noruntimefreegc # (the detector must see every allocation)
compile() {
  echo "{\"Replace\": {\"$R/go.mod\": \"$V/gomod/repo.go.mod\", \"$R/go.sum\": \"$V/gomod/repo.go.sum\", \"$G/src/time/time.go\": \"$T/time/time.go\", \"$G/src/time/sleep.go\": \"$T/time/sleep.go\"$1}}" > "$T/ov.json"
  (cd "$T/sim" && go build ${GOIDCSIM_RACE:+-race '-gcflags=goidcsim=-race=false -l'} -trimpath -overlay "$T/ov.json" -o "$OUT.$$" .)
}
if [ -z "$STEPS" ] || ! compile "$STEPS" 2>/dev/null; then
  compile ""
fi
mv "$OUT.$$" "$OUT"
