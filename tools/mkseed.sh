#!/bin/bash
# mkseed.sh ID : puts the demonstration kit beside seeded/ID/main.go and confirms the planted bug in a
# scratch copy of /repo: compiles, passes the stable tests, demo 0 without and nonzero with the patch.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
S="$V/seeded/$1"
cp "$V/tools/demokit/demo.sh" "$S/demo.sh"; chmod +x "$S/demo.sh"
cp "$V/tools/demokit/kit.go" "$V/tools/demokit/repo.go.mod" "$V/tools/demokit/repo.go.sum" "$S/"
mkdir -p "$S/jwx"; cp -r "$V/tools/demokit/jwx/." "$S/jwx/"
python3 -c "import json,sys; m=json.load(open('$S/meta.json')); assert set(m)=={'property','needs','what_it_breaks'}"
T="$(mktemp -d /tmp/seedtest.XXXXXX)"
trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"
cd "$T/repo"
( cd "$T/repo" && "$S/demo.sh" ) > "$T/out0" 2>&1 || { echo "$1: demo FAILS on the unchanged tree"; cat "$T/out0"; exit 1; }
git apply "$S/patch.diff"
"$V/tools/roottests.sh" "$T/repo" 400 > "$T/tests" 2>&1 || true
grep -qE "^(FAIL|---|panic)|build failed" "$T/tests" && { echo "$1: tests fail with the patch"; tail -30 "$T/tests"; exit 1; }
if ( cd "$T/repo" && "$S/demo.sh" ) > "$T/out1" 2>&1; then echo "$1: demo PASSES with the patch"; cat "$T/out1"; exit 1; fi
grep -q BROKEN "$T/out1" || { echo "$1: demo fails otherwise"; cat "$T/out1"; exit 1; }
echo "$1 ok: $(grep BROKEN "$T/out1" | head -1)"
