#!/bin/bash
# trybugs.sh [-s SECS] [-p "C01 C02"] ID... : runs checks (default: the property's own) against planted
# bugs in scratch copies of /repo.
V="$(cd "$(dirname "$0")/.." && pwd)"
SECS=12; P=""
while getopts s:p: o; do case $o in s) SECS=$OPTARG;; p) P="$OPTARG";; esac; done
shift $((OPTIND-1))
for id in "$@"; do
  T="$(mktemp -d /tmp/trybug.XXXXXX)"
  cp -a /repo "$T/repo"
  git -C "$T/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in ${P:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}; do
    out="$(GOIDC_REPO="$T/repo" VERIF_SECS=$SECS "$V/check.sh" $p quick 2>&1)"; rc=$?
    echo "$id $p rc=$rc $(echo "$out" | grep -E '^seed|could not|error' | head -2 | cut -c1-260 | tr '\n' ' ') [$(echo "$out" | grep -oE '[0-9.]+ s$' | head -1)]"
  done
  rm -rf "$T"
done
