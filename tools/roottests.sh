#!/bin/bash
# Runs the repository's root tests (which cannot compile offline) against the jwx stand-in, in a
# scratch copy.
set -e
T=$(mktemp -d /tmp/roottests.XXXX)
cp -a "${1:-/repo}" $T/r
cd $T/r
cp /opt/vp/go.mod go.mod 2>/dev/null || true
cp /opt/vp/go.sum go.sum 2>/dev/null || true
chmod u+w go.mod go.sum
cat >> go.mod <<X

require github.com/lestrrat/go-jwx v0.0.0
replace github.com/lestrrat/go-jwx => /verif/stubs/jwx
X
go test ./... 2>&1 | tail -${2:-40}
rm -rf $T
