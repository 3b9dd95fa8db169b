#!/bin/bash
# Runs main.go against the library in the current directory (/repo). Exit 0: the property holds.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/opt/veriftools/go1.27.3/bin"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$D"/*.go "$T/"
cat > "$T/go.mod" <<M
module demo

go 1.23.0

require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/lestrrat/go-jwx v0.0.0
	github.com/lyokato/goidc v0.0.0
)

require github.com/google/go-querystring v1.2.0 // indirect

replace github.com/lyokato/goidc => $R

replace github.com/lestrrat/go-jwx => $D/jwx
M
cp "$D/repo.go.sum" "$T/go.sum"
cat > "$T/ov.json" <<M
{"Replace": {"$R/go.mod": "$D/repo.go.mod", "$R/go.sum": "$D/repo.go.sum"}}
M
cd "$T" && go build -overlay ov.json -o demo . && timeout 120 ./demo "$T"
