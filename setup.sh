#!/bin/bash
# Builds everything once, so that later builds find a warm cache where it is kept.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH=$d:$PATH && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=1
tmp=$(mktemp -d /tmp/amon.XXXXXX)
trap '/bin/rm -rf "$tmp"' EXIT
cd "$here/harness"
go build -o "$tmp/amon" .
go build -race -o "$tmp/amon.race" .
go build -o "$tmp/aminoscan" github.com/tendermint/go-amino/cmd/aminoscan
"$tmp/amon" -self
