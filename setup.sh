#!/bin/bash
# Builds all explorers once, which fills the Go build cache. Every check builds again what it needs.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOEXPERIMENT=${GOEXPERIMENT:-arenas} GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
(cd mc && go build -o "$t/" ./cmd/core ./cmd/unit ./cmd/io ./cmd/instrument) || exit 1
(cd mc && go build -race -gcflags=all=-d=checkptr=0 -o "$t/" ./cmd/conc) || exit 1
exit 0
