#!/bin/bash
# Builds the analyzer from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
mkdir -p "$GOCACHE" 2>/dev/null || export GOCACHE=/tmp/jscheck-gocache
unset GOROOT GOWORK
GO=go; command -v go1.26 >/dev/null && GO=go1.26
mkdir -p bin
cd engine && GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on $GO build -mod=vendor -trimpath -o ../bin/jscheck.tmp.$$ . && mv -f ../bin/jscheck.tmp.$$ ../bin/jscheck
