#!/bin/bash
# Builds the harness once in each of its configurations (warms the build cache).
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GOFLAGS='-mod=readonly -buildvcs=false'
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
w=$(mktemp -d /tmp/vhsetup.XXXXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cd harness || exit 2
go build -tags verif -o "$w/a" . && go build -race -tags verif -o "$w/b" . && go build -gcflags=github.com/steelseries/golisp=-d=checkptr -tags verif -o "$w/c" .
