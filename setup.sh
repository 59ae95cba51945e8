#!/bin/bash
# Warms the build caches; every check builds what it needs again by itself.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
repo=${VMON_REPO:-/repo}
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
(cd harness && go build -o "$t/vmon" . && CGO_ENABLED=0 go build -o "$t/rec" ./rec) || exit 1
(cd "$repo" && go build -o "$t/bab" .) || exit 1
echo ok
