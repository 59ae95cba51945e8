#!/bin/bash
# run.sh ID: builds the harness and the recorder, then runs one check against /repo.
cd "$(dirname "$0")" || exit 2
export VMON_VERIF="$PWD" VMON_REPO="${VMON_REPO:-/repo}"
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
tmp=$(mktemp -d /tmp/vmon-bin-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
chmod 755 "$tmp"
(cd harness && go build -o "$tmp/vmon" . && CGO_ENABLED=0 go build -o "$tmp/rec" ./rec) || exit 2
export VMON_REC="$tmp/rec"
[ -n "$2" ] && export VERIF_TIER="$2"
"$tmp/vmon" check "$1"
