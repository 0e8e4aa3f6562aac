#!/bin/bash
# build.sh OUTDIR: builds the node (psignify itself, from $PSIGNIFY_REPO or
# /repo, over the simulated kernel) and the coordinator into OUTDIR.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1/std"; out=$(cd "$1" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PSIGNIFY_REPO=${PSIGNIFY_REPO:-/repo}
( cd "$here/coord" && go build -o "$out/coord" . )
python3 "$here/overlay/mkoverlay.py" "$(go env GOROOT)" "$out/std" "$out/coord"
cd "$PSIGNIFY_REPO" && go build -modfile="$out/std/go.mod" -overlay="$out/std/overlay.json" -o "$out/node" ./cmd/psignify
