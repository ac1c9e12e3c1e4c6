#!/bin/bash
# Builds the framework once, offline (warms the build cache; every check rebuilds from /repo's current tree).
set -eu
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/harness"
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$work"' EXIT
cp go.mod "$work/go.mod"
CGO_ENABLED=0 go build -modfile="$work/go.mod" -o "$work/check" ./cmd/check
"$root/check.sh" C06 -tier quick -family pairs -bound 3 -evidence "$work/e.json" >/dev/null || true # warms the race-detecting build
