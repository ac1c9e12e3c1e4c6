#!/bin/bash
# check.sh PROP [args...]: builds the model checker against /repo's working tree and runs one property.
# check.sh -replay FILE: re-executes a recorded counterexample.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GOMAXPROCS GOGC GOEXPERIMENT
work=$(mktemp -d /tmp/verif-check-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
prop=${1:-}
[ $# -gt 0 ] && shift
replay=()
if [ "$prop" = -replay ]; then
  file=$(realpath "${1:?file}"); shift
  prop=$(sed -n 's/^ *"property": *"\([^"]*\)".*/\1/p' "$file" | head -1)
  replay=(-replay "$file")
fi
cd "$root/harness" || exit 2
cp go.mod "$work/go.mod"
if [ "$prop" = C06 ] || [ "$prop" = C27 ]; then
  "$root/conc.sh" "$prop" "$work" "${replay[@]}" "$@"
  exit $?
fi
CGO_ENABLED=0 go build -modfile="$work/go.mod" -o "$work/check" ./cmd/check || exit 2
"$work/check" -root "$root" -prop "$prop" "${replay[@]}" "$@"
