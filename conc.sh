#!/bin/bash
# conc.sh PROP WORK [args...]: checks PROP on an instrumented build (race-detecting for C06). Called by check.sh (environment set there).
set -u
root=$(cd "$(dirname "$0")" && pwd)
prop=$1; work=$2; shift 2
repo=/repo
cd "$root/harness" || exit 2
CGO_ENABLED=0 go build -modfile="$work/go.mod" -o "$work/instr" ./cmd/instr || exit 2
mkdir -p "$work/src" "$work/std"
"$work/instr" "$repo" "$work/src" || exit 2
cat >"$work/conc.mod" <<M
module verif/harness

go 1.23

require github.com/amarin/query v0.0.0

replace github.com/amarin/query => $work/src
M
if [ "$prop" != C06 ]; then
  CGO_ENABLED=0 go build -modfile="$work/conc.mod" -o "$work/check" ./cmd/check || exit 2
  "$work/check" -root "$root" -prop "$prop" "$@"
  exit $?
fi
# the formatter's object pool would order goroutines that have nothing to do with each other: switch pooling off
goroot=$(go env GOROOT)
sed -e 's/^func (p \*Pool) Put(x any) {$/&\n\tif x != nil {\n\t\treturn\n\t}/' \
    -e 's/^func (p \*Pool) Get() any {$/&\n\tif p.New != nil {\n\t\treturn p.New()\n\t}/' "$goroot/src/sync/pool.go" >"$work/std/pool.go"
printf '{"Replace": {"%s": "%s"}}\n' "$goroot/src/sync/pool.go" "$work/std/pool.go" >"$work/overlay.json"
CGO_ENABLED=1 go build -race -trimpath -overlay "$work/overlay.json" -modfile="$work/conc.mod" -o "$work/check" ./cmd/check || exit 2
export GORACE="halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0"
"$work/check" -root "$root" -prop "$prop" "$@"
