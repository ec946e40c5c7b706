#!/bin/bash
# usage: build.sh [OUTPUT]: build the simulator from the working tree of the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$BUILD"
(cd "$here/instr" && GOFLAGS= GO111MODULE=off go build -o "$BUILD/instr" main.go)
python3 "$here/overlay/gen.py" "$(go env GOROOT)" "$REPO" "$BUILD" "$here/harness"
cp "$REPO/go.mod" "$BUILD/go.mod"
cp "$REPO/go.sum" "$BUILD/go.sum"
if [ -f "$here/go.mod.extra" ]; then cat "$here/go.mod.extra" >> "$BUILD/go.mod"; fi
if [ -f "$here/go.sum.extra" ]; then cat "$here/go.sum.extra" >> "$BUILD/go.sum"; fi
cd "$REPO"
go build -overlay "$BUILD/overlay.json" -modfile "$BUILD/go.mod" -o "${1:-$BUILD/simbin}" ./verifsim
# with the race detector, for the properties about callers that share something
rm -f "$BUILD/simrace"
if [ -n "${WITH_RACE:-}" ]; then
  CGO_ENABLED=1 go build -race -overlay "$BUILD/overlay.json" -modfile "$BUILD/go.mod" -o "$BUILD/simrace" ./verifsim || echo "note: no build with the race detector" >&2
fi
