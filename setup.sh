#!/bin/bash
# Warms the Go build cache; every check rebuilds from /repo by itself.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp "$here/mc/go.mod" "$work/go.mod" && cp "$here/mc/go.sum" "$work/go.sum" || exit 1
cd "$here/mc" && go build -buildvcs=false -modfile="$work/go.mod" -o "$work/mc" . || exit 1
mkdir -p "$here/evidence"
# the race-detector build of C17
mkdir "$work/src" && go build -buildvcs=false -modfile="$work/go.mod" -o "$work/instr" ./instr && "$work/instr" /repo "$work/src" >/dev/null \
  && go build -buildvcs=false -modfile="$work/go.mod" -race -tags sched -overlay "$work/src/overlay.json" -o "$work/mcr" . || echo "setup: C17 build not warmed" >&2
exit 0
