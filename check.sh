#!/bin/bash
# check.sh ID [quick|thorough] [extra mc flags]
# Rebuilds the explorer against /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}; shift; shift 2>/dev/null
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
unset TRACE DEBUG DLOG LOG 2>/dev/null
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/mc/go.mod" "$work/go.mod" && cp "$here/mc/go.sum" "$work/go.sum" || exit 2
build() { (cd "$here/mc" && go build -buildvcs=false -modfile="$work/go.mod" "$@") > "$work/build.log" 2>&1; }
ok=1
if [ "$id" = C17 ]; then
  # the library with a scheduling point before every statement, under the race detector
  mkdir "$work/src"
  build -o "$work/instr" ./instr && "$work/instr" /repo "$work/src" > "$work/points" 2> "$work/build.log" \
    && build -race -tags sched -overlay "$work/src/overlay.json" -o "$work/mc" . || ok=0
  if [ $ok = 0 ]; then # the sources defeat the instrumenter: explore without preemptions
    cat "$work/build.log" >&2
    echo "C17: instrumented build failed, scheduling points only between operations" >&2
    printf '{"Replace":{"/repo/zz_verif_sched.go":"%s/zz.go"}}' "$work" > "$work/o.json"
    printf 'package bin\n\nvar VerifHook func()\n' > "$work/zz.go"
    export MC_NOYIELD=1
    ok=1; build -race -tags sched -overlay "$work/o.json" -o "$work/mc" . || ok=0
  fi
else
  build -o "$work/mc" . || ok=0
fi
if [ $ok = 0 ]; then
  echo "HARNESS: build failed" >&2; tail -30 "$work/build.log" >&2; exit 2
fi
"$work/mc" "$id" -tier "$tier" -dir "$here" "$@"
