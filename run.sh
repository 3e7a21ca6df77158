#!/bin/bash
# usage: run.sh C01 quick|thorough|replay [file]
# Builds the check from /repo's current working tree and runs it.
set -u
cd "$(dirname "$0")"
export VERIF_ROOT=$PWD
ID=$1
TIER=${2:-quick}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS= CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
low=$(echo "$ID" | tr A-Z a-z)
mkdir -p .bin evidence/replay
if [ -x "harness/cmd/$low/run.sh" ]; then
  exec bash "harness/cmd/$low/run.sh" "$TIER" "${@:3}"
fi
BIN=$PWD/.bin/$low
rm -f "$BIN"
if ! (cd harness && go build -o "$BIN" "./cmd/$low") 2>.bin/$low.build; then
  cat .bin/$low.build >&2
  echo "$ID: build failed" >&2
  exit 2
fi
OUT=.bin/$low.out
"$BIN" "$TIER" "${@:3}" >"$OUT" 2>.bin/$low.err
rc=$?
cat "$OUT"
head -c 20000 .bin/$low.err >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && [ $rc -ne 3 ]; then
  # a crash of the whole process that no recover can catch (concurrent map
  # writes, stack exhaustion, unrecovered panic on another goroutine) is a
  # behaviour of the code under test
  if grep -qE '^(fatal error:|panic:|unexpected fault address|SIGSEGV|runtime: goroutine stack exceeds)' .bin/$low.err && ! grep -qE 'out of memory|cannot allocate|^panic: mc: ' .bin/$low.err; then
    cp .bin/$low.err "evidence/replay/$ID-crash.txt"
    echo "VIOLATION property=$ID replay=$VERIF_ROOT/evidence/replay/$ID-crash.txt"
    echo "  the process crashed: $(grep -m1 -E '^(fatal error:|panic:|unexpected fault|runtime: goroutine)' .bin/$low.err)"
    exit 1
  fi
fi
exit $rc
