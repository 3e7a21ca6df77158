#!/bin/bash
# Builds C22 and, with the oldest toolchain that is installed, the program that
# makes the calls under a failing source: since Go 1.24 crypto/rand.Read ends
# the process, which hides what the library does with an error.
set -u
cd "$VERIF_ROOT/harness"
TIER=$1
shift
D=$(mktemp -d /tmp/c22.XXXXXX)
trap 'rm -rf "$D"' EXIT
if ! go build -o "$D/main" ./cmd/c22 2>"$D/log"; then
  cat "$D/log" >&2
  echo "C22: build failed" >&2
  exit 2
fi
export C22_OLD=
for g in /opt/veriftools/go1.23.*/bin; do
  if [ -x "$g/go" ] && PATH=$g:$PATH go build -o "$D/old" ./cmd/c22 2>"$D/log"; then
    C22_OLD=$D/old
  fi
done
[ -n "$C22_OLD" ] || { echo "C22: no build with Go 1.23"; head -c 1000 "$D/log"; } >&2
"$D/main" "$TIER" "$@"
