#!/bin/bash
# Builds C21 in its variants and runs it; called by /verif/run.sh, which sets
# the environment.
set -u
cd "$VERIF_ROOT/harness"
TIER=$1
shift
export C21_BINS=$(mktemp -d /tmp/c21.XXXXXX)
trap 'rm -rf "$C21_BINS"' EXIT
B=$C21_BINS
ROOT=$(go env GOROOT)
if ! go build -o "$B/main" ./cmd/c21 2>"$B/log" || ! go build -o "$B/instr" ./cmd/instr 2>>"$B/log"; then
  cat "$B/log" >&2
  echo "C21: build failed" >&2
  exit 2
fi
# A sync.Pool that keeps nothing: the standard library's use of pools would
# order calls that the code under test does not order.
cat > "$B/pool.go" <<'GO'
package sync

// Pool never keeps anything, so that it creates no happens-before edges.
type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func runtime_procPin() int
func runtime_procUnpin()
GO
echo "{\"Replace\":{\"$ROOT/src/sync/pool.go\":\"$B/pool.go\"}}" > "$B/pool.json"
mkdir -p "$B/src" "$B/srcr"
inst=0
if "$B/instr" "$B/src" "$B/inst.json" "" >"$B/instr.log" 2>&1 && "$B/instr" "$B/srcr" "$B/instrace.json" "" "$B/pool.json" >>"$B/instr.log" 2>&1; then
  if go build -overlay "$B/inst.json" -o "$B/inst" ./cmd/c21 2>>"$B/instr.log"; then
    inst=1
  fi
fi
[ $inst = 1 ] || { echo "C21: not instrumented:"; head -c 2000 "$B/instr.log"; } >&2
if ! go build -race -overlay "$B/pool.json" -o "$B/race" ./cmd/c21 2>"$B/log"; then
  cat "$B/log" >&2
  echo "C21: race build failed" >&2
  exit 2
fi
go build -race -tags "generic appengine purego" -overlay "$B/pool.json" -o "$B/race-generic" ./cmd/c21 2>"$B/log" || head -c 2000 "$B/log" >&2
if [ $inst = 1 ]; then
  go build -race -overlay "$B/instrace.json" -o "$B/inst-race" ./cmd/c21 2>>"$B/instr.log" || { head -c 2000 "$B/instr.log" >&2; rm -f "$B/inst"; }
fi
"$B/main" "$TIER" "$@"
