#!/usr/bin/env python3
"""Builds and validates a planted bug: seed.py SPEC.py

SPEC.py defines id, prop, needs, breaks, edits = [(file, old, new), ...] and
main (a Go program that exits nonzero when the property is broken).  The bug is
made in a scratch copy of /repo, must build, pass the stable tests and fail its
demo, which must pass on the unchanged tree; then it is written to
/verif/seeded/<id>/.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
sid = ns['id']
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOPROXY='off', GOWORK='off', GOFLAGS='')
tmp = tempfile.mkdtemp(prefix='seed-')
repo = tmp + '/repo'
subprocess.run(['cp', '-a', '/repo', repo], check=True)
DEMO = '''#!/bin/bash
# run with cwd at the repository: exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go"; cp "$here/go.sum.txt" "$tmp/go.sum"
sed "s#@REPO@#$PWD#" "$here/go.mod.txt" > "$tmp/go.mod"
cd "$tmp" && @ENV@go run -mod=mod @ARGS@.
'''
try:
    out = V + '/seeded/' + sid
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.sh', 'w').write(DEMO.replace('@ARGS@', ns.get('args', '')).replace('@ENV@', ns.get('setenv', '')))
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/main.go.txt', 'w').write(ns['main'].lstrip())
    mod = open(V + '/harness/go.mod').read().replace('module verifharness', 'module demo').replace('=> /repo', '=> @REPO@')
    open(out + '/go.mod.txt', 'w').write(mod)
    shutil.copy(V + '/harness/go.sum', out + '/go.sum.txt')
    def demo():
        p = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-1500:]
    rc, o = demo()
    if rc: sys.exit('demo fails on the unchanged tree: %d\n%s' % (rc, o))
    for f, old, new in ns['edits']:
        p = repo + '/' + f
        s = open(p).read()
        if s.count(old) != 1: sys.exit('%s: %d matches of %r' % (f, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
    # removed lines should be lines of the original repository
    base = ns.get('base', 'f741294')
    for f, old, new in ns['edits']:
        orig = subprocess.run(['git', 'show', base + ':' + f], cwd=repo, capture_output=True, text=True).stdout.split('\n')
        cur = None
        for l in diff.split('\n'):
            if l.startswith('+++ b/'): cur = l[6:]
            elif cur == f and l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                print('WARNING: changes a line not in the original:', l)
    mf = tmp + '/m.mod'
    shutil.copy(repo + '/go.mod', mf); shutil.copy('/opt/vp/owcrypt.sum', tmp + '/m.sum')
    e2 = dict(env, GOFLAGS='-mod=mod -modfile=' + mf)
    b = subprocess.run(['go', 'build', './...'], cwd=repo, env=e2, capture_output=True, text=True)
    if b.returncode: sys.exit('build: ' + b.stderr)
    t = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m', './...'], cwd=repo, env=e2, capture_output=True, text=True)
    res = {}
    for l in t.stdout.split('\n'):
        try: j = json.loads(l)
        except Exception: continue
        if j.get('Test') and j['Action'] in ('pass', 'fail'): res[j['Package'] + '::' + j['Test']] = j['Action']
    stable = json.load(open('/opt/vp/BASELINE.json'))
    names = stable.get('stable') or stable.get('tests') or stable.get('passed') or stable
    npass = sum(1 for v in res.values() if v == 'pass')
    fails = [k for k, v in res.items() if v != 'pass']
    rc, o = demo()
    print('tests pass %d fail %s; demo with patch rc=%d: %s' % (npass, fails, rc, o.strip()[-400:]))
    if rc == 0: sys.exit('demo does not fail with the patch')
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    print('ok', sid)
finally:
    shutil.rmtree(tmp)
