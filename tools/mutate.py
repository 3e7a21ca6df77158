#!/usr/bin/env python3
"""Measures the checks: single-site changes of the library which compile and
pass the stable tests, run against the checks of the file they are in.

mutate.py OUT.jsonl CAP WORKERS [file-substring ...]

Works on scratch copies of /repo and /verif under /tmp, never on /repo.
"""
import json, os, random, shutil, subprocess, sys, threading, queue, time
V = '/verif'
OUT, CAP, W = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
want = sys.argv[4:]
TIMEOUT = float(os.environ.get('MUT_TIMEOUT', 170))
MAP = [
 ('sm2_std.go', 'C05 C10 C09 C08 C04 C17 C22'), ('ecdsa.go', 'C07 C06 C04 C17 C22'), ('secp256', 'C04 C05 C06 C07'),
 ('eccset.go', 'C17 C05 C04 C12 C13 C16 C08 C09 C11 C07'), ('hashset.go', 'C03 C01'), ('utils.go', 'C03 C05 C17 C04 C12 C11 C07 C22'),
 ('profile.go', 'C17'), ('curve.go', 'C04 C17'), ('init.go', 'C04 C17'),
 ('eddsa/edwards25519', 'C12 C11'), ('eddsa/', 'C12 C11 C17 C22'),
 ('pasta/', 'C16 C15 C05 C17 C22'), ('bls12_381/', 'C14 C13 C17'), ('blake', 'C02 C01'), ('sha3', 'C02 C01'), ('sm3', 'C02 C01 C03'),
]
SKIP = ('arithmetic_fallback.go', 'keccakf.go', 'xor_generic.go', 'edwards25519/const.go', 'isogeny.go')
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='',
           GOMAXPROCS=str(max(1, 8 // W)), MC_HANG='90s', MC_BUDGET='600s')
stable = {}
for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
    p, n = t.rsplit('/', 1)
    stable.setdefault('./' + p[len('github.com/blocktree/go-owcrypt'):].lstrip('/'), []).append(n)
files = subprocess.run('find . -name "*.go" -not -name "*_test.go"', shell=True, cwd='/repo', capture_output=True, text=True).stdout.split()
subprocess.run(['go', 'build', '-o', '/tmp/mutants.bin', './cmd/mutants'], cwd=V + '/harness', env=env, check=True)
jobs = []
for f in sorted(files):
    f = f[2:]
    if any(s in f for s in SKIP) or (want and not any(w in f for w in want)): continue
    checks = next((c for k, c in MAP if k in f), None)
    if not checks: print('unmapped', f); continue
    ms = [json.loads(l) for l in subprocess.run(['/tmp/mutants.bin', '/repo/' + f], capture_output=True, text=True, check=True).stdout.splitlines()]
    random.Random(f + os.environ.get('MUT_SEED', '')).shuffle(ms)
    n = min(len(ms), CAP)
    for m in ms[:n]: jobs.append((f, checks.split(), m))
print(len(jobs), 'changes', flush=True)
random.Random(1).shuffle(jobs)
done = set((r['file'], r['a'], r['what']) for r in map(json.loads, open(OUT))) if os.path.exists(OUT) else set()
jobs = [j for j in jobs if (j[0], j[2]['a'], j[2]['what']) not in done]
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock()
stats = {}
def run(cmd, cwd, t=TIMEOUT, e=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors='replace')
    if os.environ.get('MUT_NICE'):   # each session is a scheduling group of its own
        try: open('/proc/%d/autogroup' % p.pid, 'w').write(os.environ['MUT_NICE'])
        except OSError: pass
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 'timeout', ''
def worker(w):
    d = '/tmp/mut%d' % w
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    os.makedirs(d + '/verif')
    for x in ('harness', 'run.sh', 'known_findings.txt'): subprocess.run(['cp', '-a', V + '/' + x, d + '/verif/'], check=True)
    m = open(d + '/verif/harness/go.mod').read().replace('=> /repo', '=> ' + d + '/repo')
    open(d + '/verif/harness/go.mod', 'w').write(m)
    for x in os.listdir(d + '/verif/harness/cmd'):   # plain builds only
        p = d + '/verif/harness/cmd/' + x + '/run.sh'
        if os.path.exists(p) and x not in ('c22', 'c23'): os.remove(p)
    shutil.copy(V + '/harness/go.sum', d + '/h.sum')
    shutil.copy('/repo/go.mod', d + '/r.mod'); shutil.copy(V + '/harness/go.sum', d + '/r.sum')
    te = dict(env, GOFLAGS='-mod=mod -modfile=' + d + '/r.mod')
    while True:
        try: f, checks, m = q.get_nowait()
        except queue.Empty: break
        src = open('/repo/' + f, 'rb').read()
        open(d + '/repo/' + f, 'wb').write(src[:m['a']] + m['repl'].encode() + src[m['b']:])
        rec = dict(file=f, line=m['line'], func=m['func'], what=m['what'], a=m['a'])
        try:
            rc, o = run(['go', 'build', './...'], d + '/repo', e=te)
            if rc: rec['r'] = 'nocompile'; continue
            bad = False
            for p, n in stable.items():
                rc, o = run(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', '-run', '^(' + '|'.join(n) + ')$', p], d + '/repo', e=te)
                if rc: bad = True; break
            if bad: rec['r'] = 'tests'; continue
            rec['r'] = 'SURVIVED'
            for c in checks:
                rc, o = run(['bash', 'run.sh', c, 'quick'], d + '/verif')
                if rc == 1 and 'VIOLATION property=' + c in o: rec['r'] = c; break
                if rc == 0 and 'exhaustive=false' in o: rec['cut'] = rec.get('cut', '') + c
                if rc != 0: rec['r'] = 'noanswer %s %s' % (c, rc); rec['out'] = o[-500:]; break
        finally:
            open(d + '/repo/' + f, 'wb').write(src)
            with lock:
                stats[rec['r']] = stats.get(rec['r'], 0) + 1
                open(OUT, 'a').write(json.dumps(rec) + '\n')
                if rec['r'] == 'SURVIVED' or rec['r'].startswith('noanswer'): print(json.dumps(rec), flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
print(json.dumps(stats))
