#!/usr/bin/env python3
"""Development aid. mutrun.py survive N SEED OUT: sample mutants that build and pass the tests.
mutrun.py check IN OUT: what the checks say about each survivor."""
import json, sys, os, random, subprocess, shutil, collections, concurrent.futures as cf, threading, time
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
W = int(os.environ.get('W', '7'))
def fresh(k):
    d = '/tmp/mutw%d' % k
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    return d
def apply(d, m):
    p = os.path.join(d, m['file'])
    s = open('/repo/' + m['file'], 'rb').read()
    open(p, 'wb').write(s[:m['off']] + m['new'].encode() + s[m['end']:])
def undo(d, m):
    shutil.copy('/repo/' + m['file'], os.path.join(d, m['file']))
def line(m):
    s = open('/repo/' + m['file'], 'rb').read()
    ln = s[:m['off']].count(b'\n') + 1
    return ln, s.split(b'\n')[ln - 1].decode().strip()
def survive(n, seed, out):
    ms = [json.loads(l) for l in open('/tmp/muts.jsonl')]
    rng = random.Random(seed)
    by = collections.defaultdict(list)
    for m in ms: by[m['fn']].append(m)
    pick = []
    for fn in sorted(by):
        l = by[fn]; rng.shuffle(l)
        a = [m for m in l if not m['kind'].startswith('ident')]; b = [m for m in l if m['kind'].startswith('ident')]
        pick.append((a[:12], b[:5]))
    allm = [m for a, b in pick for m in a + b]
    rng.shuffle(allm); allm = allm[:n]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    res = []; lock = threading.Lock(); it = iter(allm)
    def work(k):
        d = fresh(k)
        while True:
            with lock:
                m = next(it, None)
            if m is None: break
            apply(d, m)
            try:
                r = subprocess.run(['go', 'test', '-vet=off', '-count=1', '-timeout', '20s', '-run', '.', '.'], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired: ok = False
            undo(d, m)
            if ok:
                with lock: res.append(m)
        shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(W) as ex: list(ex.map(work, range(W)))
    json.dump(res, open(out, 'w'), indent=0)
    print(len(allm), 'tried', len(res), 'survive')
def check(inp, out, cap):
    ms = json.load(open(inp))
    baser = json.load(open('/tmp/base.json'))
    res = []
    d = fresh(99)
    os.makedirs('/tmp/mutv', exist_ok=True)
    for x in ['lincheck', 'known_findings.txt']:
        if not os.path.exists('/tmp/mutv/' + x): os.symlink('/verif/' + x, '/tmp/mutv/' + x)
    for n, m in enumerate(ms):
        apply(d, m)
        inst = sorted([(r['Wall'], r['spec'].replace('vpSpec_', '') + '[' + r['inst'] + ']') for r in baser if m['fn'] in (r['Funcs'] or [])])
        rng = random.Random(1)
        if len(inst) > cap: inst = rng.sample(inst, cap)
        names = [x[1] for x in inst]
        hits = []
        r = subprocess.run(['/tmp/lincheck', '-all', '-only', 'structural', '-repo', d, '-verif', '/tmp/mutv'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hits += [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        und = 0
        if names:
            jf = '/tmp/mutv/r.json'
            r = subprocess.run(['/tmp/lincheck', '-specs', 'C', '-only', '=;' + ';'.join(names) + ';', '-repo', d, '-verif', '/tmp/mutv'], env=dict(ENV, LINCHECK_JSON=jf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try:
                for x in json.load(open(jf)):
                    for o in x['Checks']:
                        st = o.get('Status', o.get('status'))
                        if st == 'violated': hits.append(x['spec'] + '[' + x['inst'] + '] ' + json.dumps(o)[:200])
                        if st == 'undecided': und += 1
            except Exception as e: hits.append('ERR ' + r.stdout[:300])
        undo(d, m)
        ln, tx = line(m)
        m.update(line=ln, text=tx, hits=hits[:4], nhits=len(hits), und=und, ninst=len(names))
        res.append(m)
        json.dump(res, open(out, 'w'), indent=0)
    shutil.rmtree(d, ignore_errors=True)
if sys.argv[1] == 'survive': survive(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
else: check(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 40)
