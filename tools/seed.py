#!/usr/bin/env python3
"""seed.py SPEC.py...: make and validate planted bugs.
A spec defines: id, prop, edits=[(file, old, new)], demo (Go test body file text), needs, breaks.
Everything happens in a scratch copy of /repo under /tmp."""
import sys, os, subprocess, shutil, json, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
DEMO = '''#!/bin/bash
# Runs demo_test.go as an extra test file of the package in the current directory (overlay: nothing is written there).
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestVerifDemo' .
'''
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        for s in ns['seeds']:
            d = tempfile.mkdtemp(prefix='seed')
            try:
                r = os.path.join(d, 'repo')
                subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
                ok = True
                for f, old, new in s['edits']:
                    p = os.path.join(r, f); t = open(p).read()
                    if t.count(old) != 1:
                        print(s['id'], 'EDIT matches', t.count(old), 'times:', old[:60]); ok = False; break
                    open(p, 'w').write(t.replace(old, new))
                if not ok: continue
                out = '/verif/seeded/' + s['id']
                stage = os.path.join(d, 'stage'); os.mkdir(stage)
                diff = run(['git', 'diff'], r).stdout
                open(stage + '/patch.diff', 'w').write(diff)
                open(stage + '/demo.sh', 'w').write(DEMO); os.chmod(stage + '/demo.sh', 0o755)
                demo = s['demo']
                if not demo.lstrip().startswith('package'):
                    demo = 'package linear\n\n' + demo
                open(stage + '/demo_test.go', 'w').write(demo)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(stage + '/meta.json', 'w'), indent=1)
                b = run(['go', 'build', './...'], r)
                if b.returncode: print(s['id'], 'BUILD', b.stdout[:500]); continue
                t = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], r)
                passed = set()
                for l in t.stdout.splitlines():
                    try: e = json.loads(l)
                    except Exception: continue
                    if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Test'])
                missing = [x for x in base if x.split('::')[-1].split('/')[-1] not in passed and x not in passed and x.split('.')[-1] not in passed and x.split(':')[-1] not in passed]
                if missing: print(s['id'], 'TESTS FAIL', missing[:5]); continue
                dm = run(['bash', stage + '/demo.sh'], r)
                if dm.returncode == 0: print(s['id'], 'DEMO PASSES WITH PATCH'); continue
                if 'build failed' in dm.stdout: print(s['id'], 'DEMO BUILD', dm.stdout[:600]); continue
                dm0 = run(['bash', stage + '/demo.sh'], '/repo')
                if dm0.returncode: print(s['id'], 'DEMO FAILS WITHOUT PATCH', dm0.stdout[:800]); continue
                if os.path.exists(out): shutil.rmtree(out)
                shutil.copytree(stage, out)
                print(s['id'], 'ok')
            finally:
                shutil.rmtree(d, ignore_errors=True)
main()
