#!/usr/bin/env python3
"""Confirms planted bugs and runs checks against them (development tool; no check reads /verif/seeded).

  seeded.py confirm ID...          builds, stable tests, demo with and without the patch
  seeded.py catch [-p C01] ID...   runs the property's check (or -p) on a patched copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)
def copy(patch=None):
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    r = d + '/repo'
    sh(f'cp -a /repo {r}')
    sh(f'git -C {r} checkout -q -- .')
    if patch:
        p = sh(f'git -C {r} apply {patch}')
        if p.returncode: print('APPLY FAILED', p.stderr)
    return d, r
def tests(d, r):
    s = open('/opt/vp/test.sh').read().replace('/opt/vp/out', d + '/out').replace('cd /repo', 'cd ' + r)
    open(d + '/test.sh', 'w').write(s)
    sh(f'bash {d}/test.sh {d}/t.json')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    t = json.load(open(d + '/t.json'))['passed']
    return [x for x in b if x not in t]
def demo(i, r):
    t = tempfile.mkdtemp(prefix='demo', dir='/tmp')
    for f in os.listdir(f'{V}/seeded/{i}'):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(f'{V}/seeded/{i}/{f}', t)
    p = sh(f'timeout 300 bash {t}/demo.sh', cwd=r)
    shutil.rmtree(t)
    return p.returncode, (p.stdout + p.stderr)[-300:].strip()
def main():
    mode, args = sys.argv[1], sys.argv[2:]
    prop = None
    if args[:1] == ['-p']: prop, args = args[1], args[2:]
    if not args: args = sorted(os.listdir(V + '/seeded'))
    for i in args:
        d, r = copy(f'{V}/seeded/{i}/patch.diff')
        try:
            if mode == 'confirm':
                b = sh(f'. /opt/vp/env.sh; cd {r} && go build ./... && go vet ./cmd/... ', executable='/bin/bash')
                m = tests(d, r)
                c = demo(i, '/repo'); x = demo(i, r)
                ok = b.returncode == 0 and not m and c[0] == 0 and x[0] != 0
                print('OK ' if ok else 'BAD', i, 'build', b.returncode, 'missing', m, 'clean', c[0], c[1] if c[0] else '', 'mutant', x[0], '|', x[1].replace('\n', ' / ')[:200], flush=True)
            else:
                ps = [prop] if prop else [json.load(open(f'{V}/seeded/{i}/meta.json'))['property']]
                for p in ps:
                    o = sh(f'REPO={r} VERIF_SEED=1 VERIF_TIER=quick ./run.sh {p}', cwd=V)
                    v = [l for l in o.stdout.splitlines() if l.startswith('VIOLATION')]
                    msg = [l for l in o.stdout.splitlines() if l.startswith('# ')]
                    print({1: 'CAUGHT', 0: 'MISSED'}.get(o.returncode, f'RC{o.returncode}'), p, i, (msg or v or [o.stderr[-300:]])[0][:220], flush=True)
        finally:
            shutil.rmtree(d)
main()
