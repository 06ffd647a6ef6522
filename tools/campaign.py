#!/usr/bin/env python3
"""Mutation campaign (development tool).

  campaign.py OUT N SEED FILE...   N random mutants of the files of /repo; each that builds and passes the
                                   stable tests is given to the checks, run with few cases; OUT gets a line each
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
ENV = dict(os.environ)
def sh(cmd, cwd=None, t=900):
    try:
        return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], capture_output=True, text=True, errors='replace', cwd=cwd, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')
PROPS = [('C05', .15), ('C04', .15), ('C03', .06), ('C01', .04), ('C07', .1), ('C11', .15), ('C10', .05), ('C06', .15), ('C02', .1), ('C15', .05), ('C08', .05), ('C09', .05), ('C12', .1), ('C13', .1), ('C14', .1), ('C16', .1)]
ORDER = {'cmd': ['C12', 'C13', 'C14', 'C16'], 'ast': ['C11', 'C07', 'C05', 'C04', 'C09'], 'compiler': ['C06', 'C07', 'C10', 'C09'], 'printer': ['C06', 'C07', 'C09', 'C10']}
def main():
    out, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    d = tempfile.mkdtemp(prefix='camp', dir='/tmp')
    r = d + '/repo'
    sh(f'cp -a /repo {r}')
    o = sh('go run ./tools/mutate ' + ' '.join('/repo/' + f for f in files), cwd=V)
    ms = [json.loads(l) for l in o.stdout.splitlines()]
    random.Random(seed).shuffle(ms)
    s = open('/opt/vp/test.sh').read().replace('/opt/vp/out', d + '/out').replace('cd /repo', 'cd ' + r)
    open(d + '/test.sh', 'w').write(s)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    sh(f'go build -o {d}/simdrv ./cmd/simdrv && go build -o {d}/instrument ./cmd/instrument; mkdir -p {d}/v/evidence {d}/v/replays; cp go.sum {d}/ ; sed "s#=> /repo#=> {r}#" go.mod > {d}/go.mod', cwd=V)
    for m in ms[:n]:
        f = m['file'].replace('/repo/', '')
        src = open(m['file'], 'rb').read()
        open(f'{r}/{f}', 'wb').write(src[:m['off']] + m['text'].encode() + src[m['end']:])
        res = ''
        try:
            if sh('go build ./... && go vet ./cmd/... .', cwd=r).returncode:
                res = 'nobuild'
                continue
            sh(f'timeout 100 bash {d}/test.sh {d}/t.json', t=120)
            t = json.load(open(d + '/t.json'))['passed'] if os.path.exists(d + '/t.json') else []
            if [x for x in stable if x not in t]:
                res = 'tests'
                continue
            bins = {}
            order = ORDER.get(f.split('/')[0], [p for p, _ in PROPS if p not in ('C12', 'C13', 'C14', 'C16')])
            res = 'SURVIVED'
            for p in order:
                fac = dict(PROPS)[p]
                b = sh(f'{d}/simdrv -prop {p} -which').stdout.strip()
                if b not in bins:
                    bins[b] = True
                    race = '-race' if b == 'simrace' else ''
                    pkg = 'simlib' if b == 'simrace' else b
                    x = sh(f'rm -rf {d}/ov; mkdir {d}/ov; {d}/instrument -repo {r} -out {d}/ov -verif {V} {race} && go build -modfile {d}/go.mod {race} -overlay {d}/ov/overlay.json -o {d}/{b} ./cmd/{pkg}', cwd=V)
                    if x.returncode: res = 'INSTR ' + x.stderr[-200:]; break
                x = sh(f'{d}/simdrv -bin {d} -verif {d}/v -prop {p} -tier quick -seed 1 -factor {fac} -quick-limit 60', t=400)
                if x.returncode == 1:
                    msg = [l for l in x.stdout.splitlines() if l.startswith(('#', 'VIOLATION'))]
                    res = f'caught {p} ' + re.sub(r'.*replays/', '', msg[-1] if msg else '')[:60]
                    break
                if x.returncode: res = f'RC{x.returncode} {p} {x.stderr[-200:]!r}'
        finally:
            shutil.copy(m['file'], f'{r}/{f}')
            sh(f'rm -f {d}/v/replays/*')
            with open(out, 'a') as fo: fo.write(f"{res} | {f}:{m['line']} {m['what'][:110]!r} off={m['off']} text={m['text'][:40]!r}\n")
    shutil.rmtree(d)
main()
