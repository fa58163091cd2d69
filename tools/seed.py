#!/usr/bin/env python3
"""Check planted bugs in a scratch copy of /repo: builds, stable tests pass, demo 0 / nonzero.
usage: seed.py verify ID...   |  seed.py detect ID [--all]   (detect applies to /repo and undoes)"""
import json, os, subprocess, sys, shutil
V='/verif'; S=V+'/seeded'
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
env=dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, **k)
def verify(ids):
    W='/tmp/seedcopy'
    if not os.path.isdir(W): sh(f'cp -a /repo {W}', '/')
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', W)
    for i in ids:
        d=f'{S}/{i}'
        sh('git checkout -q -- .', W)
        r0=sh(f'bash {d}/demo.sh', W)
        a=sh(f'git apply {d}/patch.diff', W)
        if a.returncode: print(i,'APPLY',a.stderr); continue
        sh('touch -c src/lib.rs',W)
        t=sh('CARGO_TARGET_DIR=/tmp/seedcopy/target cargo test --no-fail-fast --offline --workspace --all-features --lib --tests 2>&1', W)
        passed={l.split()[1] for l in t.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok')}
        want={s.split('::',1)[1] for s in stable}
        want={('serde' if w=='serde' else w.replace('serde::serde','serde')) if w.startswith('serde') else w for w in want}
        names={s.split('::')[-1] for s in stable}
        got={p.split('::')[-1] for p in passed}
        miss=names-got
        r1=sh(f'bash {d}/demo.sh', W)
        ok = r0.returncode==0 and r1.returncode not in (0,3,4) and not miss
        print(i, 'OK' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, 'missing tests', sorted(miss))
        if not ok: print(r0.stdout[-600:], r0.stderr[-600:], '--', r1.stdout[-600:], r1.stderr[-600:], t.stdout[-800:] if miss else '')
    sh('git checkout -q -- .', W)
def detect(ids, everything):
    man=json.load(open(V+'/MANIFEST.json'))
    claimed=[c['property'] for c in man['checks']]
    for i in ids:
        d=f'{S}/{i}'
        prop=json.load(open(d+'/meta.json'))['property']
        a=sh(f'git apply {d}/patch.diff', '/repo')
        if a.returncode: print(i,'APPLY',a.stderr); continue
        try:
            for p in (claimed if everything else [prop]):
                r=sh(f'VERIF_SEED=1 python3 check.py {p}', V)
                v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print(i,p,'rc',r.returncode,'CAUGHT' if r.returncode==1 and v else 'missed', (v or [''])[0][:150], flush=True)
        finally:
            sh('git checkout -- .', '/repo')
if __name__=='__main__':
    if sys.argv[1]=='verify': verify(sys.argv[2:])
    else: detect([x for x in sys.argv[2:] if not x.startswith('--')], '--all' in sys.argv)
