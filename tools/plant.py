#!/usr/bin/env python3
"""Writes /verif/seeded from the list below: each planted bug is a set of text replacements against /repo's HEAD."""
import json, os, subprocess, shutil, sys
V='/verif'; S=V+'/seeded'; W='/tmp/plantcopy'
TEMPLATE=open(V+'/tools/demo.sh.template').read()
PLANTS=[]
def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append((id,prop,edits,needs,breaks,demo))
exec(open(V+'/tools/plants.py').read())
def sh(c, cwd=W): 
    r=subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
    if r.returncode: sys.exit(f'{c}: {r.stderr}')
    return r.stdout
only=sys.argv[1:]
if os.path.isdir(W): shutil.rmtree(W)
sh(f'git clone -q /repo {W}', '/')
for id,prop,edits,needs,breaks,demo in PLANTS:
    if only and id not in only: continue
    sh('git checkout -q -- .')
    for f,a,b in edits:
        p=f'{W}/{f}'; t=open(p).read()
        if t.count(a)!=1: sys.exit(f'{id}: {f}: {t.count(a)} matches of {a!r}')
        open(p,'w').write(t.replace(a,b))
    d=f'{S}/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git diff'))
    open(d+'/meta.json','w').write(json.dumps({'property':prop,'needs':needs,'what_it_breaks':breaks},indent=1)+'\n')
    open(d+'/demo.sh','w').write(TEMPLATE); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.rs','w').write(demo.strip()+'\n')
shutil.rmtree(W)
print('ok')
