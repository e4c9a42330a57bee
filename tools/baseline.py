#!/usr/bin/env python3
# Regenerates contracts/baseline.json (loop/closure structure and text hash of every function under
# contract on the reference tree, and whether it is proved there).  Run by hand after changing contracts.
# One extraction and one verifier run per property, as `check` does it.
import json, subprocess, sys, tempfile, os
from concurrent.futures import ThreadPoolExecutor
V='/verif'; C=json.load(open(f'{V}/contracts/props.json'))
only=sys.argv[1:]
subprocess.run(['cargo','build','--release','--offline','-q','--target-dir',f'{V}/target/vx','--manifest-path',f'{V}/vx/Cargo.toml'],stderr=subprocess.DEVNULL)
out=json.load(open(f'{V}/contracts/baseline.json')) if only else {}
W=tempfile.mkdtemp(prefix='bl')
def one(p):
    ts=C['props'][p]['templates']
    if not ts: return p,[],''
    f=f'{W}/{p}'
    subprocess.check_call([f'{V}/target/vx/release/vx','--src','/repo/src','--out',f+'.rs','--map',f+'.json']+[f'{V}/contracts/{t}.vrs' for t in ts+['main']])
    q=subprocess.run(['verus',f+'.rs','--triggers-mode','silent','--no-report-long-running','--rlimit','60','--num-threads','3'],capture_output=True,text=True,cwd=W)
    return p,json.load(open(f+'.json')),q.stdout[-200:].strip()+'\n'+('' if ' 0 errors' in q.stdout else q.stderr[-2500:])
bad=0
with ThreadPoolExecutor(3) as ex:
    for p,m,o in ex.map(one,only or sorted(C['props'])):
        print(p,o.strip())
        if ' 0 errors' not in o and m: bad=1
        for r in m:
            if r['status']=='lost': print('LOST',r['id'],r['why'])
            out[r['id']]={k:r.get(k) for k in('status','loops','closures','hash')}
subprocess.run(['rm','-r',W])
if bad: sys.exit('not all proved: baseline not written')
json.dump(out,open(f'{V}/contracts/baseline.json','w'),indent=0,sort_keys=True)
