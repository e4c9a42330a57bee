#!/usr/bin/env python3
import json
V='/verif'
C=json.load(open(f'{V}/contracts/props.json'))
ids=[json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks=[]; na=[]
for i in ids:
    p=C['props'].get(i)
    if p:
        note=p.get('note','')+' Trusted: '+'; '.join(C['assumptions']+p.get('assumptions',[]))+'; the extractor vx and its normalisation; the prelude contracts of std/fxhash collections and iterators (each listed in the evidence file).'
        if p.get('bounded'): note+=' Bounded stand-in only (not proved): '+'; '.join(p['bounded'])+'.'
        checks.append(dict(property=i,quick_cmd=f'./check {i} quick',thorough_cmd=f'./check {i} thorough',evidence_file=f'evidence/{i}.json',technique=p.get('technique','Verus contracts on functions extracted from /repo on every run; bounded oracle runs supply failing inputs'),level=p['level'],level_note=note.strip(),**({'theorems':p['theorems']} if 'theorems' in p else {})))
    else: na.append(dict(property=i,reason=C.get('na',{}).get(i,'contracts not written yet')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,notes='No hooks in /repo: the harness uses the public API only. See DESIGN.md.')
json.dump(m,open(f'{V}/MANIFEST.json','w'),indent=1)
import subprocess
subprocess.check_call(['python3-vt','-c','import json,jsonschema;jsonschema.validate(json.load(open("/verif/MANIFEST.json")),json.load(open("/root/.vp/MANIFEST.schema.json")))'])
print(len(checks),'claimed')
