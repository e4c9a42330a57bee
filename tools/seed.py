#!/usr/bin/env python3
"""seed.py ID: (re)creates /verif/seeded/ID from tools/seeds/ID.py and validates it in a scratch copy.
tools/seeds/ID.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust body of main)."""
import sys, os, json, subprocess, shutil
V='/verif'; S='/tmp/sc'
DEMO_SH='''#!/bin/bash
# exit 0 if the property holds on the demonstrated input, nonzero otherwise; run with cwd = the repository after a build
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
rlib=target/debug/libgraphbench.rlib
[ -f $rlib ] || exit 3
ext=""; for c in fxhash itertools; do f=$(ls -t target/debug/deps/lib$c-*.rlib 2>/dev/null | head -1); [ -n "$f" ] && ext="$ext --extern $c=$f"; done
rustc --edition 2021 -Awarnings -C debug-assertions=on -L dependency=target/debug/deps --extern graphbench=$rlib $ext "$here/demo.rs" -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
def run(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def one(i):
    ns={}; exec(open(f'{V}/tools/seeds/{i}.py').read(),ns)
    d=f'{V}/seeded/{i}'; os.makedirs(d,exist_ok=True)
    run(f'rsync -a --delete /repo/ {S}/' if shutil.which('rsync') else f'rm -rf /tmp/sc && cp -a /repo {S}')
    run(f'git -C {S} checkout -q -- .')
    open(f'{d}/demo.rs','w').write('#![allow(non_snake_case,unused)]\nuse graphbench::graph::*;\nuse graphbench::iterators::*;\nuse graphbench::editgraph::EditGraph;\nuse graphbench::editdigraph::EditDigraph;\nuse graphbench::ordgraph::OrdGraph;\nuse graphbench::algorithms::*;\nuse graphbench::operations::*;\nuse std::collections::*;\n'+ns.get('PRE','')+'\nfn main() {\n'+ns['DEMO']+'\n}\n')
    open(f'{d}/demo.sh','w').write(DEMO_SH); os.chmod(f'{d}/demo.sh',0o755)
    json.dump(dict(property=ns['PROP'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(f'{d}/meta.json','w'),indent=1)
    b='export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1; cd '+S+' && cargo build --offline --workspace 2>&1'
    r=run(b); assert r.returncode==0
    r=run(f'bash {d}/demo.sh',cwd=S)
    if r.returncode!=0: print(i,'DEMO FAILS ON UNCHANGED',r.stdout[-500:],r.stderr[-1500:]); return
    for f,a,c in ns['EDITS']:
        p=f'{S}/src/{f}'; t=open(p).read(); assert t.count(a)==1,(i,f,t.count(a),a); open(p,'w').write(t.replace(a,c))
    open(f'{d}/patch.diff','w').write(run(f'git -C {S} diff').stdout)
    r=run(b)
    if r.returncode!=0: print(i,'DOES NOT BUILD',r.stdout[-1500:]); return
    r=run(f'bash {d}/demo.sh',cwd=S)
    if r.returncode in(0,3): print(i,'DEMO PASSES WITH PATCH' if r.returncode==0 else 'demo compile'+r.stderr[-800:]); return
    t=run(f'cd {S} && rm -f resources/temp.txt resources/set.txt resources/vec.txt; cargo test --workspace --offline --no-fail-fast -- --test-threads 8 2>&1')
    bad=[l for l in t.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    print(i,'OK' if t.returncode==0 else 'TESTS FAIL '+str(bad[:4]))
for i in sys.argv[1:]: one(i)
