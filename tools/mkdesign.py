#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (per-property section, planted-bug table) from the contract templates,
contracts/props.json and seeded/*/meta.json. Prose lives here."""
import json,re,glob,os
V='/verif'
C=json.load(open(f'{V}/contracts/props.json'))
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
# functions per property from the directives
own={}
for f in sorted(glob.glob(f'{V}/contracts/*.vrs')):
    cur=[]
    for l in open(f):
        m=re.match(r'//@ props\s*(.*)',l)
        if m: cur=m[1].split(); continue
        m=re.match(r'//@ fn (\S+) (\S+) (\S+)(.*)',l)
        if m:
            ps=cur
            q=re.search(r'props=(\S+)',m[4])
            if q: ps=q[1].split(',')
            for p in ps: own.setdefault(p,{}).setdefault((m[1],m[2].split(':')[-1] if not m[2].startswith('impl:') else m[2][5:]),[]).append(m[3])
T={
'C01':"`EditGraph` views as a ghost graph (vertex set, symmetric adjacency relation, edge count). A type invariant ties `adj`, `degs`, `m` to it (symmetry, `degs[v]` = number of incident ends, `m` = number of edges). Every mutator has an exact postcondition on the new ghost graph and its return value, so any history follows by induction; queries return exactly the ghost value.",
'C02':"Same design for `EditDigraph` with in-/out-maps mirroring each other as part of the invariant.",
'C03':"Each generator's postcondition states vertex set and adjacency of the family in closed form, for all parameters whose ids fit (`sum of parts < 2^32`, `w*h < 2^32`). Loop invariants describe the partial graph.",
'C04':"Each iterator struct has a ghost remaining sequence; `next` returns its head or None exactly at the end; constructors establish that the whole sequence lists every vertex/edge/arc exactly once (for any fixed hash order).",
'C05':"Contracts on the default methods of the `Graph`/`Digraph` traits themselves, against the abstract interface (proved once for all implementors). `r_neighbourhood` against a recursive ball definition, with lemmas linking it to paths.",
'C06':"Contracts on the bulk default methods of `MutableGraph`/`MutableDigraph`: the resulting ghost graph and the returned count.",
'C07':"Postconditions give the offset copy edge by edge and, for `normalize`, the rank bijection and the exact isomorphism; the offset's representability is the precondition.",
'C08':"Postcondition of `contract_into` is the quotient graph; `contract_pair`/`contract` are proved against it.",
'C09':"Each operation's postcondition is the textbook definition; products also return the bijection; `subdivide` is stated on paths of fresh vertices through a ghost numbering of the edges.",
'C10':"`compare_subgraph` against containment of the ghost graphs; `eq` returns exactly equality of ghost graphs; `clone` returns an equal one.",
'C11':"The result lists non-empty disjoint sets covering V; two vertices share one iff a ghost path joins them. The union-find crate has an assumed contract.",
'C12':"`degeneracy`: the order lists V; no vertex has more than `upper` earlier neighbours; a ghost witness subgraph of minimum degree `lower` exists; for every vertex set the minimum induced degree is at most `upper` (so the true degeneracy lies between). Includes bucket-queue termination and absence of overflow.",
'C13':"`is_bipartite` returns either a proper 2-partition of V or an odd cyclic sequence of distinct vertices, consecutive ones adjacent; loops included.",
'C14':"`OrdGraph` has an invariant (positions are a bijection, left/right lists sorted and exactly the earlier/later neighbours). `with_ordering` establishes it; `swap` yields exactly the invariant for the exchanged ordering.",
'C15':"`DegenGraph`'s packed u32 array has a layout invariant (a record per vertex, chained offsets, left neighbours as offsets of earlier records). Every unchecked access has an in-bounds precondition that is discharged; builder, iterators and queries are exact; `normalize` returns the isomorphic copy.",
'C16':"`ReachGraph`'s packed array has a layout invariant (header with cumulated segment ends, then the segments). `to_sreach_graph`/`to_wreach_graph` store exactly the sets of C17 in order; all segment accesses in bounds; const generic DEPTH unrestricted.",
'C17':"Ghost definition of restricted distance (BFS levels through vertices right of the root). `right_bfs`, `wreach_set(s)`, `sreach_set(s)`, and the sizes are exact; proved once for every `LinearGraph`.",
'C18':"Colours are total and proper, no panic, number of colours at most 1 + max left degree (pigeonhole lemma).",
'C19':"Ghost distance as shortest walk; domination, distance bounds and witness scatteredness proved for `domset` and `domset_with_target`, using C17's contracts and a lemma on the minimum vertex of a shortest path.",
'C20':"Classes partition the target; any two distinct members are at distance >= the requested distance (weak-reachability path lemma, greedy colouring of the auxiliary graph).",
'C21':"`bk_pivot_count` counts exactly the maximal cliques extending R within P and avoiding X (well-founded recursion, pivot lemma); `count_max_cliques` sums over the ordering with a partition lemma.",
'C22':"`aug()` is the closure invariant of an augmentation of depth d: short distances are realised through a common in-neighbour. `orient`, `augment` (frat/trans tails), `orient_deep` preserve it, `small_distance` is exact under it.",
'C23':"Ghost map of weighted arcs; every counter, degree, iterator, view, and conversion equals it; `reserve_depth` only grows.",
'C24':"Result is a subset of V and every vertex is within the radius, by the recorded-distance invariant (a recorded distance is realised by a set vertex) and coverage of the in-neighbourhoods.",
'C25':"Ghost context invariant: the multiset of masks stored for anchor `a` is the multiset of left-neighbourhood prefixes ending in `a`, restricted to `a`'s 2-reachable context. `compute_traces` and `compute_neighbour_count` are proved exact from it by induction over the prefixes of the query, and `is_shattered` from `compute_traces` by counting the sublists of the query.",
'C26':"Text is a ghost sequence of lines (each text or failure). `from_buf` returns the listed graph iff each line is two numbers, else an error; no panic for any content. Writers produce text whose reading returns the object (lemmas over the same contracts).",
'C27':"Direct postconditions on maps, colourings and `VertexOrEdge`.",
}
A={'own':''}
out=[]
for d in props:
    i=d['id']; p=C['props'].get(i)
    if not p:
        out.append(f"### {i} {d['title']}\n\nNot applicable: {C.get('na',{}).get(i,'contracts not written yet')}\n"); continue
    fs=own.get(i,{})
    fl='; '.join(f"{a} `{b}`: {', '.join(x)}" for (a,b),x in fs.items())
    n=sum(len(x) for x in fs.values())
    s=f"### {i} {d['title']}\n\n{T[i]}\n\n- Templates: {', '.join(p['templates'])}.\n- Functions under contract for this property ({n}; callees are verified in the same run): {fl}.\n"
    if p.get('assumptions'): s+='- Assumptions/bounds on inputs: '+'; '.join(p['assumptions'])+'.\n'
    if p.get('bounded'): s+='- Bounded only, not proved: '+'; '.join(p['bounded'])+'.\n'
    if p.get('note'): s+='- Note: '+p['note']+'.\n'
    out.append(s)
caught=json.load(open(f'{V}/tools/caught.json'))
rows=['| id | property | what it breaks | caught by |','|---|---|---|---|']
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    rows.append(f"| {i} | {j['property']} | {j['what_it_breaks'].replace('|','/')} | {caught.get(i,'')} |")
D=open(f'{V}/DESIGN.md').read()
def fill(D,name,txt):
    a,b=f'<!-- BEGIN {name} -->',f'<!-- END {name} -->'
    return D[:D.index(a)+len(a)]+'\n'+txt+'\n'+D[D.index(b):]
D=fill(D,'PROPERTIES','\n'.join(out)); D=fill(D,'BUGS','\n'.join(rows))
open(f'{V}/DESIGN.md','w').write(D)
