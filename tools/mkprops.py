#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand when the list changes).
import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
g="src/graph.rs"; eg="src/editgraph.rs"; ed="src/editdigraph.rs"; it="src/iterators.rs"
p("C01","Undirected graph stays consistent under any edit history",
 "After any sequence of vertex and edge insertions and removals, the editable undirected graph contains exactly the vertices and edges that the same history produces on a mathematical graph (adding an edge adds its end points, removing a vertex removes its incident edges). Adjacency is symmetric, the reported vertex and edge counts are exact, a vertex's degree is its number of incident edge ends (a self-loop counts twice), and every add/remove call returns whether it changed the graph.",
 "every finite sequence of add/remove vertex/edge calls with arbitrary vertex ids, self-loops included","tests run a handful of fixed short edit sequences; nothing covers removals around loops, repeated edits or arbitrary interleavings",
 [eg],[("edit operations keep adjacency, degree table and edge counter in step","src/editgraph.rs: impl MutableGraph for EditGraph"),("queries","src/editgraph.rs: impl Graph for EditGraph")],over=("inputs","histories"),
 state=[("adj/degs/m","adjacency sets, degree table, number of edges","src/editgraph.rs:EditGraph")],observe=["num_vertices","num_edges","adjacent","degree","neighbours","vertices"])
p("C02","Directed graph stays consistent under any edit history",
 "After any sequence of vertex and arc insertions and removals, the editable directed graph contains exactly the vertices and arcs that the same history produces on a mathematical digraph. In- and out-neighbourhoods mirror each other, in-/out-degrees and arc counts are exact, two vertices are adjacent exactly if an arc joins them in either direction, and every add/remove call returns whether it changed the digraph.",
 "every finite sequence of add/remove vertex/arc calls with arbitrary vertex ids, loops and opposite arcs included","tests check a few hand-made digraphs; they never query adjacency against the arc direction nor remove vertices carrying loops or opposite arcs",
 [ed],[("edit operations keep both adjacency maps, both degree tables and the counter in step","src/editdigraph.rs: impl MutableDigraph for EditDigraph"),("queries","src/editdigraph.rs: impl Graph/Digraph for EditDigraph")],over=("inputs","histories"),
 state=[("in_adj/out_adj/in_degs/out_degs/m","mirrored arc tables","src/editdigraph.rs:EditDigraph")],observe=["has_arc","adjacent","in_degree","out_degree","num_edges"])
p("C03","Named generators build exactly the advertised graph",
 "For every parameter value whose vertex ids and degrees are representable, each named generator (path, cycle, matching, star, clique, independent set, biclique, complete multipartite graph, grid; undirected and directed) returns a graph with exactly the documented vertices and exactly the edges of that family. Degenerate parameters (zero or one vertex, empty parts, a single row or column) are included.",
 "all parameter values (all part-size sequences) for which the ids fit","tests compare one or two mid-size instances; boundary parameters such as an empty part or a 1x1 grid are never built",
 [eg,ed],[("generator loops","src/editgraph.rs: impl EditGraph (path..grid)"),("directed generator loops","src/editdigraph.rs: impl EditDigraph (path..grid)")],observe=["vertices","edges"])
p("C04","Iteration yields every vertex, edge and arc exactly once",
 "For every undirected graph and every traversal order of its vertices and neighbours, iterating over the edges returns each edge (self-loops included) exactly once, mixed iteration returns each vertex and each edge exactly once, arc iteration on a digraph returns each arc exactly once with its direction, and neighbourhood iteration returns each vertex with its neighbourhood. Iteration terminates and never panics.",
 "all graphs and digraphs, all internal iteration orders, self-loops and isolated vertices included","tests compare edge sets (which hide duplicates) of a few loop-free graphs",
 [it],[("tie-breaking between the two copies of an edge","src/iterators.rs: EdgeIterator/MixedIterator::next"),("advance to next vertex","src/iterators.rs: advance"),("arc iteration","src/iterators.rs: ArcIterator, DiNeighIterator")],observe=["edges()","vertices_and_edges()","arcs()","neighbourhoods()","in_neighbourhoods()"])
p("C05","Neighbourhood, ball and degree queries are exact for any graph",
 "For every graph and every collection of its vertices, the open neighbourhood query returns exactly the outside vertices adjacent to the collection, the closed query adds the collection itself, the radius-r query returns exactly the vertices at distance at most r, and the degree tables list exactly the degree of every vertex (in-/out-variants follow arc directions).",
 "all graphs/digraphs, all vertex collections (with repetitions), all radii","the tests cover a couple of small balls on fixed graphs; the claim is about unbounded graphs and radii",
 [g],[("default methods of the graph traits","src/graph.rs: trait Graph / trait Digraph default methods")],observe=["neighbourhood","closed_neighbourhood","r_neighbourhood","degrees"])
p("C06","Induced subgraphs and bulk edits do exactly what they say",
 "An induced subgraph contains exactly the selected vertices and exactly the edges between them. Bulk insertion is equivalent to the individual insertions and returns how many changed the graph, removing self-loops removes exactly the loops, and removing isolated vertices removes exactly the vertices without incident edges; both report the number removed.",
 "all graphs, all selections of its vertices, all bulk sequences (repetitions, loops)","tests use single fixed graphs; loops, repeated entries and isolates mixed with edges are not covered",
 [g],[("default methods of the mutable graph traits","src/graph.rs: MutableGraph/MutableDigraph default methods, Graph::subgraph")],over=("inputs","histories"),observe=["subgraph","add_vertices","add_edges","remove_loops","remove_isolates"])
p("C07","Disjoint union and relabelling preserve the graph",
 "The disjoint union of two graphs contains an unchanged copy of the first and a copy of the second shifted by an offset that avoids every id of the first, and nothing else, whenever the shifted ids are representable. Normalising a graph returns an isomorphic copy on vertices 0..n-1 that preserves the relative order of ids together with the exact mapping back to the old ids.",
 "all pairs of graphs whose shifted ids fit; all graphs for normalisation","tests normalise one graph and join one pair",
 [eg,ed],[("disj_union/disj_unions/normalize","src/editgraph.rs"),("directed variants","src/editdigraph.rs")],observe=["disj_union","disj_unions","normalize"])
p("C08","Contracting vertices yields exactly the quotient graph",
 "Contracting a set of vertices into a centre removes the other vertices of the set, leaves the rest of the graph untouched, and makes the centre adjacent to exactly its old surviving neighbours plus all surviving vertices that were adjacent to the set, without creating a new self-loop or duplicate edge.",
 "all graphs, all non-empty vertex sequences (repetitions, centre included, adjacent or not)","tests contract two fixed examples; repeated vertices, self contraction, loops are not exercised",
 [eg],[("contract, contract_pair, contract_into","src/editgraph.rs")],over=("inputs","histories"),observe=["contract","contract_pair","contract_into"])
p("C09","Graph operations return the textbook graph",
 "For all graphs, complement, union, intersection, lexicographic product and Cartesian product return a graph with exactly the vertex set and edge set of the mathematical operation (isolated vertices included), and the products return the exact bijection between new vertices and pairs. Subdividing a loop-free graph replaces every edge by a path through the requested number of fresh vertices, whenever all fresh ids stay below the largest representable id.",
 "all (pairs of) graphs, all subdivision counts whose fresh ids fit","each operation is tested on one or two connected examples",
 ["src/operations.rs"],[("operation loops","src/operations.rs: impl GraphOperations")],observe=["invert","merge","intersect","subdivide","lexicographic_product","cartesian_product"])
p("C10","Comparison, equality and copying respect graph identity",
 "Subgraph comparison answers sub/super/equal/incomparable exactly according to containment of vertices and edges; two editable (di)graphs compare equal exactly if they have the same vertices and edges (arcs); and a copy of a graph equals the original.",
 "all pairs of graphs, histories that lead to the same graph by different edits","tests compare a few generated graphs built the same way",
 ["src/compare.rs",eg,ed],[("compare_subgraph","src/compare.rs"),("PartialEq, Clone","src/editgraph.rs, src/editdigraph.rs")],observe=["compare_subgraph","==","clone"])
p("C11","Connected components partition the graph correctly",
 "For every graph, the returned components are non-empty, pairwise disjoint, cover all vertices, and two vertices lie in the same component exactly if a path joins them.",
 "all graphs","tests count components of a few unions",
 ["src/algorithms/graph.rs"],[("components via disjoint sets","src/algorithms/graph.rs: components")],observe=["components"])
p("C12","Degeneracy ordering is complete and its bounds hold",
 "For every loop-free graph, the degeneracy routine returns an ordering listing every vertex exactly once in which no vertex has more earlier neighbours than the reported upper bound, the reported lower bound never exceeds the true degeneracy, which in turn never exceeds the upper bound.",
 "all loop-free graphs, large degrees included","tests check a few small graphs, all with degrees far below the range where degrees are grouped",
 ["src/algorithms/graph.rs"],[("bucketed elimination","src/algorithms/graph.rs: degeneracy, calc_index")],observe=["degeneracy"])
p("C13","Bipartiteness answer comes with a valid certificate",
 "For every graph, the bipartiteness test returns either a partition of all vertices into two sides with no edge inside a side, or a cyclic sequence of distinct vertices of odd length in which consecutive vertices (cyclically) are adjacent.",
 "all graphs, all internal iteration orders","tests check a few cycles and one family",
 ["src/algorithms/graph.rs"],[("colouring search and path splicing","src/algorithms/graph.rs: is_bipartite")],observe=["is_bipartite"])
p("C14","Ordered graph represents the input graph and ordering, also after swaps",
 "An ordered graph built from any loop-free graph and any ordering of its vertices has the same vertices, edges, degrees and adjacency, reports each vertex at its position, and lists as left/right neighbours exactly the neighbours before/after it, in order. Swapping two vertices gives exactly the ordered graph of the ordering with those two exchanged.",
 "all loop-free graphs, all orderings, all sequences of swaps","one swap sequence on one graph is tested; adjacent swaps with surrounding neighbours are not",
 ["src/ordgraph.rs",g],[("with_ordering, swap","src/ordgraph.rs"),("left/right degree helpers, leftmost/rightmost","src/graph.rs: LinearGraph")],over=("inputs","histories"),state=[("indices/nodes/m","position table, per-position left and right sets, edge count","src/ordgraph.rs:OrdGraph")],observe=["left_neighbours","right_neighbours","index_of","swap"])
p("C15","Compact degenerate graph represents the input; accesses stay in bounds",
 "A compact ordered graph built from any loop-free graph and ordering has the same vertices, edges, degrees and adjacency and exactly the earlier neighbours of each vertex, in order, as left neighbours. Every unchecked memory access stays inside the data structure, and relabelling vertices by position yields the isomorphic graph and the exact mapping.",
 "all loop-free graphs and orderings, the empty graph included; all builder append sequences in order","unchecked accesses have no tests at boundaries; tests compare a few graphs loaded from files",
 ["src/degengraph.rs"],[("packed layout and builder","src/degengraph.rs: DegenGraphBuilder::append"),("unchecked reads","src/degengraph.rs: left_neighbours_slice, normalize")],over=("inputs","histories"),state=[("contents","packed sequence of vertex records linked by next pointers","src/degengraph.rs:DegenGraph")],observe=["left_neighbours","adjacent","degree","normalize"])
p("C16","Reachability graph stores exactly the given reachable sets",
 "A reachability graph built from an ordered graph stores, for every vertex and every distance up to the chosen depth, exactly the vertices reachable at that distance, in the original order; counts, degrees, iteration and adjacency agree with the depth-1 sets, and every access stays inside the data structure.",
 "all ordered graphs, all depths at least 1","tests compare a few graphs at fixed depths",
 ["src/reachgraph.rs","src/ordgraph.rs"],[("packed layout and builder","src/reachgraph.rs: ReachGraphBuilder::append, reachables"),("construction","src/ordgraph.rs: to_wreach_graph, to_sreach_graph")],observe=["reachables","left_neighbours","iter"])
p("C17","Weak and strong reachability sets and distances are exact",
 "For every ordered graph and radius, the layers of the right-restricted search are exactly the vertices at each distance from the root through vertices to the right of it; the weakly r-reachable sets contain exactly the vertices reaching it that way with exact distances; and the strongly r-reachable sets contain exactly the earlier vertices reachable by a path of length at most r whose inner vertices all lie to the right of the start, with exact distances. The size tables agree with the sets.",
 "all loop-free ordered graphs, all roots, all radii that fit in memory","tests compare sizes with themselves and a few literature values",
 ["src/algorithms/lineargraph.rs"],[("right_bfs","src/algorithms/lineargraph.rs"),("sreach/wreach sets and sizes","src/algorithms/lineargraph.rs")],observe=["right_bfs","wreach_sets","sreach_set"])
p("C18","Greedy colouring is complete and proper",
 "For every ordered loop-free graph, greedy colouring assigns every vertex exactly one colour, adjacent vertices get different colours, no call panics, and the number of colours used is at most one more than the largest number of earlier neighbours of any vertex.",
 "all loop-free graphs and orderings","the colouring is only exercised on a few graphs, where earlier neighbours rarely share colours",
 ["src/algorithms/lineargraph.rs"],[("colour_greedy","src/algorithms/lineargraph.rs")],observe=["colour_greedy"])
p("C19","Dominating sets dominate and witness classes are scattered",
 "For every ordered graph, radius and target set, every target vertex is within the radius of the returned set, the returned distance of every target vertex is at most the radius and never below its true distance to the set, and if a witness is requested, all vertices of one witness class are target vertices with pairwise distance greater than twice the radius.",
 "all loop-free graphs, orderings, radii and target subsets","tests use fixed files and radii; the grouping of witness classes is spot-checked",
 ["src/algorithms/lineargraph.rs"],[("domset, domset_with_target","src/algorithms/lineargraph.rs")],observe=["domset","domset_with_target"])
p("C20","Scattered colouring partitions the target into scattered classes",
 "For every ordered graph, distance and target set, scattered colouring returns non-empty classes that partition the target, and any two distinct vertices in one class are at distance at least the requested distance from each other.",
 "all loop-free graphs, orderings, distances and target subsets","tests check one or two graphs at even distances",
 ["src/algorithms/lineargraph.rs"],[("scattered_colouring, small_distance","src/algorithms/lineargraph.rs")],observe=["scattered_colouring"])
p("C21","The number of maximal cliques is exact",
 "For every non-empty ordered loop-free graph the clique counter returns exactly the number of inclusion-maximal cliques, independent of the ordering.",
 "all loop-free graphs and orderings","tests compare a few structured graphs with known counts",
 ["src/algorithms/lineargraph.rs"],[("pivoting recursion","src/algorithms/lineargraph.rs: bk_pivot_count")],observe=["count_max_cliques"])
p("C22","Augmentation distances up to the depth are exact",
 "After orienting any loop-free graph and augmenting it to any depth, the short-distance query returns the exact graph distance for every pair of distinct vertices at distance at most the depth and nothing for all other pairs.",
 "all loop-free graphs, depths and optimisation levels, all internal iteration orders","tests compare distances for a few generated graphs",
 ["src/dtfgraph.rs",it],[("orient, augment, small_distance","src/dtfgraph.rs"),("arc iteration of the augmentation","src/iterators.rs: DTFArcIterator")],observe=["small_distance","augment"])
p("C23","Augmentation bookkeeping agrees with its arcs",
 "In every augmentation, arc counts per weight, in- and out-degrees, membership tests, arc listings (each arc once, with its direction), per-weight views, conversion to an undirected graph and arc-restricted copies all agree with the set of weighted arcs inserted so far; asking for a smaller weight never changes the augmentation's depth or loses arcs.",
 "all sequences of vertex/arc insertions, orientations, augmentations and views","tests never compare arc listings of higher depth or the per-weight views with the arcs inserted",
 ["src/dtfgraph.rs",it],[("add_arc, reserve_depth, layers","src/dtfgraph.rs"),("arc iteration","src/iterators.rs: DTFArcIterator, DTFNIterator")],over=("inputs","histories"),state=[("nodes/depth/ms","per-vertex in-arc sets by weight, depth, arcs per weight","src/dtfgraph.rs:DTFGraph")],observe=["arcs","arcs_at","layer","num_arcs_at_depth","to_undirected","edge_subgraph"])
p("C24","Augmentation-based dominating sets dominate",
 "For every loop-free graph and radius, the dominating set computed from its augmentation contains, for every vertex, a set vertex within the radius, and it consists of vertices of the graph.",
 "all loop-free graphs and radii","tests check domination on a few generated graphs",
 ["src/dtfgraph.rs"],[("domset","src/dtfgraph.rs")],observe=["domset"])
p("C25","Neighbourhood trace queries are exact",
 "For every degenerate graph and every ordered vertex subset, the trace oracle returns exactly how many vertices have each trace on the subset, the neighbour count equals the number of outside vertices with a neighbour in the subset, and the shattering test agrees with the traces.",
 "all degenerate graphs and vertex subsets","tests compare a few subsets on fixed graphs",
 ["src/datastructures/sreach_trace_oracle.rs"],[("trace counting by inclusion/exclusion over prefixes","src/datastructures/sreach_trace_oracle.rs")],observe=["compute_traces","compute_neighbour_count","is_shattered"])
p("C26","Reading text graphs never panics and yields exactly the listed edges",
 "Reading an edge list returns the graph with exactly the listed edges if every line consists of two vertex numbers, and an error, never a panic, for any other byte content or read failure; vertex-set and sequence readers and writers round-trip.",
 "all byte streams and read failures","tests read well-formed files only",
 ["src/io.rs"],[("line parser","src/io.rs: from_buf, from_buf_with_estimate, parse_vertex")],over=("inputs","fault_sequences"),observe=["from_buf","from_txt","write_txt"])
p("C27","Colourings, vertex maps and vertex/edge objects obey set semantics",
 "Inverting a vertex map groups exactly the vertices of each value, and the majority set is a largest such group; extending a colouring (unsigned integer colours) never changes existing colours and gives added vertices fresh colours that preserve their classes whenever the shifted colours are representable; restricting a colouring keeps exactly the selected entries. The intersection of two vertex/edge objects is exactly the set of shared end points expressed as an edge, a vertex or nothing.",
 "all maps, colourings, selections and vertex/edge pairs","tests use one map and one pair of colourings; the intersection cases are not enumerated",
 [g],[("VertexColouring, VertexMapOperations, VertexOrEdge","src/graph.rs")],observe=["invert","majority_set","disjoint_extend","subset","intersection"])
import os
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+"\n")
print(len(P))
