HOW = {
'C01': "Renaming as an invariant on the boost bimap: the two directions are mutually inverse, ids are dense 0..k-1 in order of first appearance and only findOrInsertVertex extends them; round trip and map translation are postconditions/lemmas over those contracts.",
'C02': "Recursive sums over the walk as spec functions; loop invariants are the partial sums; the exceptional postcondition says exactly when edge-not-found is thrown.",
'C03': "Postcondition: output is the cyclic rotation at the root's position (explicit index arithmetic); loop invariants give the prefix built so far.",
'C04': "Walk predicate (`closed tour of g`, no repetition) as loop invariant of both heuristics, with a ghost order-preserving embedding of the old tour; gains as spec functions; termination by the number of vertices not yet on the tour.",
'C05': "As C04 with paths of several steps: the search returns a path whose inner vertices are off the tour; replacement is a splice; prize never decreases; the recursion/loops carry measures.",
'C06': "Collapse as a shortest-path computation over the tour's chords: invariant over labels and predecessors; cost of the reported tour at most the input's because the input is itself a candidate.",
'C07': "Composition of the contracts of C05 and C06 (callees verified by C05/C06 with the same text), so only the glue is proved here.",
'C08': "Cycle specification `cyc(es, c)`; isSimpleCycle's first loop computes the neighbour lists, the second walks a ghost path of distinct vertices; soundness by pigeonhole, completeness by following an arbitrary cycle. The whole-graph variant over degrees and component labels. isSolSimpleCycle and the callbacks scip_check, scip_enfops and scip_enfolp: FEASIBLE exactly for a cycle.",
'C09': "The vectors are exactly the label classes in vertex order (`members(ids, c, n)`); partition lemma; singletons dropped by a filtered-sequence spec.",
'C10': "The row as a mathematical sequence of (variable, coefficient); both branches (root inside / target inside), exceptions exactly when neither or both hold.",
'C11': "`separated(...)`: the disjoint step appends exactly the rows of all vertices of all other components; the max-flow step is a chain of `flow_step`s, each over one whole side of a minimum cut below two in the capacity graph built from the support, and at the end every vertex is marked or has flow at least two. Residual reachability is tied to minimum cuts by one axiom on boost's max-flow. The two solver callbacks are under contract too.",
'C12': "The model as a sequence of constraints appended to the solver record, each loop's invariant being the prefix of the prescribed sequence; variables one per edge in edge order.",
'C13': "Cover inequalities as the filtered sequence of vertices whose bound exceeds the cost bound, counters as its length; the callbacks book them at the current node/handler separately.",
'C14': "The support as a filtered sequence of edges in edge order; capacities aligned index by index; vertices via self-loop variables.",
'C15': "The list as the last W gaps; the tailing-off predicate as a formula of first and last. The callback scip_enfolp: only the list of the current node changes, and it branches exactly when that list is tailing off.",
'C16': "Node statistics as a sequence of rows indexed by node number; event, increments and totals are sequence updates and column sums. Invariant preserved by every operation, so it holds for every history.",
'C17': "Total function tables for the log levels; the priority rule as `forall other: priority > other` with a running-maximum invariant.",
'C18': "Python functions against mathematical sums; loop over edges builds exactly the prescribed map; telescoping lemma for paths.",
'C19': "Rooted-tree theory (`tree.py`: parent, depth, subtree) with lemmas; the recursive traversals carry postconditions on the lists; the ancestor test is a lemma over those.",
'C20': "Relaxation step, parent table, reduced costs and path extraction are functions with invariants; the complete labelling run is a bounded stand-in.",
'C21': "Join as a sequence expression; the heuristic's loop invariant is `best among the feasible pairs seen so far`, ties to the earlier.",
'C22': "Postconditions over *all* random choices (a choice is an arbitrary element of its range), exceptions exactly when no candidate exists.",
'C23': "Breadth-first tree invariants with ghost walk to each vertex; the returned cycle joins two tree paths that meet only in the root; completeness by a cut argument over the closed frontier.",
'C24': "Leaf removal to a fixpoint: invariant `every min-degree-two subset survives`; biconnected preprocessing over networkx's components by axiom; inputs not modified.",
'C25': "The product as a nested sequence expression; flattening as a pointwise map; classification as a table.",
'C26': "Argument forwarding as equality of the recorded native call with the caller's arguments.",
'C28': "The Python writers/readers as functions over a file-system map (path -> content) with the json/yaml/pandas dumps axiomatised as injective; C++ writers at run time (bounded).",
'C29': "Candidate solutions as a sequence of (variable -> value) maps in the solver record. The set of vertices touched by the edges, their loops and variables are aligned sequences; a lemma turns 'contained in that sequence' into 'edge of the tour or loop of a touched vertex'. Unit `whole` proves it for modelPrizeCollectingTSP end to end (the same unit gives C12 the whole model).",
}
