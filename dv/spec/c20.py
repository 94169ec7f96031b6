"""Suurballe's algorithm: the relaxation step, the shortest-path-tree parents, the reduced costs, extraction of a pair and its cost."""
from ..run import Unit
from ..ir import *
from . import c18
PRELUDE = c18.PRELUDE + r'''
pub open spec fn null_vertex() -> int { -9223372036854775808 }
pub open spec fn infinity() -> int { 9223372036854775807 }
pub type Edge = (int, int);
// ----- a finished run: vertices labelled in the order `t.time`, tree given by predecessor lists and depths
pub open spec fn tree_ok(t: ST) -> bool {
    &&& t.pred.dom().contains(t.source) && t.depth[t.source] == 0
    &&& forall|x: int| #[trigger] t.pred.dom().contains(x) && x != t.source ==> t.pred[x].len() == 1 && t.pred.dom().contains(t.pred[x][0]) && x != null_vertex() && t.depth[x] > 0 && t.depth[t.pred[x][0]] == t.depth[x] - 1
    &&& t.source != null_vertex()
    &&& t.tentative_distance.dom() == t.pred.dom() && t.tentative_predecessor.dom() == t.pred.dom() && t.process_cause.dom() == t.pred.dom()
}
// every vertex with a finite tentative distance was reached through a non-tree edge whose processing was caused by an earlier vertex
pub open spec fn caused(t: ST, x: int) -> bool {
    &&& t.pred.dom().contains(t.process_cause[x]) && t.pred.dom().contains(t.tentative_predecessor[x])
    &&& 0 <= t.time[t.process_cause[x]] < t.time[x] && t.tentative_distance[t.process_cause[x]] < infinity()
    &&& t.tentative_distance[x] == t.tentative_distance[t.process_cause[x]] + rc(t, x)
}
pub open spec fn rc(t: ST, x: int) -> int { t.transformed_cost[t.tentative_predecessor[x]][x] }
#[verifier::opaque] pub open spec fn finished(t: ST) -> bool {
    &&& tree_ok(t) && t.tentative_distance[t.source] == 0 && t.time[t.source] == 0
    &&& forall|x: int| #[trigger] t.pred.dom().contains(x) && x != t.source && t.tentative_distance[x] < infinity() ==> caused(t, x)
}
pub proof fn fin_tree(t: ST, x: int) requires finished(t), t.pred.dom().contains(x), x != t.source
    ensures t.pred[x].len() == 1, t.pred.dom().contains(t.pred[x][0]), x != null_vertex(), t.depth[x] > 0, t.depth[t.pred[x][0]] == t.depth[x] - 1 { reveal(finished); }
pub proof fn fin_basic(t: ST) requires finished(t) ensures t.pred.dom().contains(t.source), t.source != null_vertex(), t.depth[t.source] == 0, t.tentative_distance[t.source] == 0, t.time[t.source] == 0,
    t.tentative_distance.dom() == t.pred.dom(), t.tentative_predecessor.dom() == t.pred.dom(), t.process_cause.dom() == t.pred.dom() { reveal(finished); }
pub proof fn fin_cause(t: ST, x: int) requires finished(t), t.pred.dom().contains(x), x != t.source, t.tentative_distance[x] < infinity() ensures caused(t, x), t.process_cause[x] != null_vertex(), t.tentative_predecessor[x] != null_vertex()
{ reveal(finished); let q = t.process_cause[x]; let p = t.tentative_predecessor[x]; assert(t.pred.dom().contains(q)); assert(t.pred.dom().contains(p)); }
// ----- the vertices marked from x back to the source, and the reduced cost they stand for
pub open spec fn chain(t: ST, x: int) -> Set<int> decreases t.time[x] { if x == t.source || !caused(t, x) { Set::empty() } else { chain(t, t.process_cause[x]).insert(x) } }
pub open spec fn lsum(t: ST, l: Seq<int>) -> int decreases l.len() { if l.len() == 0 { 0 } else { lsum(t, l.drop_last()) + rc(t, l.last()) } }
pub proof fn lsum_push(t: ST, l: Seq<int>, x: int) ensures lsum(t, l.push(x)) == lsum(t, l) + rc(t, x) { assert(l.push(x).drop_last() =~= l); }
pub proof fn lsum_remove(t: ST, l: Seq<int>, i: int) requires 0 <= i < l.len() ensures lsum(t, l.remove(i)) == lsum(t, l) - rc(t, l[i]) decreases l.len()
{ if i == l.len() - 1 { assert(l.remove(i) =~= l.drop_last()); } else { assert(l.remove(i).drop_last() =~= l.drop_last().remove(i)); assert(l.remove(i).last() == l.last()); lsum_remove(t, l.drop_last(), i); } }
// the marked vertices, as a list without repetitions
pub open spec fn listed(s: Set<int>, l: Seq<int>) -> bool { l.no_duplicates() && forall|x: int| #[trigger] s.contains(x) <==> l.contains(x) }
pub open spec fn at_of(l: Seq<int>, x: int) -> int { choose|i: int| 0 <= i < l.len() && l[i] == x }
pub proof fn lemma_listed_push(s: Set<int>, l: Seq<int>, x: int) requires listed(s, l), !s.contains(x) ensures listed(s.insert(x), l.push(x))
{ let m = l.push(x); assert forall|y: int| #[trigger] s.insert(x).contains(y) <==> m.contains(y) by { if m.contains(y) { let i = choose|i: int| 0 <= i < m.len() && m[i] == y; if i < l.len() { assert(l[i] == y); assert(l.contains(y)); assert(s.contains(y)); } } if s.contains(y) { assert(l.contains(y)); let i = choose|i: int| 0 <= i < l.len() && l[i] == y; assert(m[i] == y); } if y == x { assert(m[l.len() as int] == x); } }
  assert forall|i: int, j: int| 0 <= i < j < m.len() implies m[i] != m[j] by { if j == l.len() { assert(l.contains(l[i])); assert(s.contains(l[i])); } } }
pub proof fn lemma_listed_remove(s: Set<int>, l: Seq<int>, x: int) requires listed(s, l), s.contains(x) ensures listed(s.remove(x), l.remove(at_of(l, x))), 0 <= at_of(l, x) < l.len(), l[at_of(l, x)] == x
{ assert(l.contains(x)); let i = at_of(l, x); let m = l.remove(i);
  assert forall|y: int| #[trigger] s.remove(x).contains(y) <==> m.contains(y) by { if m.contains(y) { let k = choose|k: int| 0 <= k < m.len() && m[k] == y; let k2 = if k < i { k } else { k + 1 }; assert(l[k2] == y); assert(l.contains(y)); assert(s.contains(y)); assert(l[k2] != l[i]); } if s.remove(x).contains(y) { assert(s.contains(y)); assert(l.contains(y)); let k = choose|k: int| 0 <= k < l.len() && l[k] == y; assert(k != i); let k2 = if k < i { k } else { k - 1 }; assert(m[k2] == y); } } }
// ----- the extracted paths
pub open spec fn jump(t: ST, a: int, b: int) -> bool { t.pred.dom().contains(b) && a == t.tentative_predecessor[b] && t.tentative_distance[b] < infinity() && b != t.source }
pub open spec fn tree_edge(t: ST, a: int, b: int) -> bool { t.pred.dom().contains(b) && b != t.source && a == t.pred[b][0] }
// f[i]: the i-th edge is a recorded non-tree edge; its reduced cost counts, tree edges are free
#[verifier::opaque] pub open spec fn route(t: ST, p: Seq<int>, f: Seq<bool>, target: int) -> bool { p.len() >= 1 && f.len() == p.len() - 1 && p.last() == target && forall|i: int| 0 <= i < p.len() - 1 ==> if f[i] { jump(t, #[trigger] p[i], p[i + 1]) } else { tree_edge(t, p[i], p[i + 1]) } }
pub open spec fn rsum(t: ST, p: Seq<int>, f: Seq<bool>) -> int decreases f.len() { if f.len() == 0 || p.len() < 2 { 0 } else { (if f[0] { rc(t, p[1]) } else { 0 }) + rsum(t, p.skip(1), f.skip(1)) } }
pub proof fn lemma_route_start(t: ST, x: int) ensures route(t, seq![x], Seq::empty(), x), rsum(t, seq![x], Seq::empty()) == 0 { reveal(route); }
pub proof fn lemma_route(t: ST, p: Seq<int>, f: Seq<bool>, target: int, y: int, b: bool) requires route(t, p, f, target), if b { jump(t, y, p[0]) } else { tree_edge(t, y, p[0]) }
    ensures route(t, p.insert(0, y), f.insert(0, b), target), rsum(t, p.insert(0, y), f.insert(0, b)) == rsum(t, p, f) + (if b { rc(t, p[0]) } else { 0 })
{ reveal(route); let q = p.insert(0, y); let g = f.insert(0, b); assert(q.skip(1) =~= p); assert(g.skip(1) =~= f); assert(q[1] == p[0]);
  assert forall|i: int| 0 <= i < q.len() - 1 implies if g[i] { jump(t, #[trigger] q[i], q[i + 1]) } else { tree_edge(t, q[i], q[i + 1]) } by { if i > 0 { assert(q[i] == p[i - 1] && q[i + 1] == p[i]); } } }
pub proof fn lemma_ne(f: Seq<bool>, p: Seq<int>, t: ST, target: int) requires route(t, p, f, target) ensures p.len() >= 1 { reveal(route); }
// two walks from source to target whose recorded edges were each used once; what they cost beyond two shortest distances, plus what is left over, is the tentative distance
pub open spec fn pair_of(t: ST, p: Seq<Seq<int>>, f: Seq<Seq<bool>>, l: Seq<int>, target: int) -> bool {
    &&& p.len() == 2 && f.len() == 2 && route(t, p[0], f[0], target) && route(t, p[1], f[1], target) && p[0][0] == t.source && p[1][0] == t.source
    &&& l.no_duplicates() && rsum(t, p[0], f[0]) + rsum(t, p[1], f[1]) + lsum(t, l) == t.tentative_distance[target]
}
pub open spec fn found_pair(t: ST, p: Seq<Seq<int>>, target: int) -> bool { exists|f: Seq<Seq<bool>>, l: Seq<int>| #[trigger] pair_of(t, p, f, l, target) }
'''
T, HEAP, PATHS = 'ST', 'Seq<(int, int)>', 'Seq<Seq<int>>'
MM = 'Map<int, Map<int, int>>'
STRUCTS = dict(c18.UNITS[0].structs, ST=[('source', 'int'), ('succ', 'Map<int, Seq<int>>'), ('pred', 'Map<int, Seq<int>>'), ('depth', 'Map<int, int>'), ('time', 'Map<int, int>'), ('tentative_predecessor', 'Map<int, int>'), ('tentative_distance', 'Map<int, int>'), ('transformed_cost', MM),
    ('edges_incident_to_vertex', 'Map<int, Seq<(int, int)>>'), ('heap_queue', HEAP), ('distance_from_source', 'Map<int, int>'), ('process_cause', 'Map<int, int>')])
def h_has_edge(self, o, n): u, v = self.args(n); return E(f'tree_has({o.s}, {u.s}, {v.s})', 'bool')
def h_pred(self, o, n): v = self.one(n); self.ob(f'{o.s}.pred.dom().contains({v.s})', 'vertex is in the tree'); return E(f'{o.s}.pred[{v.s}]', 'Seq<int>')
def h_push(self, n, want):
    q, e = self.args(n)
    if q.lv is None: raise Unsupported('heappush')
    self.write(q.lv, f'{q.s}.push({e.s})'); return E('0int', 'unit')
PRELUDE += r'''
pub open spec fn tree_has(t: ST, u: int, v: int) -> bool { t.pred.dom().contains(v) && t.pred[v].contains(u) }
pub open spec fn ready(t: ST, u: int, w: int, v: int) -> bool {
    &&& t.edges_incident_to_vertex.dom().contains(u) && t.edges_incident_to_vertex.dom().contains(w) && u != w
    &&& t.tentative_distance.dom().contains(v) && t.tentative_distance.dom().contains(w) && t.transformed_cost.dom().contains(u) && t.transformed_cost[u].dom().contains(w)
    &&& !tree_has(t, u, w) ==> t.edges_incident_to_vertex[u].contains((u, w)) && t.edges_incident_to_vertex[w].contains((u, w))
}
// the list without the first occurrence of an element
pub open spec fn without(s: Seq<(int, int)>, e: (int, int)) -> Seq<(int, int)> { s.remove(find_pos(s, 0, s.len() as int, e)) }
pub open spec fn through(t: ST, u: int, w: int, v: int) -> int { t.tentative_distance[v] + t.transformed_cost[u][w] }
'''
C = dict(c18.C)
C['__py__'] = dict(c18.C['__py__'])
C['__py__'].update({('method', (T, 'has_edge')): h_has_edge, ('method', (T, 'predecessors')): h_pred, ('call', 'heappush'): h_push})
C['find_parents_in_shortest_path_tree'] = dict(types=['Map<int, Seq<int>>'], params=['sp'], returns='Map<int, int>', locals=[('parents', 'Map<int, int>')],
    ensures=[('the last but one vertex of every path, the null vertex for trivial paths', 'forall|v: int| (#[trigger] $ret.dom().contains(v) <==> $sp.dom().contains(v)) && ($sp.dom().contains(v) ==> $ret[v] == before_last($sp[v]))')],
    loops=[dict(kind='range', inv=['$seq == map_entries($sp)', 'forall|v: int| #[trigger] $parents.dom().contains(v) ==> $sp.dom().contains(v) && $parents[v] == before_last($sp[v])', 'forall|i: int| 0 <= i < $it ==> $parents.dom().contains((#[trigger] $seq[i]).0)'])],
    hints={'entry': 'proof { axiom_map_entries($sp); }',
           'loop1.after': 'proof { assert forall|v: int| $sp.dom().contains(v) implies #[trigger] $parents.dom().contains(v) by { let i = choose|i: int| 0 <= i < $seq.len() && #[trigger] $seq[i] == (v, $sp[v]); assert($parents.dom().contains($seq[i].0)); } }'})
PRELUDE += 'pub open spec fn before_last(p: Seq<int>) -> int { if p.len() <= 1 { null_vertex() } else { p[p.len() - 2] } }\n'
C['process'] = dict(types=[T, 'int', 'int', 'int'], params=['t', 'u', 'w', 'v'], returns='unit', raises=True, mutates=['t'],
    requires=['ready($t, $u, $w, $v)', '!tree_has($t, $u, $w) ==> $t.tentative_distance[$v] < infinity()'],
    ensures=['$exc == 0',
        ('a tree edge is left alone', 'tree_has($t, $u, $w) ==> $out(t) == $t'),
        ('the edge is removed from both incident lists and from no other', '!tree_has($t, $u, $w) ==> $out(t).edges_incident_to_vertex =~= $t.edges_incident_to_vertex.insert($u, without($t.edges_incident_to_vertex[$u], ($u, $w))).insert($w, without($t.edges_incident_to_vertex[$w], ($u, $w)))'),
        ('an improvement is recorded with its tail and its cause and queued', '''!tree_has($t, $u, $w) && through($t, $u, $w, $v) < $t.tentative_distance[$w] ==> $out(t).tentative_distance == $t.tentative_distance.insert($w, through($t, $u, $w, $v)) && $out(t).tentative_predecessor == $t.tentative_predecessor.insert($w, $u)
            && $out(t).process_cause == $t.process_cause.insert($w, $v) && $out(t).heap_queue == $t.heap_queue.push((through($t, $u, $w, $v), $w))'''),
        ('otherwise distances, tails, causes and the queue stay', '!(!tree_has($t, $u, $w) && through($t, $u, $w, $v) < $t.tentative_distance[$w]) ==> $out(t).tentative_distance == $t.tentative_distance && $out(t).tentative_predecessor == $t.tentative_predecessor && $out(t).process_cause == $t.process_cause && $out(t).heap_queue == $t.heap_queue'),
        ('nothing else changes', '$out(t).pred == $t.pred && $out(t).transformed_cost == $t.transformed_cost && $out(t).distance_from_source == $t.distance_from_source && $out(t).source == $t.source')])
C['edge_disjoint_path_cost'] = dict(types=[T, 'int'], params=['t', 'target'], returns='int', requires=['$t.tentative_distance.dom().contains($target)', '$t.distance_from_source.dom().contains($target)'],
    ensures=[('two shortest distances plus the tentative distance, infinite when no pair was found', '$ret == if $t.tentative_distance[$target] == infinity() { infinity() } else { 2 * $t.distance_from_source[$target] + $t.tentative_distance[$target] }'), ('inputs unchanged', '$out(t) == $t')])
C['extract_suurballe_edge_disjoint_paths'] = dict(types=[T, 'int', 'int'], params=['t', 'source', 'target'], returns=PATHS, raises=True,
    requires=['finished($t)', '$source == $t.source', '$t.pred.dom().contains($target)', '$t.tentative_distance[$target] <= infinity()'],
    locals=[('paths', PATHS), ('mark', 'Set<int>'), ('x', 'int')],
    ensures=['$exc == 0',
        ('the source gives the trivial pair', '$source == $target ==> $ret =~= seq![seq![$source], Seq::empty()]'),
        ('no paths when none were found', '$source != $target && $t.tentative_distance[$target] == infinity() ==> $ret =~= seq![Seq::<int>::empty(), Seq::empty()]'),
        ('two walks from the source to the target along tree edges and recorded edges', '$source != $target && $t.tentative_distance[$target] < infinity() ==> found_pair($t, $ret, $target)'),
        ('inputs unchanged', '$out(t) == $t')],
    loops=[dict(kind='while', inv=['finished($t)', '$source == $t.source', '$t.pred.dom().contains($x)', '$t.tentative_distance[$x] < infinity()', '$mark == m', 'listed(m, l)', '$x == $source ==> $t.time[$x] == 0 && $t.tentative_distance[$x] == 0',
                'forall|y: int| #[trigger] m.contains(y) ==> marked($t, y) && $t.time[y] > $t.time[$x]', '$t.time[$x] >= 0', 'lsum($t, l) + $t.tentative_distance[$x] == $t.tentative_distance[$target]'], dec='$t.time[$x]'),
           dict(kind='range', inv=['finished($t)', '$seq =~= seq![0int, 1]', '$mark == m', 'listed(m, l)', '$paths.len() == 2', 'fl.len() == 2', 'forall|i: int| 0 <= i < $it ==> route($t, #[trigger] $paths[i], fl[i], $target) && $paths[i][0] == $source', 'forall|i: int| $it <= i < 2 ==> #[trigger] $paths[i] =~= Seq::<int>::empty() && fl[i] =~= Seq::<bool>::empty()',
                'forall|y: int| #[trigger] m.contains(y) ==> marked($t, y)', 'used($t, $paths, fl) + lsum($t, l) == $t.tentative_distance[$target]'], dec='2 - $it'),
           dict(kind='while', inv=['finished($t)', '$t.pred.dom().contains($x)', '$mark == m', 'listed(m, l)', '$paths.len() == 2', 'fl.len() == 2', '$i == $it2 && $it2 < 2', 'forall|z: int| 0 <= z < $it2 ==> route($t, #[trigger] $paths[z], fl[z], $target) && $paths[z][0] == $source', 'forall|z: int| $it2 < z < 2 ==> #[trigger] $paths[z] =~= Seq::<int>::empty() && fl[z] =~= Seq::<bool>::empty()',
                'forall|y: int| #[trigger] m.contains(y) ==> marked($t, y)', 'route($t, $paths[$i], fl[$i], $target)', '$paths[$i][0] == $x', 'used($t, $paths, fl) + lsum($t, l) == $t.tentative_distance[$target]', '$t.depth[$x] >= 0'], dec='l.len(), $t.depth[$x]')],
    hints={'entry': 'let ghost mut m: Set<int> = Set::empty(); let ghost mut l: Seq<int> = Seq::empty(); let ghost mut fl: Seq<Seq<bool>> = seq![Seq::empty(), Seq::empty()]; proof { fin_basic($t); if $source != $target && $t.tentative_distance[$target] < infinity() { fin_cause($t, $target); } }',
           'loop1.body': 'let ghost x0 = $x; proof { fin_cause($t, $x); lemma_listed_push(m, l, $x); lsum_push($t, l, $x); m = m.insert($x); l = l.push($x); }',
           'loop1.end': 'proof { if $x != $t.source { fin_cause($t, $x); } else { fin_basic($t); } }',
           'loop2.before': 'proof { assert(lsum($t, l) == $t.tentative_distance[$target]); }',
           'loop2.body': 'proof { lemma_route_start($t, $target); assert(Seq::<int>::empty().insert(0, $target) =~= seq![$target]); let j = $seq[$it]; assert(j == $it); assert(fl[j] =~= Seq::<bool>::empty()); assert(fl.update(j, Seq::empty()) =~= fl); }',
           'loop3.before': 'proof { assert($paths[$i] =~= seq![$target]); assert(fl[$i] =~= Seq::<bool>::empty()); if $target != $t.source { fin_tree($t, $target); } }',
           'loop3.body': '''let ghost x0 = $x; let ghost p0 = $paths; proof { fin_tree($t, $x); lemma_ne(fl[$i], $paths[$i], $t, $target);
               if m.contains($x) { fin_cause($t, $x); lemma_listed_remove(m, l, $x); lsum_remove($t, l, at_of(l, $x)); l = l.remove(at_of(l, $x)); m = m.remove($x); lemma_route($t, $paths[$i], fl[$i], $target, $t.tentative_predecessor[$x], true); fl = fl.update($i, fl[$i].insert(0, true)); }
               else { assert($t.pred[$x][0] != null_vertex()) by { let y = $t.pred[$x][0]; if y != $t.source { fin_tree($t, y); } } lemma_route($t, $paths[$i], fl[$i], $target, $t.pred[$x][0], false); fl = fl.update($i, fl[$i].insert(0, false)); } }''',
           'loop3.end': 'proof { if $x != $t.source { fin_tree($t, $x); } }',
           'return:4': 'proof { }',
           'loop2.after': 'proof { assert($it == 2); assert(route($t, $paths[0], fl[0], $target)); assert(route($t, $paths[1], fl[1], $target)); assert($source == $t.source); assert(l.no_duplicates()); assert(pair_of($t, $paths, fl, l, $target)); assert(found_pair($t, $paths, $target)); }'})
PRELUDE += r'''
pub open spec fn marked(t: ST, y: int) -> bool { t.pred.dom().contains(y) && y != t.source && t.tentative_distance[y] < infinity() }
pub open spec fn used(t: ST, p: Seq<Seq<int>>, f: Seq<Seq<bool>>) -> int { rsum(t, p[0], f[0]) + rsum(t, p[1], f[1]) }
'''
UNITS = [Unit('pairs', kind='py', files=['pctsp/suurballe/suurballe.py', 'pctsp/constants/constants.py'], contracts=C, prelude=PRELUDE, structs=STRUCTS,
              roots=['find_parents_in_shortest_path_tree', 'adjust_edge_cost_for_graph', 'process', 'edge_disjoint_path_cost', 'extract_suurballe_edge_disjoint_paths'])]
RUNTIME = [dict(kind='py', driver='c20.py', procs=3, rule='random asymmetric digraphs up to 16 vertices (sparse, dense, acyclic, layered, vertex-split) with non-negative costs, every target compared with brute-force augmentation; non-trivial: more than three edges')]
BOUNDED = ['that the whole labelling run reaches a finished state with least distances and edge-disjoint pairs: the order in which scan, scan_parent and traverse_subtree visit the non-tree edges is not under contract; compared at run time with brute force on generated graphs']
ASSUMPTIONS = ['extract_suurballe_edge_disjoint_paths is proved for trees in a finished state (every finite tentative distance has an earlier cause and a recorded tail)']

LEVEL = 'other'
NOTE = 'Mixed: every obligation of the relaxation step, the parent table, the reduced costs, the path extraction (real walks along tree or recorded edges, each recorded edge used once, reduced costs accounted for) and the reported cost is discharged for all inputs; edge-disjointness, existence and minimality over the whole run are checked on generated graphs only (bounded).'
