from ..run import Unit
from ..ir import E
PRELUDE = r'''
pub type Adj = Map<int, Map<int, Map<int, int>>>;   // neighbour -> attribute name -> value
pub open spec fn ok_graph(g: DiG, d: Map<int, int>, w: int) -> bool {
    &&& g.nodes.no_duplicates()
    &&& forall|u: int| #[trigger] g.nodes.contains(u) ==> d.dom().contains(u) && g.adj.dom().contains(u) && g.adj[u].dom().finite()
    &&& forall|u: int, v: int| g.nodes.contains(u) && #[trigger] g.adj[u].dom().contains(v) ==> g.nodes.contains(v) && g.adj[u][v].dom().contains(w)
}
pub open spec fn reduced(g: DiG, d: Map<int, int>, w: int, u: int, v: int) -> int { g.adj[u][v][w] + d[u] - d[v] }
pub open spec fn row_ok(g: DiG, d: Map<int, int>, w: int, u: int, r: Map<int, int>) -> bool {
    r.dom() =~= g.adj[u].dom() && forall|v: int| #[trigger] r.dom().contains(v) ==> r[v] == reduced(g, d, w, u, v) }
// --- consequences for paths
pub open spec fn is_path(g: DiG, p: Seq<int>) -> bool { p.len() >= 1 && (forall|i: int| 0 <= i < p.len() ==> g.nodes.contains(#[trigger] p[i])) && forall|i: int| 0 <= i < p.len() - 1 ==> g.adj[#[trigger] p[i]].dom().contains(p[i + 1]) }
pub open spec fn orig_cost(g: DiG, w: int, p: Seq<int>) -> int decreases p.len() { if p.len() <= 1 { 0 } else { orig_cost(g, w, p.drop_last()) + g.adj[p[p.len() - 2]][p.last()][w] } }
pub open spec fn adj_cost(a: Map<int, Map<int, int>>, p: Seq<int>) -> int decreases p.len() { if p.len() <= 1 { 0 } else { adj_cost(a, p.drop_last()) + a[p[p.len() - 2]][p.last()] } }
pub open spec fn all_reduced(g: DiG, d: Map<int, int>, w: int, a: Map<int, Map<int, int>>) -> bool {
    &&& forall|u: int| a.dom().contains(u) <==> #[trigger] g.nodes.contains(u)
    &&& forall|u: int| #[trigger] g.nodes.contains(u) ==> row_ok(g, d, w, u, a[u]) }
pub proof fn lemma_path(g: DiG, d: Map<int, int>, w: int, a: Map<int, Map<int, int>>, p: Seq<int>)
    requires all_reduced(g, d, w, a), is_path(g, p)
    ensures /*OB lemma: a path costs its original cost plus distance(first) minus distance(last) BO*/ adj_cost(a, p) == orig_cost(g, w, p) + d[p[0]] - d[p.last()]
    decreases p.len()
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert(is_path(g, q)) by { assert forall|i: int| 0 <= i < q.len() implies g.nodes.contains(#[trigger] q[i]) by { assert(q[i] == p[i]); } assert forall|i: int| 0 <= i < q.len() - 1 implies g.adj[#[trigger] q[i]].dom().contains(q[i + 1]) by { assert(q[i] == p[i]); } }
        lemma_path(g, d, w, a, q);
        let u = p[p.len() - 2]; let v = p.last();
        assert(g.nodes.contains(u)); assert(row_ok(g, d, w, u, a[u])); assert(a[u].dom().contains(v));
    }
}
// distances of a shortest-path computation: no edge can be relaxed further
pub open spec fn true_distances(g: DiG, d: Map<int, int>, w: int) -> bool { forall|u: int, v: int| g.nodes.contains(u) && #[trigger] g.adj[u].dom().contains(v) ==> d[v] <= d[u] + g.adj[u][v][w] }
pub proof fn lemma_nonneg(g: DiG, d: Map<int, int>, w: int, a: Map<int, Map<int, int>>, u: int, v: int)
    requires all_reduced(g, d, w, a), true_distances(g, d, w), g.nodes.contains(u), a[u].dom().contains(v)
    ensures /*OB lemma: never negative on true distances BO*/ a[u][v] >= 0, /*OB lemma: zero on shortest-path edges BO*/ (d[v] == d[u] + g.adj[u][v][w]) ==> a[u][v] == 0
{ assert(row_ok(g, d, w, u, a[u])); }
'''
C = {
 '__py__': {('iter', 'DiG'): lambda self, e: (f'{e.s}.nodes', 'int'),
            ('index', 'DiG'): None},
 'adjust_edge_cost': dict(types=['int', 'int', 'int'], params=['c', 'du', 'dv'], returns='int',
    ensures=[('cost plus source distance of the tail minus that of the head', '$ret == $c + $du - $dv')]),
 'adjust_edge_cost_for_graph': dict(types=['DiG', 'Map<int, int>', 'Str'], params=['g', 'd', 'w'], returns='Map<int, Map<int, int>>',
    requires=['ok_graph($g, $d, $w)'],
    locals=[('adjusted_cost', 'Map<int, Map<int, int>>')],
    ensures=[('the reduced cost of every edge and no other', 'all_reduced($g, $d, $w, $ret)'), ('inputs unchanged', '$out(g) == $g && $out(d) == $d')],
    loops=[dict(kind='range', inv=['forall|u: int| #[trigger] $adjusted_cost.dom().contains(u) ==> g_done($seq, $it, u)', 'forall|i: int| 0 <= i < $it ==> $adjusted_cost.dom().contains(#[trigger] $seq[i]) && row_ok($g, $d, $w, $seq[i], $adjusted_cost[$seq[i]])', '$seq == $g.nodes']),
           dict(kind='range', inv=['$seq == map_keys($g.adj[$u])', '$seq1[$it1] == $u', '$g.nodes.contains($u)',
                'forall|x: int| $adjusted_cost.dom().contains(x) <==> (old1.dom().contains(x) || x == $u)', 'forall|x: int| x != $u && old1.dom().contains(x) ==> #[trigger] $adjusted_cost[x] == old1[x]',
                'forall|v: int| #[trigger] $adjusted_cost[$u].dom().contains(v) <==> g_done($seq, $it, v)',
                'forall|v: int| #[trigger] $adjusted_cost[$u].dom().contains(v) ==> $adjusted_cost[$u][v] == reduced($g, $d, $w, $u, v)'])],
    hints={'loop1.body': 'let ghost old1 = $adjusted_cost; proof { assert($g.nodes.contains($seq1[$it1])); axiom_map_entries($g.adj[$seq1[$it1]]); }',
           'loop2.body': 'proof { let e = map_entries($g.adj[$u])[$it]; assert($g.adj[$u].dom().contains(e.0)); assert($seq[$it] == e.0); lemma_done($seq, $it); assert($g.nodes.contains(e.0)); }',
           'loop2.after': '''proof { assert(row_ok($g, $d, $w, $u, $adjusted_cost[$u])) by {
              assert forall|v: int| $adjusted_cost[$u].dom().contains(v) <==> $g.adj[$u].dom().contains(v) by {
                 if g_done($seq, $seq.len() as int, v) { let i = choose|i: int| 0 <= i < $seq.len() && #[trigger] $seq[i] == v; assert(map_entries($g.adj[$u])[i].0 == v); }
                 if $g.adj[$u].dom().contains(v) { let i = choose|i: int| 0 <= i < map_entries($g.adj[$u]).len() && #[trigger] map_entries($g.adj[$u])[i] == (v, $g.adj[$u][v]); assert($seq[i] == v); } } }
              lemma_done($seq1, $it1); assert forall|x: int| #[trigger] $adjusted_cost.dom().contains(x) implies g_done($seq1, $it1 + 1, x) by { if x != $u { assert(old1.dom().contains(x)); assert(g_done($seq1, $it1, x)); } } }''',
           'loop1.after': 'proof { assert forall|u: int| $adjusted_cost.dom().contains(u) <==> #[trigger] $g.nodes.contains(u) by { if $g.nodes.contains(u) { let i = choose|i: int| 0 <= i < $g.nodes.len() && $g.nodes[i] == u; assert($seq[i] == u); } if $adjusted_cost.dom().contains(u) { assert(g_done($seq, $it, u)); } }\n assert forall|u: int| #[trigger] $g.nodes.contains(u) implies row_ok($g, $d, $w, u, $adjusted_cost[u]) by { let i = choose|i: int| 0 <= i < $g.nodes.len() && $g.nodes[i] == u; assert($seq[i] == u); } }'}),
}
PRELUDE += r'''
pub open spec fn g_done(s: Seq<int>, k: int, u: int) -> bool { exists|i: int| 0 <= i < k && i < s.len() && #[trigger] s[i] == u }
pub proof fn lemma_done(s: Seq<int>, k: int) requires 0 <= k < s.len() ensures forall|u: int| g_done(s, k + 1, u) <==> #[trigger] g_done(s, k, u) || u == s[k] {
    assert forall|u: int| g_done(s, k + 1, u) <==> #[trigger] g_done(s, k, u) || u == s[k] by { if g_done(s, k, u) { let i = choose|i: int| 0 <= i < k && i < s.len() && #[trigger] s[i] == u; assert(s[i] == u); } if u == s[k] { assert(s[k] == u); } } }
'''
def h_index(self, o, sl):
    k = self.ex(sl)
    self.ob(f'{o.s}.adj.dom().contains({k.s})', 'vertex is in the graph')
    return E(f'{o.s}.adj[{k.s}]', 'Map<int, Map<Str, int>>')
C['__py__'][('index', 'DiG')] = h_index
UNITS = [Unit('reduced_costs', kind='py', files=['pctsp/suurballe/suurballe.py', 'pctsp/constants/constants.py'], contracts=C, prelude=PRELUDE,
              structs={'DiG': [('nodes', 'Seq<int>'), ('adj', 'Map<int, Map<int, Map<Str, int>>>')]}, roots=['adjust_edge_cost', 'adjust_edge_cost_for_graph'])]
RUNTIME = [dict(kind='py', driver='c18.py', rule='random digraphs up to 9 vertices with random costs and distances (true and arbitrary); non-trivial: at least one edge')]
ASSUMPTIONS = ['networkx: iterating a DiGraph yields every vertex once, G[u] maps every out-neighbour to its attributes']
