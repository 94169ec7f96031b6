"""Preprocessing of undirected graphs."""
import ast
from ..run import Unit
from ..ir import *
from ..cxx import LV
PRELUDE = r'''
// networkx.Graph: nodes in order, neighbours, and everything else (attributes of nodes and edges) behind `attr`
pub open spec fn ok(g: UG) -> bool {
    &&& g.nodes.no_duplicates()
    &&& forall|u: int| g.nodes.contains(u) <==> #[trigger] g.adj.dom().contains(u)
    &&& forall|u: int, v: int| g.nodes.contains(u) && #[trigger] g.adj[u].contains(v) ==> g.nodes.contains(v) && g.adj[v].contains(u)
}
pub open spec fn induced(g: UG, s: Set<int>) -> UG { UG { nodes: g.nodes.filter(|u: int| s.contains(u)), adj: Map::new(g.adj.dom().filter(|u: int| s.contains(u)), |u: int| g.adj[u].intersect(s)), attr: g.attr } }
pub open spec fn others(g: UG, u: int) -> Set<int> { g.adj[u].remove(u) }
// s is a set of vertices each with two neighbours in s other than itself
pub open spec fn core2(g: UG, s: Set<int>) -> bool { (forall|u: int| s.contains(u) ==> #[trigger] g.nodes.contains(u)) && forall|u: int| #[trigger] s.contains(u) ==> others(g, u).intersect(s).len() >= 2 }
pub open spec fn largest_core(g: UG, s: Set<int>) -> bool { core2(g, s) && forall|t: Set<int>| #[trigger] core2(g, t) ==> t.subset_of(s) }
pub proof fn lemma_filter(s: Seq<int>, p: spec_fn(int) -> bool)
    ensures forall|u: int| #[trigger] s.filter(p).contains(u) <==> s.contains(u) && p(u), s.no_duplicates() ==> s.filter(p).no_duplicates(), s.filter(p).len() <= s.len(),
        (exists|u: int| s.contains(u) && !p(u)) ==> s.filter(p).len() < s.len(),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); lemma_filter(d, p);
        assert(s =~= d.push(s.last()));
        assert forall|u: int| #[trigger] s.filter(p).contains(u) <==> s.contains(u) && p(u) by {
            if s.contains(u) { let i = choose|i: int| 0 <= i < s.len() && s[i] == u; if i < d.len() { assert(d[i] == u); } }
            if d.contains(u) { let i = choose|i: int| 0 <= i < d.len() && d[i] == u; assert(s[i] == u); }
            if p(s.last()) { let f = d.filter(p); assert(s.filter(p) == f.push(s.last())); assert(s.filter(p)[f.len() as int] == s.last());
                if f.contains(u) { let i = choose|i: int| 0 <= i < f.len() && f[i] == u; assert(s.filter(p)[i] == u); }
                if s.filter(p).contains(u) { let i = choose|i: int| 0 <= i < s.filter(p).len() && s.filter(p)[i] == u; if i < f.len() { assert(f[i] == u); } else { assert(s[s.len() - 1] == u); } } }
        }
        if s.no_duplicates() { assert(d.no_duplicates()); assert(!d.contains(s.last())) by { if d.contains(s.last()) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s.last(); assert(s[i] == s[s.len() - 1]); } }
            let f = d.filter(p); assert(!f.contains(s.last()));
            if p(s.last()) { assert(s.filter(p) == f.push(s.last())); assert forall|i: int, j: int| 0 <= i < j < s.filter(p).len() implies s.filter(p)[i] != s.filter(p)[j] by { if j == f.len() { assert(f[i] == s.filter(p)[i]); assert(f.contains(f[i])); } else { assert(f[i] != f[j]); } } } else { assert(s.filter(p) == f); } }
        if exists|u: int| s.contains(u) && !p(u) {
            let u = choose|u: int| s.contains(u) && !p(u); let i = choose|i: int| 0 <= i < s.len() && s[i] == u;
            if i < d.len() { assert(d[i] == u); assert(d.contains(u) && !p(u)); }
        }
    }
}
pub proof fn lemma_induced(g: UG, s: Set<int>)
    requires ok(g)
    ensures ok(induced(g, s)), forall|u: int| #[trigger] induced(g, s).nodes.contains(u) <==> g.nodes.contains(u) && s.contains(u),
        induced(g, s).nodes.len() <= g.nodes.len(), (exists|u: int| g.nodes.contains(u) && !s.contains(u)) ==> induced(g, s).nodes.len() < g.nodes.len(),
        forall|u: int| g.nodes.contains(u) && s.contains(u) ==> #[trigger] induced(g, s).adj[u] == g.adj[u].intersect(s),
{
    lemma_filter(g.nodes, |u: int| s.contains(u));
    let h = induced(g, s);
    assert forall|u: int| h.nodes.contains(u) <==> #[trigger] h.adj.dom().contains(u) by { if h.nodes.contains(u) { assert(g.nodes.contains(u)); assert(g.adj.dom().contains(u)); } }
    assert forall|u: int, v: int| h.nodes.contains(u) && #[trigger] h.adj[u].contains(v) implies h.nodes.contains(v) && h.adj[v].contains(u) by { assert(g.nodes.contains(u)); assert(g.adj[u].contains(v)); assert(g.nodes.contains(v)); assert(g.adj[v].contains(u)); assert(g.adj.dom().contains(v)); }
}
// one round: removing vertices that have at most one other neighbour loses no core
pub proof fn lemma_round(g: UG, bad: Set<int>, t: Set<int>)
    requires ok(g), core2(g, t), forall|u: int| bad.contains(u) && g.nodes.contains(u) ==> #[trigger] others(g, u).len() <= 1
    ensures core2(induced(g, g.nodes.to_set().difference(bad)), t)
{
    let s = g.nodes.to_set().difference(bad); let h = induced(g, s); lemma_induced(g, s);
    assert forall|u: int| t.contains(u) implies !bad.contains(u) by { if bad.contains(u) { assert(g.nodes.contains(u)); vstd::set_lib::lemma_len_subset(others(g, u).intersect(t), others(g, u)); assert(others(g, u).len() <= 1); } }
    assert forall|u: int| t.contains(u) implies #[trigger] h.nodes.contains(u) by { assert(g.nodes.contains(u)); assert(s.contains(u)); }
    assert forall|u: int| #[trigger] t.contains(u) implies others(h, u).intersect(t).len() >= 2 by {
        assert(g.nodes.contains(u)); assert(s.contains(u)); assert(h.adj[u] == g.adj[u].intersect(s));
        assert(others(h, u).intersect(t) =~= others(g, u).intersect(t)) by { assert forall|v: int| others(g, u).intersect(t).contains(v) implies others(h, u).intersect(t).contains(v) by { assert(g.nodes.contains(v)); assert(s.contains(v)); } }
    }
}
pub proof fn lemma_core_back(g: UG, s: Set<int>, t: Set<int>)
    requires ok(g), core2(induced(g, s), t)
    ensures core2(g, t), t.subset_of(s)
{
    let h = induced(g, s); lemma_induced(g, s);
    assert forall|u: int| t.contains(u) implies s.contains(u) && g.nodes.contains(u) by { assert(h.nodes.contains(u)); }
    assert forall|u: int| #[trigger] t.contains(u) implies others(g, u).intersect(t).len() >= 2 by {
        assert(h.nodes.contains(u)); assert(h.adj[u] == g.adj[u].intersect(s));
        assert(others(h, u).intersect(t) =~= others(g, u).intersect(t)) by { assert forall|v: int| others(g, u).intersect(t).contains(v) implies others(h, u).intersect(t).contains(v) by { assert(t.contains(v)); assert(s.contains(v)); } }
    }
}
pub proof fn lemma_induced_twice(g: UG, s: Set<int>, t: Set<int>)
    requires ok(g), t.subset_of(s)
    ensures induced(induced(g, s), t) == induced(g, t)
{
    lemma_filter_twice(g.nodes, s, t);
    let a = induced(induced(g, s), t); let b = induced(g, t);
    assert(a.adj.dom() =~= b.adj.dom()); assert forall|u: int| a.adj.dom().contains(u) implies a.adj[u] =~= b.adj[u] by { } assert(a.adj =~= b.adj);
}
pub proof fn lemma_filter_twice(q: Seq<int>, s: Set<int>, t: Set<int>)
    requires t.subset_of(s)
    ensures q.filter(|u: int| s.contains(u)).filter(|u: int| t.contains(u)) =~= q.filter(|u: int| t.contains(u))
    decreases q.len()
{ reveal(Seq::filter); if q.len() > 0 { lemma_filter_twice(q.drop_last(), s, t); let f = q.drop_last().filter(|u: int| s.contains(u)); if s.contains(q.last()) { assert(f.push(q.last()).drop_last() =~= f); } } }
pub open spec fn stage(g0: UG, g: UG, cur: Set<int>) -> bool { g == induced(g0, cur) && (forall|u: int| #[trigger] cur.contains(u) ==> g0.nodes.contains(u)) && forall|t: Set<int>| #[trigger] core2(g0, t) ==> t.subset_of(cur) }
pub proof fn lemma_start(g: UG) requires ok(g) ensures stage(g, g, g.nodes.to_set())
{
    let s = g.nodes.to_set(); let h = induced(g, s); lemma_filter_all(g.nodes, |u: int| s.contains(u));
    assert(h.adj.dom() =~= g.adj.dom()) by { assert forall|u: int| g.adj.dom().contains(u) implies s.contains(u) by { assert(g.nodes.contains(u)); } }
    assert forall|u: int| h.adj.dom().contains(u) implies h.adj[u] =~= g.adj[u] by { assert(g.nodes.contains(u)); assert forall|v: int| g.adj[u].contains(v) implies s.contains(v) by { assert(g.nodes.contains(v)); } }
    assert(h.adj =~= g.adj);
}
pub proof fn lemma_filter_all(q: Seq<int>, p: spec_fn(int) -> bool) requires forall|i: int| 0 <= i < q.len() ==> p(#[trigger] q[i]) ensures q.filter(p) =~= q decreases q.len()
{ reveal(Seq::filter); if q.len() > 0 { assert forall|i: int| 0 <= i < q.drop_last().len() implies p(#[trigger] q.drop_last()[i]) by { assert(q.drop_last()[i] == q[i]); } lemma_filter_all(q.drop_last(), p); assert(p(q[q.len() - 1])); } }
pub proof fn lemma_step(g0: UG, g1: UG, cur: Set<int>, bad: Set<int>)
    requires ok(g0), stage(g0, g1, cur), forall|u: int| bad.contains(u) && g1.nodes.contains(u) ==> #[trigger] others(g1, u).len() <= 1
    ensures ok(g1), ({ let s = g1.nodes.to_set().difference(bad); stage(g0, induced(g1, s), s) && ok(induced(g1, s)) && (bad.len() > 0 && bad.finite() && (forall|u: int| #[trigger] bad.contains(u) ==> g1.nodes.contains(u)) ==> induced(g1, s).nodes.len() < g1.nodes.len()) && induced(g1, s).nodes.len() <= g1.nodes.len() })
{
    let s = g1.nodes.to_set().difference(bad); lemma_induced(g0, cur); lemma_induced(g1, s);
    assert(s.subset_of(cur)) by { assert forall|u: int| s.contains(u) implies cur.contains(u) by { assert(g1.nodes.contains(u)); } }
    lemma_induced_twice(g0, cur, s);
    assert forall|u: int| #[trigger] s.contains(u) implies g0.nodes.contains(u) by { assert(g1.nodes.contains(u)); }
    assert forall|t: Set<int>| #[trigger] core2(g0, t) implies t.subset_of(s) by {
        lemma_core_fwd(g0, cur, t); lemma_round(g1, bad, t);
        assert forall|u: int| t.contains(u) implies s.contains(u) by { assert(induced(g1, s).nodes.contains(u)); } }
    if bad.len() > 0 && bad.finite() && (forall|u: int| #[trigger] bad.contains(u) ==> g1.nodes.contains(u)) { let x = bad.choose(); assert(bad.contains(x)); assert(g1.nodes.contains(x) && !s.contains(x)); }
}
pub proof fn lemma_core_fwd(g: UG, s: Set<int>, t: Set<int>) requires ok(g), core2(g, t), t.subset_of(s) ensures core2(induced(g, s), t)
{
    let h = induced(g, s); lemma_induced(g, s);
    assert forall|u: int| t.contains(u) implies #[trigger] h.nodes.contains(u) by { assert(g.nodes.contains(u)); }
    assert forall|u: int| #[trigger] t.contains(u) implies others(h, u).intersect(t).len() >= 2 by { assert(g.nodes.contains(u)); assert(h.adj[u] == g.adj[u].intersect(s)); assert(others(h, u).intersect(t) =~= others(g, u).intersect(t)); }
}
// a round that finds nothing to remove: what is left is a core
pub proof fn lemma_last(g0: UG, g1: UG, cur0: Set<int>, bad: Set<int>)
    requires ok(g0), stage(g0, g1, cur0), bad.finite(), bad.len() == 0, forall|i: int| 0 <= i < g1.nodes.len() ==> bad.contains(#[trigger] g1.nodes[i]) || others(g1, g1.nodes[i]).len() >= 2
    ensures core2(g0, g1.nodes.to_set().difference(bad))
{
    let s = g1.nodes.to_set().difference(bad); assert(bad =~= Set::<int>::empty()); lemma_induced(g0, cur0);
    assert(core2(g1, s)) by { assert forall|u: int| #[trigger] s.contains(u) implies others(g1, u).intersect(s).len() >= 2 by { assert(g1.nodes.contains(u)); let i = choose|i: int| 0 <= i < g1.nodes.len() && g1.nodes[i] == u; assert(others(g1, g1.nodes[i]).len() >= 2); assert(others(g1, u).intersect(s) =~= others(g1, u)) by { assert forall|v: int| others(g1, u).contains(v) implies s.contains(v) by { assert(g1.adj[u].contains(v)); assert(g1.nodes.contains(v)); } } }
        assert forall|u: int| s.contains(u) implies #[trigger] g1.nodes.contains(u) by { } }
    lemma_core_back(g0, cur0, s);
}
// no simple cycle of the input loses a vertex: its vertex set is a core
pub open spec fn simple_cycle(g: UG, c: Seq<int>) -> bool { c.len() >= 3 && c.no_duplicates() && (forall|i: int| 0 <= i < c.len() ==> g.nodes.contains(#[trigger] c[i])) && (forall|i: int| 0 <= i < c.len() - 1 ==> g.adj[#[trigger] c[i]].contains(c[i + 1])) && g.adj[c.last()].contains(c[0]) }
pub proof fn lemma_cycle_is_core(g: UG, c: Seq<int>)
    requires ok(g), simple_cycle(g, c)
    ensures /*OB lemma: the vertices of a simple cycle form a core BO*/ core2(g, c.to_set())
{
    let s = c.to_set(); let n = c.len() as int;
    assert forall|u: int| s.contains(u) implies #[trigger] g.nodes.contains(u) by { let i = choose|i: int| 0 <= i < n && c[i] == u; }
    assert forall|u: int| #[trigger] s.contains(u) implies others(g, u).intersect(s).len() >= 2 by {
        let i = choose|i: int| 0 <= i < n && c[i] == u;
        let a = if i + 1 < n { c[i + 1] } else { c[0] }; let b = if i > 0 { c[i - 1] } else { c[n - 1] };
        assert(a != u && b != u && a != b); assert(c.contains(a) && c.contains(b));
        assert(g.adj[u].contains(a)); assert(g.nodes.contains(b)); assert(g.adj[b].contains(u)) by { if i > 0 { assert(c[i - 1 + 1] == u); } }
        assert(g.adj[u].contains(b));
        let two = Set::<int>::empty().insert(a).insert(b); assert(two.len() == 2); vstd::set_lib::lemma_len_subset(two, others(g, u).intersect(s));
    }
}
// ----- library
pub uninterp spec fn component_of(g: UG, v: int) -> Set<int>;
pub uninterp spec fn bicomponents(g: UG) -> Seq<Set<int>>;
pub uninterp spec fn same_cycle(g: UG, u: int, v: int) -> bool;     // some simple cycle passes through both
// networkx: two vertices lie on a common simple cycle iff some biconnected component of at least three vertices holds both
#[verifier::external_body] pub proof fn axiom_bicomponents(g: UG)
    ensures forall|u: int, v: int| u != v ==> (#[trigger] same_cycle(g, u, v) <==> exists|i: int| 0 <= i < bicomponents(g).len() && (#[trigger] bicomponents(g)[i]).contains(u) && bicomponents(g)[i].contains(v) && bicomponents(g)[i].len() >= 3),
        forall|i: int, u: int| 0 <= i < bicomponents(g).len() && #[trigger] bicomponents(g)[i].contains(u) ==> g.nodes.contains(u),
        forall|i: int, u: int| 0 <= i < bicomponents(g).len() && #[trigger] bicomponents(g)[i].contains(u) && bicomponents(g)[i].len() >= 3 ==> same_cycle(g, u, u) { }
pub open spec fn keeps_root_cycles(g: UG, root: int, s: Set<int>) -> bool { forall|u: int| #[trigger] s.contains(u) <==> u == root || (u != root && same_cycle(g, u, root)) }
pub open spec fn cnt_other(s: Seq<int>, k: int, v: int) -> int decreases k { if k <= 0 { 0 } else { cnt_other(s, k - 1, v) + (if s[k - 1] != v { 1int } else { 0int }) } }
pub proof fn lemma_cnt(s: Seq<int>, k: int, v: int)
    requires s.no_duplicates(), 0 <= k <= s.len()
    ensures cnt_other(s, k, v) == s.subrange(0, k).to_set().remove(v).len()
    decreases k
{
    if k > 0 {
        lemma_cnt(s, k - 1, v); let a = s.subrange(0, k - 1); let b = s.subrange(0, k); let x = s[k - 1];
        assert(b =~= a.push(x)); assert(b.to_set() =~= a.to_set().insert(x)) by { assert forall|y: int| b.to_set().contains(y) <==> a.to_set().insert(x).contains(y) by { if b.contains(y) { let i = choose|i: int| 0 <= i < k && b[i] == y; if i < k - 1 { assert(a[i] == y); } } if a.contains(y) { let i = choose|i: int| 0 <= i < k - 1 && a[i] == y; assert(b[i] == y); } assert(b[k - 1] == x); } }
        assert(!a.contains(x)) by { if a.contains(x) { let i = choose|i: int| 0 <= i < k - 1 && a[i] == x; assert(s[i] == s[k - 1]); } }
        if x != v { assert(b.to_set().remove(v) =~= a.to_set().remove(v).insert(x)); } else { assert(b.to_set().remove(v) =~= a.to_set().remove(v)); }
    } else { assert(s.subrange(0, 0).to_set().remove(v) =~= Set::<int>::empty()); }
}
'''
U = 'UG'
def set_arg(self, e):
    if e.ty == 'Set<int>': return e.s
    s, t = self.iter_seq(e)
    if t != 'int': raise Unsupported('vertex set of ' + e.ty)
    return f'{s}.to_set()'
def m_subgraph(self, o, n): return E(f'induced({o.s}, {set_arg(self, self.one(n))})', U)
def m_neighbors(self, o, n):
    v = self.one(n); self.ob(f'{o.s}.nodes.contains({v.s})', 'vertex is in the graph'); return E(f'sset_seq({o.s}.adj[{v.s}])', 'Seq<int>')
def m_nodes(self, o, n):
    if n.args or n.keywords: raise Unsupported('nodes(...)')
    return E(f'{o.s}.nodes', 'Seq<int>')
def m_remove_nodes(self, o, n):
    lv = self.lvo(o); s = set_arg(self, self.one(n)); self.write(lv, f'induced({lv.read()}, {lv.read()}.nodes.to_set().difference({s}))'); return E('0int', 'unit')
def fresh_copy(self, n, want):
    e = self.one(n)
    if e.ty != U: raise Unsupported('copy of ' + e.ty)
    return E(e.s, U)
def m_copy(self, o, n):
    if n.args or n.keywords: raise Unsupported('copy')
    return E(o.s, U)
def c_comp(self, n, want):
    a = self.args(n, ['G', 'n']); g, v = self.ex(a['G']), self.ex(a['n']); self.ob(f'{g.s}.nodes.contains({v.s})', 'vertex is in the graph'); return E(f'component_of({g.s}, {v.s})', 'Set<int>')
C = {'__py__': {('method', (U, 'subgraph')): m_subgraph, ('method', (U, 'neighbors')): m_neighbors, ('method', (U, 'nodes')): m_nodes, ('attr', (U, 'nodes')): lambda self, o: E(f'{o.s}.nodes', 'Seq<int>'), ('method', (U, 'remove_nodes_from')): m_remove_nodes, ('method', (U, 'copy')): m_copy,
    ('call', 'copy.deepcopy'): fresh_copy, ('call', 'deepcopy'): fresh_copy, ('call', 'nx.Graph'): fresh_copy, ('call', 'nx.node_connected_component'): c_comp, ('call', 'nx.biconnected_components'): lambda self, n, want: E(f'bicomponents({self.one(n).s})', 'Seq<Set<int>>'),
    ('iter', U): lambda self, e: (f'{e.s}.nodes', 'int'), ('in', U): lambda self, a, b: f'{b.s}.nodes.contains({a.s})', ('len', U): lambda self, e: E(f'({e.s}.nodes.len() as int)', 'int'),
    ('index', U): lambda self, o, sl: (lambda v: (self.ob(f'{o.s}.nodes.contains({v.s})', 'vertex is in the graph'), E(f'sset_seq({o.s}.adj[{v.s}])', 'Seq<int>'))[1])(self.ex(sl))}}
C['degree_without_self_loops'] = dict(types=[U, 'int'], params=['g', 'v'], returns='int', requires=['ok($g)', '$g.nodes.contains($v)'], locals=[('count', 'int')],
    ensures=[('the number of neighbours other than itself', '$ret == others($g, $v).len()')],
    loops=[dict(kind='range', inv=['$seq == sset_seq($g.adj[$v])', '$count == cnt_other($seq, $it, $v)'])],
    hints={'loop1.before': 'proof { axiom_sset_seq($g.adj[$v]); lemma_cnt($seq, $seq.len() as int, $v); assert($seq.subrange(0, $seq.len() as int) =~= $seq); }'})
C['remove_leaves'] = dict(types=[U], params=['g'], returns=U, requires=['ok($g)'], locals=[('leaf_vertices', 'Set<int>'), ('leaf_vertex_found', 'bool')],
    ensures=[('the subgraph induced by the largest set in which everyone has two other neighbours', 'exists|s: Set<int>| largest_core($g, s) && $ret == #[trigger] induced($g, s)'), ('a well-formed graph', 'ok($ret)')],
    loops=[dict(kind='while', inv=['ok(g0)', 'ok($g)', 'stage(g0, $g, cur)', '!$leaf_vertex_found ==> core2(g0, cur)'], dec='2 * $g.nodes.len() + if $leaf_vertex_found { 1int } else { 0int }'),
           dict(kind='range', inv=['$seq == $g.nodes', '$g == g1', '$leaf_vertex_found == ($leaf_vertices.len() > 0)', 'forall|u: int| #[trigger] $leaf_vertices.contains(u) ==> others($g, u).len() <= 1 && $g.nodes.contains(u)', 'forall|i: int| 0 <= i < $it ==> $leaf_vertices.contains(#[trigger] $seq[i]) || others($g, $seq[i]).len() >= 2'])],
    hints={'entry': 'let ghost g0 = $g; let ghost mut cur = $g.nodes.to_set(); proof { lemma_start($g); }',
           'loop1.body': 'let ghost g1 = $g;',
           'loop2.after': 'proof { lemma_step(g0, g1, cur, $leaf_vertices); if !$leaf_vertex_found { lemma_last(g0, g1, cur, $leaf_vertices); } cur = g1.nodes.to_set().difference($leaf_vertices); }',
           'return': 'proof { assert(largest_core(g0, cur)); assert($retval == induced(g0, cur)); }'})
C['remove_one_connected_components'] = dict(types=[U, 'int'], params=['g', 'root'], returns=U, requires=['ok($g)', '$g.nodes.contains($root)'], locals=[('root_component', 'Set<int>'), ('removed_vertices', 'Set<int>'), ('graph_copy', U)],
    ensures=[('exactly the root and the vertices on a simple cycle with it, induced', 'exists|s: Set<int>| keeps_root_cycles($g, $root, s) && $ret == #[trigger] induced($g, s)'), ('the input is not modified', '$out(g) == $g')],
    loops=[dict(kind='range', inv=['$seq == bicomponents($g)', '$root_component.contains($root)', 'forall|u: int| #[trigger] $root_component.contains(u) ==> u == $root || (exists|i: int| 0 <= i < $it && (#[trigger] $seq[i]).contains(u) && $seq[i].contains($root) && $seq[i].len() >= 3)',
         'forall|i: int, u: int| 0 <= i < $it && (#[trigger] $seq[i]).contains($root) && $seq[i].len() >= 3 && $seq[i].contains(u) ==> #[trigger] $root_component.contains(u)'])],
    hints={'entry': 'let ghost g0 = $g; proof { axiom_bicomponents($g); }',
           'return': '''proof { let s = $root_component; let cut = $removed_vertices; assert(keeps_root_cycles(g0, $root, s)) by { assert forall|u: int| #[trigger] s.contains(u) <==> u == $root || (u != $root && same_cycle(g0, u, $root)) by { if u != $root && same_cycle(g0, u, $root) { let i = choose|i: int| 0 <= i < bicomponents(g0).len() && (#[trigger] bicomponents(g0)[i]).contains(u) && bicomponents(g0)[i].contains($root) && bicomponents(g0)[i].len() >= 3; } } }
              let k = g0.nodes.to_set().difference(cut); assert(k =~= s) by { assert forall|u: int| k.contains(u) <==> s.contains(u) by { if s.contains(u) && u != $root { let i = choose|i: int| 0 <= i < bicomponents(g0).len() && (#[trigger] bicomponents(g0)[i]).contains(u) && bicomponents(g0)[i].contains($root) && bicomponents(g0)[i].len() >= 3; assert(g0.nodes.contains(u)); } } }
              assert($retval == induced(g0, s)); }'''})
C['remove_components_disconnected_from_vertex'] = dict(types=[U, 'int'], params=['g', 'v'], returns=U, requires=['ok($g)', '$g.nodes.contains($v)'], ensures=[('exactly the vertices connected to the vertex, induced', '$ret == induced($g, component_of($g, $v))'), ('the input is not modified', '$out(g) == $g')])
UNITS = [Unit('preprocessing', kind='py', files=['pctsp/preprocessing/preprocessing.py'], contracts=C, prelude=PRELUDE, structs={U: [('nodes', 'Seq<int>'), ('adj', 'Map<int, Set<int>>'), ('attr', 'int')]},
              roots=['degree_without_self_loops', 'remove_leaves', 'remove_one_connected_components', 'remove_components_disconnected_from_vertex'])]
RUNTIME = [dict(kind='py', driver='c24.py', procs=3, rule='random graphs up to 9 vertices (trees, cacti, several components, self loops, isolated vertices) compared with brute-force enumeration of simple cycles; non-trivial: some vertex is removed')]
ASSUMPTIONS = ['networkx: neighbors yields each neighbour once, subgraph and remove_nodes_from give the induced subgraph with its attributes, node_connected_component the connected component, two vertices share a biconnected component of at least three vertices iff they lie on a common simple cycle']
