// Trusted prelude: mathematical models of the library operations the extraction maps to.
use vstd::prelude::*;
verus! {

#[verifier::external_body]
pub fn branch(Ghost(c): Ghost<bool>) -> (r: bool) ensures r == c { unimplemented!() }

// ---------- sequences
pub open spec fn find_pos<T>(s: Seq<T>, a: int, b: int, x: T) -> int
    decreases b - a
{ if a >= b { b } else if s[a] == x { a } else { find_pos(s, a + 1, b, x) } }

pub proof fn lemma_find_pos<T>(s: Seq<T>, a: int, b: int, x: T)
    requires a <= b
    ensures a <= find_pos(s, a, b, x) <= b,
        forall|i: int| a <= i < find_pos(s, a, b, x) ==> s[i] != x,
        find_pos(s, a, b, x) < b ==> s[find_pos(s, a, b, x)] == x,
    decreases b - a
{ if a < b && s[a] != x { lemma_find_pos(s, a + 1, b, x); } }

// list.remove(x) on a list without repetitions
pub proof fn lemma_remove_nodup<T>(s: Seq<T>, x: T)
    requires s.contains(x), s.no_duplicates()
    ensures ({ let r = s.remove(find_pos(s, 0, s.len() as int, x)); &&& r.len() == s.len() - 1 &&& r.no_duplicates() &&& !r.contains(x) &&& (forall|y: T| y != x ==> (#[trigger] r.contains(y) <==> s.contains(y))) &&& 0 <= find_pos(s, 0, s.len() as int, x) < s.len() })
{
    lemma_find_pos(s, 0, s.len() as int, x);
    let p = find_pos(s, 0, s.len() as int, x); let r = s.remove(p);
    let w = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(p < s.len());
    assert forall|y: T| y != x implies (#[trigger] r.contains(y) <==> s.contains(y)) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(r[if i < p { i } else { i - 1 }] == y); }
        if r.contains(y) { let i = choose|i: int| 0 <= i < r.len() && r[i] == y; assert(s[if i < p { i } else { i + 1 }] == y); }
    }
    if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(s[if i < p { i } else { i + 1 }] == x); }
}
pub open spec fn fill_seq<T>(n: int, v: T) -> Seq<T> { Seq::new(n as nat, |i: int| v) }
pub uninterp spec fn undef_val<T>(n: int, i: int) -> T;
pub open spec fn undef_seq<T>(n: int) -> Seq<T> { Seq::new(n as nat, |i: int| undef_val::<T>(n, i)) }
pub open spec fn resize_seq<T>(s: Seq<T>, n: int, v: T) -> Seq<T> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { v }) }
pub open spec fn mget<K, V>(m: Map<K, V>, k: K, d: V) -> V { if m.dom().contains(k) { m[k] } else { d } }

pub open spec fn seq_sum(s: Seq<int>) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() } }

pub uninterp spec fn sset_seq<T>(s: Set<T>) -> Seq<T>;
#[verifier::external_body]
pub proof fn axiom_sset_seq<T>(s: Set<T>)
    requires s.finite()
    ensures sset_seq(s).no_duplicates(), sset_seq(s).to_set() == s, sset_seq(s).len() == s.len(),
        forall|x: T| s.contains(x) <==> (exists|i: int| 0 <= i < sset_seq(s).len() && sset_seq(s)[i] == x),
{}
pub uninterp spec fn map_entries<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
#[verifier::external_body]
pub proof fn axiom_map_entries<K, V>(m: Map<K, V>)
    requires m.dom().finite()
    ensures map_entries(m).len() == m.dom().len(),
        forall|i: int| 0 <= i < map_entries(m).len() ==> m.dom().contains(#[trigger] map_entries(m)[i].0) && m[map_entries(m)[i].0] == map_entries(m)[i].1,
        forall|i: int, j: int| 0 <= i < j < map_entries(m).len() ==> map_entries(m)[i].0 != map_entries(m)[j].0,
        forall|k: K| m.dom().contains(k) ==> exists|i: int| 0 <= i < map_entries(m).len() && #[trigger] map_entries(m)[i] == (k, m[k]),
{}
pub open spec fn map_keys<K, V>(m: Map<K, V>) -> Seq<K> { Seq::new(map_entries(m).len(), |i: int| map_entries(m)[i].0) }
pub open spec fn map_values<K, V>(m: Map<K, V>) -> Seq<V> { Seq::new(map_entries(m).len(), |i: int| map_entries(m)[i].1) }
pub open spec fn int_range(a: int, b: int) -> Seq<int> { Seq::new(if b > a { (b - a) as nat } else { 0nat }, |i: int| a + i) }
pub open spec fn zip_seq<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub open spec fn enum_seq<A>(a: Seq<A>) -> Seq<(int, A)> { Seq::new(a.len(), |i: int| (i, a[i])) }
pub uninterp spec fn sorted_seq(s: Seq<int>) -> Seq<int>;
#[verifier::external_body]
pub proof fn axiom_sorted_seq(s: Seq<int>)
    ensures is_sorted(sorted_seq(s)), sorted_seq(s).to_multiset() == s.to_multiset(), sorted_seq(s).len() == s.len(), {}
pub open spec fn is_sorted(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub uninterp spec fn merge_inter(a: Seq<int>, b: Seq<int>) -> Seq<int>;

pub struct Bimap { pub l: Map<int, int>, pub r: Map<int, int> }
// boost::bimap::insert: nothing happens when either side is already present
pub open spec fn bimap_insert(b: Bimap, p: (int, int)) -> Bimap {
    if b.l.dom().contains(p.0) || b.r.dom().contains(p.1) { b } else { Bimap { l: b.l.insert(p.0, p.1), r: b.r.insert(p.1, p.0) } }
}

// ---------- arithmetic
pub uninterp spec fn trunc(x: real) -> int;
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn tmod(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub uninterp spec fn LIMIT_MAX() -> int;
pub uninterp spec fn LIMIT_MIN() -> int;

// ---------- graphs (boost::adjacency_list<listS, vecS, undirectedS>)
pub struct Graph { pub n: int, pub es: Seq<(int, int)> }
// the property map a graph carries, before it is filled
pub uninterp spec fn prop_map(g: Graph) -> Map<int, int>;
pub open spec fn joins(g: Graph, i: int, u: int, v: int) -> bool {
    0 <= i < g.es.len() && (g.es[i] == (u, v) || g.es[i] == (v, u))
}
pub open spec fn has_edge(g: Graph, u: int, v: int) -> bool { exists|i: int| joins(g, i, u, v) }
pub open spec fn g_edge(g: Graph, u: int, v: int) -> (int, bool) {
    if has_edge(g, u, v) { (choose|i: int| joins(g, i, u, v), true) } else { (arbitrary::<int>(), false) }
}
pub open spec fn vertex_seq(g: Graph) -> Seq<int> { Seq::new(g.n as nat, |i: int| i) }
pub open spec fn edge_seq(g: Graph) -> Seq<int> { Seq::new(g.es.len(), |i: int| i) }
pub open spec fn inc_upto(g: Graph, u: int, k: int) -> Seq<int> decreases k
{
    if k <= 0 { Seq::empty() } else {
        let p = inc_upto(g, u, k - 1); let e = g.es[k - 1];
        if e.0 == u && e.1 == u { p.push(k - 1).push(k - 1) } else if e.0 == u || e.1 == u { p.push(k - 1) } else { p }
    }
}
pub open spec fn out_edge_seq(g: Graph, u: int) -> Seq<int> { inc_upto(g, u, g.es.len() as int) }
pub open spec fn other_end(g: Graph, e: int, u: int) -> int { if g.es[e].0 == u { g.es[e].1 } else { g.es[e].0 } }
pub open spec fn adj(g: Graph, u: int) -> Seq<int> { Seq::new(out_edge_seq(g, u).len(), |i: int| other_end(g, out_edge_seq(g, u)[i], u)) }
pub uninterp spec fn e_flip(g: Graph, e: int) -> bool;
pub open spec fn e_src(g: Graph, e: int) -> int { if e_flip(g, e) { g.es[e].1 } else { g.es[e].0 } }
pub open spec fn e_tgt(g: Graph, e: int) -> int { if e_flip(g, e) { g.es[e].0 } else { g.es[e].1 } }
pub open spec fn wf(g: Graph) -> bool { g.n >= 0 && forall|i: int| 0 <= i < g.es.len() ==> 0 <= (#[trigger] g.es[i]).0 < g.n && 0 <= g.es[i].1 < g.n }
pub open spec fn simple(g: Graph) -> bool { forall|i: int, j: int, u: int, v: int| #[trigger] joins(g, i, u, v) && #[trigger] joins(g, j, u, v) ==> i == j }

// directed graph with capacities, reverse arcs and residual capacities (boost::adjacency_list<vecS, vecS, directedS, ..., edge properties>); arc = index
pub struct DGraph { pub n: int, pub es: Seq<(int, int)>, pub cap: Seq<int>, pub rev: Seq<int>, pub res: Seq<int> }
pub open spec fn max3(a: int, b: int, c: int) -> int { if a >= b && a >= c { a } else if b >= c { b } else { c } }
pub open spec fn dg_add(d: DGraph, u: int, v: int, c: int) -> DGraph { DGraph { n: max3(d.n, u + 1, v + 1), es: d.es.push((u, v)), cap: d.cap.push(c), rev: d.rev.push(0), res: d.res.push(0) } }
pub uninterp spec fn dg_edges(es: Seq<(int, int)>) -> Seq<int>;
#[verifier::external_body]
pub proof fn axiom_dg_edges(es: Seq<(int, int)>) ensures dg_edges(es).no_duplicates(), forall|e: int| #[trigger] dg_edges(es).contains(e) <==> 0 <= e < es.len() {}

pub proof fn lemma_g_edge(g: Graph, u: int, v: int)
    ensures g_edge(g, u, v).1 == has_edge(g, u, v), g_edge(g, u, v).1 ==> joins(g, g_edge(g, u, v).0, u, v)
{}
}
