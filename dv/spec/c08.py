from ..run import Unit
from ..ir import E, Unsupported, Hint
from ..cxx import LV
from .. import scip
from . import sol, c15
PRELUDE = r'''
// ---- a list of edges as vertex pairs
pub open spec fn jn(ps: Seq<(int, int)>, i: int, u: int, v: int) -> bool { 0 <= i < ps.len() && (ps[i] == (u, v) || ps[i] == (v, u)) }
pub open spec fn link(ps: Seq<(int, int)>, u: int, v: int) -> bool { exists|i: int| jn(ps, i, u, v) }
pub open spec fn lone(ps: Seq<(int, int)>) -> bool { forall|i: int, j: int, u: int, v: int| #[trigger] jn(ps, i, u, v) && #[trigger] jn(ps, j, u, v) ==> i == j }
pub open spec fn noloop(ps: Seq<(int, int)>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] ps[i]).0 != ps[i].1 }
/// neighbours of v on the first k edges, one entry per edge end
pub open spec fn nb(ps: Seq<(int, int)>, v: int, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else { let p = nb(ps, v, k - 1); let e = ps[k - 1]; let q = if e.0 == v { p.push(e.1) } else { p }; if e.1 == v { q.push(e.0) } else { q } }
}
pub open spec fn nbs(ps: Seq<(int, int)>, v: int) -> Seq<int> { nb(ps, v, ps.len() as int) }
pub open spec fn steps(ps: Seq<(int, int)>, w: Seq<int>) -> bool { forall|i: int| 0 <= i < w.len() - 1 ==> link(ps, #[trigger] w[i], w[i + 1]) }
pub open spec fn leads(ps: Seq<(int, int)>, u: int, v: int, w: Seq<int>) -> bool { w.len() >= 1 && w[0] == u && w[w.len() - 1] == v && steps(ps, w) }
pub open spec fn linked(ps: Seq<(int, int)>, u: int, v: int) -> bool { exists|w: Seq<int>| leads(ps, u, v, w) }
/// non-empty, no self loops, every touched vertex on exactly two of the edges, all edges connected
pub open spec fn single(ps: Seq<(int, int)>) -> bool {
    &&& ps.len() > 0 && noloop(ps, ps.len() as int)
    &&& forall|v: int| #[trigger] nbs(ps, v).len() == 0 || nbs(ps, v).len() == 2
    &&& forall|i: int| 0 <= i < ps.len() ==> linked(ps, ps[0].0, (#[trigger] ps[i]).0)
}
/// the edges are exactly the sides of the polygon c
pub open spec fn nxt(c: Seq<int>, j: int) -> int { if j + 1 < c.len() { c[j + 1] } else { c[0] } }
pub open spec fn side_of(ps: Seq<(int, int)>, c: Seq<int>, i: int) -> bool { exists|j: int| 0 <= j < c.len() && #[trigger] jn(ps, i, c[j], nxt(c, j)) }
pub open spec fn cyc(ps: Seq<(int, int)>, c: Seq<int>) -> bool {
    &&& c.len() >= 3 && c.no_duplicates() && ps.len() == c.len()
    &&& forall|j: int| 0 <= j < c.len() ==> link(ps, #[trigger] c[j], nxt(c, j))
    &&& forall|i: int| 0 <= i < ps.len() ==> #[trigger] side_of(ps, c, i)
}
pub open spec fn is_cyc(ps: Seq<(int, int)>) -> bool { exists|c: Seq<int>| cyc(ps, c) }
// ---- neighbour lists
pub proof fn nb_from(ps: Seq<(int, int)>, v: int, k: int, t: int) -> (i: int)
    requires 0 <= k <= ps.len(), 0 <= t < nb(ps, v, k).len()
    ensures 0 <= i < k, jn(ps, i, v, nb(ps, v, k)[t])
    decreases k
{ let p = nb(ps, v, k - 1); if t < p.len() { assert(nb(ps, v, k)[t] == p[t]); nb_from(ps, v, k - 1, t) } else { k - 1 } }
pub proof fn nb_has(ps: Seq<(int, int)>, v: int, k: int, i: int, w: int)
    requires 0 <= i < k <= ps.len(), jn(ps, i, v, w)
    ensures nb(ps, v, k).contains(w)
    decreases k
{
    let p = nb(ps, v, k - 1); let q = nb(ps, v, k);
    if i < k - 1 { nb_has(ps, v, k - 1, i, w); let t = choose|t: int| 0 <= t < p.len() && p[t] == w; assert(q[t] == w); }
    else { let e = ps[k - 1]; if e.0 == v && e.1 == w { assert(q[p.len() as int] == w); } else { assert(e.1 == v && e.0 == w); assert(q[q.len() - 1] == w); } }
}
pub proof fn nb_link(ps: Seq<(int, int)>, v: int, w: int) ensures nbs(ps, v).contains(w) <==> link(ps, v, w), link(ps, v, w) == link(ps, w, v)
{
    if nbs(ps, v).contains(w) { let t = choose|t: int| 0 <= t < nbs(ps, v).len() && nbs(ps, v)[t] == w; let i = nb_from(ps, v, ps.len() as int, t); assert(jn(ps, i, v, w)); }
    if link(ps, v, w) { let i = choose|i: int| jn(ps, i, v, w); nb_has(ps, v, ps.len() as int, i, w); assert(jn(ps, i, w, v)); }
    if link(ps, w, v) { let i = choose|i: int| jn(ps, i, w, v); assert(jn(ps, i, v, w)); }
}
pub proof fn nb_unique(ps: Seq<(int, int)>, v: int, k: int)
    requires 0 <= k <= ps.len(), lone(ps), noloop(ps, k)
    ensures nb(ps, v, k).no_duplicates()
    decreases k
{
    if k > 0 {
        nb_unique(ps, v, k - 1); let p = nb(ps, v, k - 1); let q = nb(ps, v, k); let e = ps[k - 1]; assert(e.0 != e.1);
        if q.len() > p.len() {
            let w = q[p.len() as int]; assert(q =~= p.push(w)); assert(jn(ps, k - 1, v, w));
            assert forall|t: int| 0 <= t < p.len() implies p[t] != w by { if p[t] == w { let i = nb_from(ps, v, k - 1, t); assert(jn(ps, i, v, w)); } }
            assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && a != b implies q[a] != q[b] by { if a < p.len() && b < p.len() { assert(p[a] != p[b]); } }
        } else { assert(q =~= p); }
    }
}
pub proof fn nb_grows(ps: Seq<(int, int)>, v: int, k: int, m: int)
    requires 0 <= k <= m <= ps.len()
    ensures nb(ps, v, k).len() <= nb(ps, v, m).len()
    decreases m
{ if k < m { nb_grows(ps, v, k, m - 1); } }
pub proof fn of_two(s: Seq<int>, a: int, b: int, c: int)
    requires s.len() == 2, s.contains(a), s.contains(b), s.contains(c), a != b
    ensures c == a || c == b
{ let i = choose|i: int| 0 <= i < 2 && s[i] == a; let j = choose|j: int| 0 <= j < 2 && s[j] == b; let t = choose|t: int| 0 <= t < 2 && s[t] == c; assert(t == i || t == j); }
pub proof fn just_two(s: Seq<int>, a: int, b: int)
    requires s.no_duplicates(), s.contains(a), s.contains(b), a != b, forall|t: int| 0 <= t < s.len() ==> #[trigger] s[t] == a || s[t] == b
    ensures s.len() == 2
{ let i = choose|i: int| 0 <= i < s.len() && s[i] == a; let j = choose|j: int| 0 <= j < s.len() && s[j] == b; if s.len() > 2 { assert(s[0] == a || s[0] == b); assert(s[1] == a || s[1] == b); assert(s[2] == a || s[2] == b); assert(s[0] != s[1] && s[0] != s[2] && s[1] != s[2]); } }
pub proof fn onto(f: Seq<int>, m: int)
    requires f.no_duplicates(), m >= 0, forall|t: int| 0 <= t < f.len() ==> 0 <= #[trigger] f[t] < m
    ensures f.len() <= m, f.len() == m ==> forall|i: int| 0 <= i < m ==> f.contains(i)
{
    let all = vstd::set_lib::set_int_range(0, m); f.unique_seq_to_set(); vstd::set_lib::lemma_int_range(0, m);
    assert forall|x: int| f.to_set().contains(x) implies all.contains(x) by { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(f[i] == x); }
    vstd::set_lib::lemma_len_subset(f.to_set(), all);
    if f.len() == m { vstd::set_lib::lemma_subset_equality(f.to_set(), all); assert forall|i: int| 0 <= i < m implies f.contains(i) by { assert(all.contains(i)); assert(f.to_set().contains(i)); } }
}
// ---- the path followed by the second loop
#[verifier::opaque] pub open spec fn path_ok(ps: Seq<(int, int)>, p: Seq<int>) -> bool {
    let n = p.len() as int;
    &&& ps.len() > 0 && n >= 2 && p[0] == ps[0].0 && p[1] == ps[0].1 && steps(ps, p)
    &&& forall|a: int, b: int| 0 <= a < b < n - 1 ==> p[a] != p[b]
    &&& forall|j: int| 1 <= j < n - 1 ==> #[trigger] p[j] != p[n - 1]
    &&& forall|j: int| 1 <= j < n - 1 ==> nbs(ps, #[trigger] p[j]).len() == 2 && p[j + 1] != p[j - 1]
}
pub proof fn path_start(ps: Seq<(int, int)>) requires ps.len() > 0, noloop(ps, ps.len() as int) ensures path_ok(ps, seq![ps[0].0, ps[0].1])
{ reveal(path_ok); let p = seq![ps[0].0, ps[0].1]; assert(jn(ps, 0, p[0], p[1])); }
pub proof fn path_step(ps: Seq<(int, int)>, p: Seq<int>, x: int)
    requires path_ok(ps, p), lone(ps), noloop(ps, ps.len() as int), p[p.len() - 1] != p[0], nbs(ps, p[p.len() - 1]).len() == 2, nbs(ps, p[p.len() - 1]).contains(x), x != p[p.len() - 2]
    ensures path_ok(ps, p.push(x))
{
    reveal(path_ok); let n = p.len() as int; let y = p[n - 1]; let q = p.push(x); nb_link(ps, y, x);
    let i0 = choose|i: int| jn(ps, i, y, x); assert(ps[i0].0 != ps[i0].1); assert(x != y);
    assert forall|i: int| 0 <= i < q.len() - 1 implies link(ps, #[trigger] q[i], q[i + 1]) by { if i < n - 1 { assert(link(ps, p[i], p[i + 1])); } }
    assert forall|j: int| 1 <= j < n implies #[trigger] q[j] != x by {
        if q[j] == x && j < n - 1 {
            assert(link(ps, p[j - 1], p[j])); assert(link(ps, p[j], p[j + 1])); nb_link(ps, p[j], p[j - 1]); nb_link(ps, p[j - 1], p[j]); nb_link(ps, p[j], p[j + 1]); nb_link(ps, p[j], y); nb_link(ps, y, p[j]);
            assert(p[j + 1] != p[j - 1]); of_two(nbs(ps, p[j]), p[j - 1], p[j + 1], y); if j + 1 < n - 1 { assert(p[j + 1] != y); } if j - 1 >= 1 { assert(p[j - 1] != y); }
        }
    }
    assert forall|a: int, b: int| 0 <= a < b < n implies q[a] != q[b] by { if b == n - 1 { if a >= 1 { assert(p[a] != p[n - 1]); } } }
    assert forall|j: int| 1 <= j < n implies nbs(ps, #[trigger] q[j]).len() == 2 && q[j + 1] != q[j - 1] by { if j < n - 1 { assert(nbs(ps, p[j]).len() == 2); } }
}
/// the edges of the path, as positions in the list
pub open spec fn pick(ps: Seq<(int, int)>, u: int, v: int) -> int { choose|i: int| jn(ps, i, u, v) }
pub open spec fn pedge(ps: Seq<(int, int)>, p: Seq<int>, t: int) -> int { pick(ps, p[t], p[t + 1]) }
pub open spec fn pedges(ps: Seq<(int, int)>, p: Seq<int>) -> Seq<int> { Seq::new((p.len() - 1) as nat, |t: int| pedge(ps, p, t)) }
pub proof fn path_big(ps: Seq<(int, int)>, p: Seq<int>)
    requires path_ok(ps, p), noloop(ps, ps.len() as int), p[p.len() - 1] == p[0]
    ensures p.len() >= 4
{ reveal(path_ok); if p.len() == 2 { assert(ps[0].0 != ps[0].1); } if p.len() == 3 { let j = 1int; assert(p[j + 1] != p[j - 1]); } }
pub proof fn path_edges(ps: Seq<(int, int)>, p: Seq<int>)
    requires path_ok(ps, p), noloop(ps, ps.len() as int)
    ensures pedges(ps, p).no_duplicates(), pedges(ps, p).len() == p.len() - 1, p.len() - 1 <= ps.len(), forall|t: int| 0 <= t < p.len() - 1 ==> jn(ps, #[trigger] pedges(ps, p)[t], p[t], p[t + 1]),
        p.len() - 1 == ps.len() ==> forall|i: int| 0 <= i < ps.len() ==> pedges(ps, p).contains(i)
{
    let f = pedges(ps, p); let n = p.len() as int; 
    assert(n >= 2) by { reveal(path_ok); }
    assert forall|t: int| 0 <= t < n - 1 implies jn(ps, #[trigger] f[t], p[t], p[t + 1]) by { reveal(path_ok); assert(link(ps, p[t], p[t + 1])); }
    assert forall|a: int, b: int| 0 <= a < b < f.len() implies f[a] != f[b] by {
        if f[a] == f[b] {
            reveal(path_ok); let i = f[a]; assert(jn(ps, i, p[a], p[a + 1])); assert(jn(ps, i, p[b], p[b + 1])); assert(p[a] != p[b]); assert(p[a] == p[b + 1] && p[a + 1] == p[b]);
            if b + 1 < n - 1 { assert(p[a] != p[b + 1]); } else { if a >= 1 { assert(p[a] != p[n - 1]); } assert(a == 0); path_big(ps, p); assert(p[1] != p[b]); }
        }
    }
    assert forall|a: int, b: int| 0 <= a < f.len() && 0 <= b < f.len() && a != b implies f[a] != f[b] by { if a < b { assert(f[a] != f[b]); } else { assert(f[b] != f[a]); } }
    onto(f, ps.len() as int);
}
/// a closed path that uses every edge is a polygon
pub proof fn closes_up(ps: Seq<(int, int)>, p: Seq<int>)
    requires path_ok(ps, p), noloop(ps, ps.len() as int), p[p.len() - 1] == p[0], p.len() - 1 == ps.len()
    ensures is_cyc(ps)
{
    path_big(ps, p); path_edges(ps, p); let c = p.drop_last(); let f = pedges(ps, p);
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] nxt(c, j) == p[j + 1] by {}
    assert(c.no_duplicates()) by { reveal(path_ok); assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by { if a < b { assert(p[a] != p[b]); } else { assert(p[b] != p[a]); } } }
    assert forall|j: int| 0 <= j < c.len() implies link(ps, #[trigger] c[j], nxt(c, j)) by { assert(jn(ps, f[j], p[j], p[j + 1])); assert(nxt(c, j) == p[j + 1]); }
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] side_of(ps, c, i) by { assert(f.contains(i)); let t = choose|t: int| 0 <= t < f.len() && f[t] == i; assert(jn(ps, f[t], p[t], p[t + 1])); assert(nxt(c, t) == p[t + 1]); assert(jn(ps, i, c[t], nxt(c, t))); }
    assert(cyc(ps, c));
}
pub open spec fn on(p: Seq<int>, v: int) -> bool { exists|t: int| 0 <= t < p.len() - 1 && p[t] == v }
/// the neighbours of a vertex of a closed path are its neighbours on the path
pub proof fn path_nb(ps: Seq<(int, int)>, p: Seq<int>, t: int, w: int) -> (a: int)
    requires path_ok(ps, p), single(ps), p[p.len() - 1] == p[0], 0 <= t < p.len() - 1, link(ps, p[t], w)
    ensures 0 <= a < p.len() - 1, (p[a] == p[t] && w == p[a + 1]) || (p[a] == w && p[a + 1] == p[t])
{
    path_big(ps, p); reveal(path_ok); let n = p.len() as int; let b = if t == 0 { n - 2 } else { t - 1 };
    assert(link(ps, p[t], p[t + 1])); assert(link(ps, p[b], p[b + 1])); assert(p[b + 1] == p[t]); nb_link(ps, p[t], p[t + 1]); nb_link(ps, p[t], p[b]); nb_link(ps, p[b], p[t]); nb_link(ps, p[t], w);
    assert(p[t + 1] != p[b]) by { if t == 0 { assert(p[1] != p[n - 2]); } else { assert(p[t + 1] != p[t - 1]); } }
    assert(nbs(ps, p[t]).len() > 0); assert(nbs(ps, p[t]).len() == 2); of_two(nbs(ps, p[t]), p[t + 1], p[b], w);
    if w == p[t + 1] { t } else { b }
}
pub proof fn stays_on(ps: Seq<(int, int)>, p: Seq<int>, w: Seq<int>, k: int)
    requires path_ok(ps, p), single(ps), p[p.len() - 1] == p[0], 0 <= k < w.len(), steps(ps, w), w[0] == p[0]
    ensures on(p, w[k])
    decreases k
{
    path_big(ps, p);
    if k == 0 { assert(p[0] == w[0]); } else {
        stays_on(ps, p, w, k - 1); let t = choose|t: int| 0 <= t < p.len() - 1 && p[t] == w[k - 1]; assert(link(ps, w[k - 1], w[k - 1 + 1])); let a = path_nb(ps, p, t, w[k]);
        if p[a] == w[k] { } else if a + 1 < p.len() - 1 { assert(p[a + 1] == w[k]); } else { assert(p[0] == w[k]); }
    }
}
/// under `single`, a closed path uses every edge
pub proof fn uses_all(ps: Seq<(int, int)>, p: Seq<int>)
    requires path_ok(ps, p), single(ps), lone(ps), p[p.len() - 1] == p[0]
    ensures p.len() - 1 == ps.len()
{
    path_big(ps, p); path_edges(ps, p); let f = pedges(ps, p); let m = ps.len() as int; assert(p[0] == ps[0].0) by { reveal(path_ok); }
    assert forall|i: int| 0 <= i < m implies f.contains(i) by {
        let u = ps[i].0; assert(linked(ps, ps[0].0, ps[i].0)); let w = choose|w: Seq<int>| leads(ps, ps[0].0, u, w); stays_on(ps, p, w, w.len() - 1); let t = choose|t: int| 0 <= t < p.len() - 1 && p[t] == u;
        assert(jn(ps, i, u, ps[i].1)); let a = path_nb(ps, p, t, ps[i].1); assert(jn(ps, f[a], p[a], p[a + 1])); assert(jn(ps, i, p[a], p[a + 1])); assert(f[a] == i);
    }
    let all = vstd::set_lib::set_int_range(0, m); vstd::set_lib::lemma_int_range(0, m); f.unique_seq_to_set();
    assert(all.subset_of(f.to_set())) by { assert forall|x: int| all.contains(x) implies f.to_set().contains(x) by { assert(f.contains(x)); } }
    vstd::set_lib::lemma_len_subset(all, f.to_set());
}
/// a polygon satisfies `single`
pub open spec fn prv(c: Seq<int>, j: int) -> int { if j > 0 { c[j - 1] } else { c[c.len() - 1] } }
pub proof fn on_cyc(ps: Seq<(int, int)>, c: Seq<int>, i: int, v: int, w: int) -> (a: int)
    requires cyc(ps, c), jn(ps, i, v, w)
    ensures 0 <= a < c.len(), v == c[a], w == nxt(c, a) || w == prv(c, a)
{ assert(side_of(ps, c, i)); let j = choose|j: int| 0 <= j < c.len() && #[trigger] jn(ps, i, c[j], nxt(c, j)); if v == c[j] && w == nxt(c, j) { j } else if j + 1 < c.len() { j + 1 } else { 0 } }
pub proof fn cyc_noloop(ps: Seq<(int, int)>, c: Seq<int>, i: int)
    requires cyc(ps, c), 0 <= i < ps.len()
    ensures ps[i].0 != ps[i].1
{ assert(jn(ps, i, ps[i].0, ps[i].1)); let a = on_cyc(ps, c, i, ps[i].0, ps[i].1); if ps[i].0 == ps[i].1 { if ps[i].1 == nxt(c, a) { if a + 1 < c.len() { assert(c[a] != c[a + 1]); } else { assert(c[a] != c[0]); } } else { if a > 0 { assert(c[a] != c[a - 1]); } else { assert(c[0] != c[c.len() - 1]); } } } }
pub proof fn cyc_two(ps: Seq<(int, int)>, c: Seq<int>, v: int)
    requires cyc(ps, c), lone(ps), noloop(ps, ps.len() as int), nbs(ps, v).len() > 0
    ensures nbs(ps, v).len() == 2
{
    let m = ps.len() as int; let s = nbs(ps, v); nb_unique(ps, v, m);
    let i = nb_from(ps, v, m, 0); let a = on_cyc(ps, c, i, v, s[0]); let n = nxt(c, a); let q = prv(c, a);
    assert(link(ps, c[a], nxt(c, a))); nb_link(ps, v, n); let b = if a > 0 { a - 1 } else { c.len() - 1 }; assert(link(ps, c[b], nxt(c, b))); assert(nxt(c, b) == c[a]); nb_link(ps, c[b], c[a]); nb_link(ps, v, q);
    assert(n != q) by { let x = if a + 1 < c.len() { a + 1 } else { 0 }; assert(x != b); assert(c[x] != c[b]); }
    assert forall|t: int| 0 <= t < s.len() implies #[trigger] s[t] == n || s[t] == q by { let i2 = nb_from(ps, v, m, t); let a2 = on_cyc(ps, c, i2, v, s[t]); assert(c[a2] == c[a]); assert(a2 == a); }
    just_two(s, n, q);
}
pub proof fn cyc_up(ps: Seq<(int, int)>, c: Seq<int>, a: int, b: int)
    requires cyc(ps, c), 0 <= a <= b < c.len()
    ensures linked(ps, c[a], c[b]), linked(ps, c[b], c[a])
{
    let w = c.subrange(a, b + 1); assert forall|t: int| 0 <= t < w.len() - 1 implies link(ps, #[trigger] w[t], w[t + 1]) by { assert(link(ps, c[a + t], nxt(c, a + t))); } assert(leads(ps, c[a], c[b], w));
    let z = Seq::new((b - a + 1) as nat, |t: int| c[b - t]); assert forall|t: int| 0 <= t < z.len() - 1 implies link(ps, #[trigger] z[t], z[t + 1]) by { let k = b - t - 1; assert(link(ps, c[k], nxt(c, k))); nb_link(ps, c[k], c[k + 1]); } assert(leads(ps, c[b], c[a], z));
}
pub proof fn cyc_single(ps: Seq<(int, int)>, c: Seq<int>)
    requires cyc(ps, c), lone(ps)
    ensures single(ps)
{
    let m = ps.len() as int;
    assert forall|i: int| 0 <= i < m implies (#[trigger] ps[i]).0 != ps[i].1 by { cyc_noloop(ps, c, i); }
    assert(noloop(ps, m));
    assert forall|v: int| #[trigger] nbs(ps, v).len() == 0 || nbs(ps, v).len() == 2 by { if nbs(ps, v).len() > 0 { cyc_two(ps, c, v); } }
    assert forall|i: int| 0 <= i < m implies linked(ps, ps[0].0, (#[trigger] ps[i]).0) by {
        assert(jn(ps, 0, ps[0].0, ps[0].1)); assert(jn(ps, i, ps[i].0, ps[i].1)); let a = on_cyc(ps, c, 0, ps[0].0, ps[0].1); let b = on_cyc(ps, c, i, ps[i].0, ps[i].1);
        if a <= b { cyc_up(ps, c, a, b); } else { cyc_up(ps, c, b, a); }
    }
}
// ---- edge lists of a graph
pub open spec fn pairs(g: Graph, es: Seq<int>) -> Seq<(int, int)> { Seq::new(es.len(), |i: int| (e_src(g, es[i]), e_tgt(g, es[i]))) }
pub open spec fn edges_ok(g: Graph, es: Seq<int>) -> bool { simple(g) && es.no_duplicates() && forall|i: int| 0 <= i < es.len() ==> 0 <= #[trigger] es[i] < g.es.len() }
pub proof fn pairs_lone(g: Graph, es: Seq<int>) requires edges_ok(g, es) ensures lone(pairs(g, es))
{
    let ps = pairs(g, es);
    assert forall|i: int, j: int, u: int, v: int| #[trigger] jn(ps, i, u, v) && #[trigger] jn(ps, j, u, v) implies i == j by { assert(0 <= es[i] < g.es.len() && 0 <= es[j] < g.es.len()); assert(joins(g, es[i], u, v)); assert(joins(g, es[j], u, v)); }
}
/// the map of neighbour lists after k edges
pub open spec fn counted(ps: Seq<(int, int)>, m: Map<int, Seq<int>>, k: int) -> bool { forall|v: int| #[trigger] nb(ps, v, k) == mget(m, v, Seq::<int>::empty()) && (m.dom().contains(v) ==> nb(ps, v, k).len() > 0) }
pub proof fn counted_next(ps: Seq<(int, int)>, m: Map<int, Seq<int>>, m2: Map<int, Seq<int>>, k: int)
    requires 0 <= k < ps.len(), counted(ps, m, k), ps[k].0 != ps[k].1, ({ let s = ps[k].0; let t = ps[k].1; m2 =~= m.insert(s, mget(m, s, Seq::<int>::empty()).push(t)).insert(t, mget(m, t, Seq::<int>::empty()).push(s)) })
    ensures counted(ps, m2, k + 1)
{
    assert forall|v: int| #[trigger] nb(ps, v, k + 1) == mget(m2, v, Seq::<int>::empty()) && (m2.dom().contains(v) ==> nb(ps, v, k + 1).len() > 0) by { assert(nb(ps, v, k) == mget(m, v, Seq::<int>::empty())); }
}
'''
PS = 'pairs($graph, $edge_vector)'
C = {'isSimpleCycle': [dict(params=['graph', 'edge_vector'], requires=['edges_ok($graph, $edge_vector)'],
   ensures=[('yes exactly when the edges are non-empty, loop free, two at every touched vertex, and connected', f'$ret == single({PS})'), ('yes exactly when the edges are the sides of one polygon', f'$ret == is_cyc({PS})')],
   locals=[('vertex_count', 'Map<int, Seq<int>>'), ('current', 'int'), ('prev', 'int'), ('i', 'int')],
   loops=[dict(kind='range', inv=['$seq == $edge_vector', 'ps == ' + PS, 'lone(ps)', 'noloop(ps, $it as int)', 'counted(ps, $vertex_count, $it as int)']),
          dict(kind='while', inv=['ps == ' + PS, 'lone(ps)', 'noloop(ps, ps.len() as int)', 'ps.len() > 0', 'counted(ps, $vertex_count, ps.len() as int)', 'p.len() == $i + 2', '$i >= 0', 'path_ok(ps, p)', 'p[p.len() - 1] == $current', 'p[p.len() - 2] == $prev', 'p[0] == $source_2', '$i <= ps.len()'], dec='ps.len() - $i')],
   hints={'entry': f'let ghost ps = {PS}; let ghost mut p: Seq<int> = seq![]; proof {{ pairs_lone($graph, $edge_vector); assert(ps.len() == $edge_vector.len()); }}',
     'loop1.body': 'let ghost m0 = $vertex_count; let ghost k0 = $it as int; proof { assert(ps[$it as int] == (e_src($graph, $seq[$it as int]), e_tgt($graph, $seq[$it as int]))); }',
     'return:1': 'proof { assert(!single(ps)); if is_cyc(ps) { let c = choose|c: Seq<int>| cyc(ps, c); cyc_single(ps, c); } }',
     'return:2': 'proof { assert(!single(ps)); if is_cyc(ps) { let c = choose|c: Seq<int>| cyc(ps, c); cyc_single(ps, c); } }',
     'return:3': 'proof { counted_next(ps, m0, $vertex_count, k0); let s = ps[k0].0; let t = ps[k0].1; assert(nb(ps, s, k0 + 1).len() > 2 || nb(ps, t, k0 + 1).len() > 2); nb_grows(ps, s, k0 + 1, ps.len() as int); nb_grows(ps, t, k0 + 1, ps.len() as int); assert(nbs(ps, s).len() > 2 || nbs(ps, t).len() > 2); assert(!single(ps)); if is_cyc(ps) { let c = choose|c: Seq<int>| cyc(ps, c); cyc_single(ps, c); } }',
     'loop1.end': 'proof { counted_next(ps, m0, $vertex_count, $it - 1); }',
     'loop2.before': 'proof { p = seq![ps[0].0, ps[0].1]; path_start(ps); }',
     'return:4': 'proof { let y = $current; assert(nbs(ps, y) == mget($vertex_count, y, Seq::<int>::empty())); assert(link(ps, p[p.len() - 2], y)) by { reveal(path_ok); assert(link(ps, p[p.len() - 2], p[p.len() - 2 + 1])); } nb_link(ps, $prev, y); nb_link(ps, y, $prev); assert(nbs(ps, y).len() > 0); assert(!single(ps)); if is_cyc(ps) { let c = choose|c: Seq<int>| cyc(ps, c); cyc_single(ps, c); } }',
     'loop2.body': 'let ghost y0 = $current; let ghost z0 = $prev; proof { path_edges(ps, p); assert(nbs(ps, y0) == mget($vertex_count, y0, Seq::<int>::empty())); nb_unique(ps, y0, ps.len() as int); assert(link(ps, z0, y0)) by { reveal(path_ok); assert(link(ps, p[p.len() - 2], p[p.len() - 2 + 1])); } nb_link(ps, z0, y0); nb_link(ps, y0, z0); }',
     'loop2.end': 'proof { path_step(ps, p, $current); p = p.push($current); }',
     'return:5': '''proof { path_edges(ps, p);
        if $i == ps.len() - 1 { if $current == $source_2 { closes_up(ps, p); } let c = choose|c: Seq<int>| cyc(ps, c); cyc_single(ps, c); }
        else { if single(ps) { if $current == $source_2 { uses_all(ps, p); } } if is_cyc(ps) { let c = choose|c: Seq<int>| cyc(ps, c); cyc_single(ps, c); } } }'''})]}
TU = '#include "../src/separation.cpp"\n'
UNITS = [Unit('cycle', tu=TU, contracts=C, prelude=PRELUDE, roots=[('isSimpleCycle',)], prefetch=['isSimpleCycle'])]
# ---- the whole-graph variant
PRELUDE_G = PRELUDE + r'''
pub uninterp spec fn n_comps(g: Graph) -> int;
pub uninterp spec fn comp_of(g: Graph) -> Seq<int>;
/// boost::connected_components: labels 0..n_comps-1, each used, equal exactly for connected vertices
#[verifier::external_body] pub proof fn axiom_components(g: Graph) ensures comp_of(g).len() == g.n, n_comps(g) >= 0, forall|v: int| 0 <= v < g.n ==> 0 <= #[trigger] comp_of(g)[v] < n_comps(g) {}
#[verifier::external_body] pub proof fn axiom_labels_used(g: Graph, c: int) requires 0 <= c < n_comps(g) ensures exists|v: int| 0 <= v < g.n && #[trigger] comp_of(g)[v] == c {}
#[verifier::external_body] pub proof fn axiom_labels(g: Graph, u: int, v: int) requires wf(g), 0 <= u < g.n, 0 <= v < g.n ensures comp_of(g)[u] == comp_of(g)[v] <==> linked(g.es, u, v) {}
pub open spec fn whole(g: Graph) -> bool { g.n > 0 && single(g.es) && forall|v: int| 0 <= v < g.n ==> nbs(g.es, v).len() == 2 }
pub proof fn degree_nb(g: Graph, v: int, k: int) requires 0 <= k <= g.es.len() ensures inc_upto(g, v, k).len() == nb(g.es, v, k).len() decreases k { if k > 0 { degree_nb(g, v, k - 1); } }
pub proof fn outside(g: Graph, v: int) requires wf(g), !(0 <= v < g.n) ensures nbs(g.es, v).len() == 0 { if nbs(g.es, v).len() > 0 { let i = nb_from(g.es, v, g.es.len() as int, 0); assert(0 <= g.es[i].0 < g.n); } }
pub proof fn one_comp(g: Graph) requires wf(g), whole(g) ensures n_comps(g) == 1
{
    axiom_components(g); let r = g.es[0].0; assert(comp_of(g)[r] >= 0);
    assert forall|v: int| 0 <= v < g.n implies #[trigger] comp_of(g)[v] == comp_of(g)[r] by {
        assert(nbs(g.es, v).len() == 2); let i = nb_from(g.es, v, g.es.len() as int, 0); assert(linked(g.es, g.es[0].0, g.es[i].0)); axiom_labels(g, r, g.es[i].0);
        if v != g.es[i].0 { let q = seq![g.es[i].0, v]; assert(jn(g.es, i, g.es[i].0, v)); assert(leads(g.es, g.es[i].0, v, q)); axiom_labels(g, g.es[i].0, v); } }
    if n_comps(g) > 1 { axiom_labels_used(g, 0); axiom_labels_used(g, 1); let a = choose|v: int| 0 <= v < g.n && #[trigger] comp_of(g)[v] == 0; let b = choose|v: int| 0 <= v < g.n && #[trigger] comp_of(g)[v] == 1; assert(comp_of(g)[a] == comp_of(g)[b]); }
}
pub proof fn whole_of(g: Graph) requires wf(g), g.n > 0, g.es.len() > 0, noloop(g.es, g.es.len() as int), n_comps(g) == 1, forall|v: int| 0 <= v < g.n ==> (#[trigger] adj(g, v)).len() == 2 ensures whole(g)
{
    axiom_components(g); let m = g.es.len() as int;
    assert forall|v: int| 0 <= v < g.n implies nbs(g.es, v).len() == 2 by { degree_nb(g, v, m); assert(adj(g, v).len() == 2); }
    assert forall|v: int| #[trigger] nbs(g.es, v).len() == 0 || nbs(g.es, v).len() == 2 by { if !(0 <= v < g.n) { outside(g, v); } }
    assert forall|i: int| 0 <= i < m implies linked(g.es, g.es[0].0, (#[trigger] g.es[i]).0) by { let r = g.es[0].0; let u = g.es[i].0; assert(comp_of(g)[r] == comp_of(g)[u]); axiom_labels(g, r, u); }
}
'''
def components(self, a, n):
    g = self.expr(a[0]); base = self.expr(a[1]).lv
    if base is None or not base.path or base.path[-1][0] != 'idx' or base.path[-1][1] not in ('0int', '0'): raise Unsupported('component array')
    seq = base.parent(); seq = LV(seq.base, 'Seq<int>', seq.path)
    self.emit(Hint(f'proof {{ axiom_components({g.s}); }}')); self.ob(f'{seq.read()}.len() >= {g.s}.n', 'the component array holds every vertex'); self.write(seq, f'comp_of({g.s})')
    return E(f'n_comps({g.s})', 'int')
CG = {'__calls__': {'connected_components': components},
 'isGraphSimpleCycle': [dict(params=['graph', 'component_vector'], requires=['wf($graph)', 'simple($graph)', 'noloop($graph.es, $graph.es.len() as int)', '$component_vector.len() >= $graph.n'],
   ensures=[('yes exactly when the graph is one simple cycle through all its vertices', '$ret == whole($graph)'), '$out(graph) == $graph'],
   loops=[dict(kind='range', inv=['$seq == vertex_seq($graph)', 'forall|v: int| 0 <= v < $it ==> (#[trigger] adj($graph, v)).len() == 2', 'n_comps($graph) == 1', '$graph.es.len() > 0', '$graph.n > 0'])],
   hints={'return': 'proof { if whole($graph) { one_comp($graph); } }', 'loop1.body': 'proof { degree_nb($graph, $seq[$it as int], $graph.es.len() as int); assert(adj($graph, $seq[$it as int]).len() == nbs($graph.es, $seq[$it as int]).len()); }', 'return:5': 'proof { whole_of($graph); }'})]}
UNITS += [Unit('graph', tu=TU, contracts=CG, prelude=PRELUDE_G, roots=[('isGraphSimpleCycle',)], prefetch=['isGraphSimpleCycle'])]
# ---- candidate solutions of the solver
PRELUDE_S = PRELUDE + sol.PRELUDE + c15.PRELUDE + c15.PRELUDE_E[len(scip.PRELUDE + c15.PRELUDE):] + r'''
pub open spec fn sol_ok(s: Scip) -> bool { let g = s.probdata.graph_; simple(g) && s.probdata.edge_variable_map_.dom().finite() && forall|e: int| s.probdata.edge_variable_map_.dom().contains(e) ==> 0 <= e < g.es.len() }
/// the edges the solution uses, as vertex pairs
pub open spec fn sol_pairs(s: Scip, x: int) -> Seq<(int, int)> { pairs(s.probdata.graph_, used_edges(s.probdata.graph_, s.probdata.edge_variable_map_, x)) }
/// what the LP branching of the solver reports (never FEASIBLE)
#[verifier::external_body] pub proof fn axiom_branch(n: int) ensures branch_result(n) != 4 {}
'''
def transformed(self, a, n):
    vs = self.expr(a[2]); k = self.expr(a[1]).s; o = self.expr(a[3])
    if o.lv is None: raise Unsupported('array of transformed variables')
    self.ob(f'0 <= {k} <= {vs.s}.len() && {k} <= {o.lv.read()}.len()', 'both variable arrays hold the stated number of entries')
    self.write(o.lv, f'Seq::new({o.lv.read()}.len(), |i: int| if i < {k} {{ trans_var({vs.s}[i]) }} else {{ {o.lv.read()}[i] }})'); return E('1int', 'int')
def count_fixed(self, a, n):
    vs, k = self.expr(a[0]), self.expr(a[1]).s; self.ob(f'{k} <= {vs.s}.len()', 'the variable array holds the stated number of entries'); return E('0int', 'int')
def branch_lp(self, a, n):
    c = scip.fld(scip.S(self, a[0]), 'current').read(); self.emit(Hint(f'proof {{ axiom_branch({c}); }}')); scip.out(self, a[1], f'branch_result({c})'); return E('1int', 'int')
K = 'PCTSPconshdlrSubtour'
PT = {'conss': 'int', 'conshdlr': 'int', 'nconss': 'int', 'nusefulconss': 'int'}
VERDICT = ('FEASIBLE exactly when the used edges form one simple cycle, else INFEASIBLE', '$out(result) == (if is_cyc(sol_pairs($scip, %s)) { 4int } else { 5int })')
def verdict(x): return (VERDICT[0], VERDICT[1] % x)
SAME = ('the problem is left as it is', '$out(scip) == $scip')
CS = {**sol.C, **c15.C, 'isSimpleCycle': C['isSimpleCycle'], '__structs__': scip.STRUCTS, '__members__': scip.MEMBERS,
 '__calls__': {**{k: v for k, v in c15.ECALLS.items() if k != 'isSolSimpleCycle'}, 'SCIPgetTransformedVars': transformed, 'numFixedOrAggVars': count_fixed, 'SCIPbranchLP': branch_lp},
 'isSolSimpleCycle': [dict(params=['scip', 'sol', 'result'], requires=['sol_ok($scip)'],
   ensures=[('yes exactly when the used edges of the solution form one simple cycle', '$ret == is_cyc(sol_pairs($scip, $sol))'), SAME, '$out(result) == $result'],
   hints={'decl:solution_edges': 'proof { used_edges_exact($scip.probdata.graph_, $scip.probdata.edge_variable_map_, $sol); let ue = used_edges($scip.probdata.graph_, $scip.probdata.edge_variable_map_, $sol); assert forall|i: int| 0 <= i < ue.len() implies 0 <= #[trigger] ue[i] < $scip.probdata.graph_.es.len() by { assert(ue.contains(ue[i])); } }'})],
 'scip_enfops': [dict(this=K, cls=K, ptypes=PT, params=['this', 'scip', 'conshdlr', 'conss', 'nconss', 'nusefulconss', 'solinfeasible', 'objinfeasible', 'result'], requires=['sol_ok($scip)'], ensures=['$exc == 0 && $ret == 1', verdict('0'), SAME])],
 'scip_check': [dict(this=K, cls=K, ptypes=PT, params=['this', 'scip', 'conshdlr', 'conss', 'nconss', 'sol', 'checkintegrality', 'checklprows', 'printreason', 'completely', 'result'], requires=['sol_ok($scip)'], ensures=['$exc == 0 && $ret == 1', verdict('$sol'), SAME])],
 'scip_enfolp': [dict(this=K, cls=K, ptypes=PT, params=c15.ENFOLP['params'], requires=['sol_ok($scip)'] + c15.ENFOLP['requires'], ensures=['$exc == 0 && $ret == 1', ('FEASIBLE exactly when the used edges of the LP solution form one simple cycle', '($out(result) == 4) == is_cyc(sol_pairs($scip, 0))'), SAME])],
}
UNITS += [Unit('solution', tu='#include "../src/subtour_elimination.cpp"\n#include "../src/separation.cpp"\n#include "../src/solution.cpp"\n#include "../src/sciputils.cpp"\n', contracts=CS, prelude=PRELUDE_S, roots=[('isSolSimpleCycle',), (K + '::scip_enfops',), (K + '::scip_check',), (K + '::scip_enfolp',)], prefetch=[K, 'isSolSimpleCycle', 'isSimpleCycle', 'getSolutionEdges', 'isVarPositive', 'pushIntoRollingLpGapList', 'isNodeTailingOff'])]
RUNTIME = [dict(kind='cxx', driver='c08.cpp', srcs=['subtour_elimination.cpp', 'separation.cpp', 'solution.cpp', 'graph.cpp', 'sciputils.cpp', 'event_handlers.cpp', 'data_structures.cpp', 'stats.cpp'], libs=['-lyaml-cpp'], rule='edge sets on up to 9 vertices of a larger simple graph with self loops: single cycles, disjoint cycles, cycles with tails or chords, paths, mixtures and random subsets, in any order and orientation; the list recogniser, the whole-graph variant and the four solution views (isSolSimpleCycle, scip_check, scip_enfops, scip_enfolp); non-trivial: a cycle, or at least three edges')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['boost::connected_components labels the vertices 0..k-1, uses every label, and gives equal labels exactly to connected vertices (axiom_components, axiom_labels_used, axiom_labels)', 'the graph is simple apart from self loops and every edge is given once (the statement quantifies over edge sets)', 'the whole-graph variant is called on graphs without self loops', 'SCIPbranchLP never reports FEASIBLE (axiom_branch)', 'numFixedOrAggVars feeds only a log line and is not under contract; scip_check is called with at least one variable']
