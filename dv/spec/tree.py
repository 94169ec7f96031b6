"""Rooted trees given by child lists: pre- and postorder sequences and the ancestor relation."""
from ..cxx import str_const
PRE, POST = str_const('pre'), str_const('post')
PRELUDE = r'''
pub type Succ = Map<int, Seq<int>>;
pub open spec fn ranked(s: Succ, h: spec_fn(int) -> nat) -> bool {
    &&& forall|v: int, i: int| s.dom().contains(v) && 0 <= i < s[v].len() ==> s.dom().contains(#[trigger] s[v][i]) && h(s[v][i]) < h(v) }
pub open spec fn height(s: Succ) -> spec_fn(int) -> nat { choose|h: spec_fn(int) -> nat| ranked(s, h) }
pub open spec fn child(s: Succ, p: int, c: int) -> bool { s.dom().contains(p) && s[p].contains(c) }
// acyclic, and no vertex has two parents
pub open spec fn forest(s: Succ) -> bool {
    &&& exists|h: spec_fn(int) -> nat| ranked(s, h)
    &&& forall|v: int| #[trigger] s.dom().contains(v) ==> s[v].no_duplicates()
    &&& forall|p: int, q: int, c: int| #[trigger] child(s, p, c) && #[trigger] child(s, q, c) ==> p == q }
// a path of the tree
pub open spec fn tpath(s: Succ, p: Seq<int>) -> bool { p.len() >= 1 && s.dom().contains(p[0]) && forall|i: int| 0 <= i < p.len() - 1 ==> child(s, #[trigger] p[i], p[i + 1]) }
pub open spec fn path_to(s: Succ, p: Seq<int>, r: int, x: int) -> bool { tpath(s, p) && p[0] == r && p.last() == x }
#[verifier::opaque]
pub open spec fn reach(s: Succ, r: int, x: int) -> bool { exists|p: Seq<int>| #[trigger] path_to(s, p, r, x) }
pub proof fn lemma_reach_get(s: Succ, r: int, x: int) -> (p: Seq<int>) requires reach(s, r, x) ensures path_to(s, p, r, x) { reveal(reach); choose|p: Seq<int>| #[trigger] path_to(s, p, r, x) }
pub proof fn lemma_reach_put(s: Succ, p: Seq<int>, r: int, x: int) requires path_to(s, p, r, x) ensures reach(s, r, x) { reveal(reach); }
pub proof fn lemma_path_cat(s: Succ, p: Seq<int>, q: Seq<int>)
    requires tpath(s, p), tpath(s, q), p.last() == q[0]
    ensures tpath(s, p + q.subrange(1, q.len() as int)), (p + q.subrange(1, q.len() as int))[0] == p[0], (p + q.subrange(1, q.len() as int)).last() == q.last(), (p + q.subrange(1, q.len() as int)).len() == p.len() + q.len() - 1
{
    let t = p + q.subrange(1, q.len() as int);
    assert forall|k: int| 0 <= k < t.len() - 1 implies child(s, #[trigger] t[k], t[k + 1]) by {
        if k < p.len() - 1 { assert(t[k] == p[k]); assert(t[k + 1] == p[k + 1]); assert(child(s, p[k], p[k + 1])); }
        else { let m = k - (p.len() - 1); assert(t[k] == q[m]); assert(t[k + 1] == q[m + 1]); assert(child(s, q[m], q[m + 1])); } }
}
pub open spec fn rooted_tree(s: Succ, r: int) -> bool {
    &&& forest(s) &&& s.dom().contains(r) &&& forall|v: int| #[trigger] s.dom().contains(v) ==> reach(s, r, v) }
// a lies on a path from r to d
#[verifier::opaque]
pub open spec fn on_path(s: Succ, r: int, a: int, d: int) -> bool { exists|p: Seq<int>| #[trigger] path_to(s, p, r, d) && p.contains(a) }

pub open spec fn pre_seq(s: Succ, v: int) -> Seq<int> decreases height(s)(v), s[v].len() + 1 when s.dom().contains(v) && ranked(s, height(s))
{ seq![v] + pre_kids(s, v, s[v].len() as int) }
pub open spec fn pre_kids(s: Succ, v: int, k: int) -> Seq<int> decreases height(s)(v), k when s.dom().contains(v) && ranked(s, height(s)) && k <= s[v].len()
{ if k <= 0 { Seq::empty() } else { pre_kids(s, v, k - 1) + pre_seq(s, s[v][k - 1]) } }
pub open spec fn post_seq(s: Succ, v: int) -> Seq<int> decreases height(s)(v), s[v].len() + 1 when s.dom().contains(v) && ranked(s, height(s))
{ post_kids(s, v, s[v].len() as int).push(v) }
pub open spec fn post_kids(s: Succ, v: int, k: int) -> Seq<int> decreases height(s)(v), k when s.dom().contains(v) && ranked(s, height(s)) && k <= s[v].len()
{ if k <= 0 { Seq::empty() } else { post_kids(s, v, k - 1) + post_seq(s, s[v][k - 1]) } }

pub proof fn lemma_height(s: Succ) requires forest(s) ensures ranked(s, height(s)) { let h = choose|h: spec_fn(int) -> nat| ranked(s, h); assert(ranked(s, h)); }
pub proof fn lemma_in_cat<T>(a: Seq<T>, b: Seq<T>) ensures forall|x: T| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{ assert forall|x: T| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x) by {
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } } } }
pub proof fn lemma_in_one<T>(v: T) ensures forall|x: T| #[trigger] seq![v].contains(x) <==> x == v { assert(seq![v][0] == v); }
pub proof fn lemma_nodup_cat<T>(a: Seq<T>, b: Seq<T>) requires a.no_duplicates(), b.no_duplicates(), forall|x: T| a.contains(x) ==> !b.contains(x) ensures (a + b).no_duplicates()
{ assert forall|i: int, j: int| 0 <= i < j < (a + b).len() implies (a + b)[i] != (a + b)[j] by { if i < a.len() { assert(a.contains(a[i])); } if i < a.len() && j >= a.len() { assert(b.contains(b[j - a.len()])); } } }

// members of the subtree of v below its first k children
pub open spec fn in_kids(s: Succ, v: int, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] pre_seq(s, s[v][i]).contains(x) }
pub proof fn lemma_kids(s: Succ, v: int, k: int)
    requires forest(s), s.dom().contains(v), 0 <= k <= s[v].len()
    ensures forall|x: int| #[trigger] pre_kids(s, v, k).contains(x) <==> in_kids(s, v, k, x)
    decreases k
{
    lemma_height(s);
    if k > 0 {
        lemma_kids(s, v, k - 1); lemma_in_cat(pre_kids(s, v, k - 1), pre_seq(s, s[v][k - 1]));
        assert forall|x: int| #[trigger] pre_kids(s, v, k).contains(x) <==> in_kids(s, v, k, x) by {
            if in_kids(s, v, k - 1, x) { let i = choose|i: int| 0 <= i < k - 1 && #[trigger] pre_seq(s, s[v][i]).contains(x); assert(pre_seq(s, s[v][i]).contains(x)); }
            if in_kids(s, v, k, x) { let i = choose|i: int| 0 <= i < k && #[trigger] pre_seq(s, s[v][i]).contains(x); if i < k - 1 { assert(in_kids(s, v, k - 1, x)); } }
            if pre_seq(s, s[v][k - 1]).contains(x) { assert(0 <= k - 1 < k); assert(in_kids(s, v, k, x)); }
        }
    }
}
pub proof fn lemma_members(s: Succ, v: int)
    requires forest(s), s.dom().contains(v)
    ensures forall|x: int| #[trigger] pre_seq(s, v).contains(x) <==> x == v || in_kids(s, v, s[v].len() as int, x)
{ lemma_height(s); lemma_kids(s, v, s[v].len() as int); lemma_in_cat(seq![v], pre_kids(s, v, s[v].len() as int)); lemma_in_one(v); }
// heights inside a subtree, and membership of its vertices
pub proof fn lemma_low(s: Succ, v: int, x: int)
    requires forest(s), s.dom().contains(v), pre_seq(s, v).contains(x)
    ensures s.dom().contains(x), x != v ==> height(s)(x) < height(s)(v)
    decreases height(s)(v)
{
    lemma_height(s); lemma_members(s, v);
    if x != v { let i = choose|i: int| 0 <= i < s[v].len() && #[trigger] pre_seq(s, s[v][i]).contains(x); lemma_low(s, s[v][i], x); }
}
pub proof fn lemma_self(s: Succ, v: int) requires forest(s), s.dom().contains(v) ensures pre_seq(s, v).contains(v) { lemma_members(s, v); }
pub proof fn lemma_child(s: Succ, v: int, i: int) requires s.dom().contains(v), 0 <= i < s[v].len() ensures child(s, v, s[v][i]) {}
pub proof fn lemma_parent_in(s: Succ, v: int, x: int) -> (p: int)
    requires forest(s), s.dom().contains(v), pre_seq(s, v).contains(x), x != v
    ensures child(s, p, x), pre_seq(s, v).contains(p)
    decreases height(s)(v)
{
    lemma_height(s); lemma_members(s, v);
    let i = choose|i: int| 0 <= i < s[v].len() && #[trigger] pre_seq(s, s[v][i]).contains(x);
    let c = s[v][i];
    if x == c { lemma_child(s, v, i); v } else { let p = lemma_parent_in(s, c, x); assert(in_kids(s, v, s[v].len() as int, p)); p }
}
pub proof fn lemma_kid_in(s: Succ, v: int, p: int, c: int)
    requires forest(s), s.dom().contains(v), pre_seq(s, v).contains(p), child(s, p, c)
    ensures pre_seq(s, v).contains(c), c != v
    decreases height(s)(v)
{
    lemma_height(s); lemma_members(s, v); lemma_low(s, v, p);
    let j = choose|j: int| 0 <= j < s[p].len() && s[p][j] == c; assert(height(s)(s[p][j]) < height(s)(p));
    if p == v { lemma_self(s, c); assert(pre_seq(s, s[v][j]).contains(c)); assert(in_kids(s, v, s[v].len() as int, c)); }
    else { let i = choose|i: int| 0 <= i < s[v].len() && #[trigger] pre_seq(s, s[v][i]).contains(p); lemma_kid_in(s, s[v][i], p, c); assert(in_kids(s, v, s[v].len() as int, c)); }
}
pub proof fn lemma_disjoint(s: Succ, v: int, i: int, j: int, x: int)
    requires forest(s), s.dom().contains(v), 0 <= i < s[v].len(), 0 <= j < s[v].len(), i != j, pre_seq(s, s[v][i]).contains(x)
    ensures !pre_seq(s, s[v][j]).contains(x)
    decreases height(s)(v) - height(s)(x)
{
    lemma_height(s);
    let (a, b) = (s[v][i], s[v][j]);
    lemma_child(s, v, i); lemma_child(s, v, j); lemma_low(s, a, x); assert(a != b); assert(height(s)(a) < height(s)(v)); assert(height(s)(b) < height(s)(v));
    if pre_seq(s, b).contains(x) {
        if x == a { let p = lemma_parent_in(s, b, x); assert(p == v); lemma_low(s, b, v); }
        else if x == b { let p = lemma_parent_in(s, a, x); assert(p == v); lemma_low(s, a, v); }
        else {
            let p = lemma_parent_in(s, a, x); let q = lemma_parent_in(s, b, x); assert(p == q);
            lemma_low(s, a, p); let k = choose|k: int| 0 <= k < s[p].len() && s[p][k] == x; assert(height(s)(s[p][k]) < height(s)(p));
            lemma_disjoint(s, v, i, j, p);
        }
    }
}
pub proof fn lemma_kids_nodup(s: Succ, v: int, k: int)
    requires forest(s), s.dom().contains(v), 0 <= k <= s[v].len()
    ensures pre_kids(s, v, k).no_duplicates(), !pre_kids(s, v, k).contains(v)
    decreases height(s)(v), k
{
    lemma_height(s); lemma_kids(s, v, k);
    if in_kids(s, v, k, v) { let i = choose|i: int| 0 <= i < k && #[trigger] pre_seq(s, s[v][i]).contains(v); lemma_low(s, s[v][i], v); assert(height(s)(s[v][i]) < height(s)(v)); }
    if k > 0 {
        lemma_kids_nodup(s, v, k - 1); lemma_kids(s, v, k - 1); lemma_nodup(s, s[v][k - 1]);
        assert forall|x: int| #[trigger] pre_kids(s, v, k - 1).contains(x) implies !pre_seq(s, s[v][k - 1]).contains(x) by {
            assert(in_kids(s, v, k - 1, x)); let i = choose|i: int| 0 <= i < k - 1 && #[trigger] pre_seq(s, s[v][i]).contains(x); lemma_disjoint(s, v, i, k - 1, x); }
        lemma_nodup_cat(pre_kids(s, v, k - 1), pre_seq(s, s[v][k - 1]));
    }
}
pub proof fn lemma_nodup(s: Succ, v: int) requires forest(s), s.dom().contains(v) ensures pre_seq(s, v).no_duplicates() decreases height(s)(v), s[v].len() + 1
{ lemma_height(s); lemma_kids_nodup(s, v, s[v].len() as int); lemma_in_one(v); assert forall|x: int| #[trigger] seq![v].contains(x) implies !pre_kids(s, v, s[v].len() as int).contains(x) by {} lemma_nodup_cat(seq![v], pre_kids(s, v, s[v].len() as int)); }
// postorder has the same members
pub proof fn lemma_post_kids(s: Succ, v: int, k: int)
    requires forest(s), s.dom().contains(v), 0 <= k <= s[v].len()
    ensures forall|x: int| #[trigger] post_kids(s, v, k).contains(x) <==> pre_kids(s, v, k).contains(x), post_kids(s, v, k).no_duplicates(), post_kids(s, v, k).len() == pre_kids(s, v, k).len()
    decreases height(s)(v), k
{
    lemma_height(s);
    if k > 0 {
        let c = s[v][k - 1];
        lemma_post_kids(s, v, k - 1); lemma_post(s, c); lemma_kids_nodup(s, v, k);
        lemma_in_cat(post_kids(s, v, k - 1), post_seq(s, c)); lemma_in_cat(pre_kids(s, v, k - 1), pre_seq(s, c));
        lemma_kids(s, v, k - 1);
        assert forall|x: int| #[trigger] post_kids(s, v, k - 1).contains(x) implies !post_seq(s, c).contains(x) by {
            assert(in_kids(s, v, k - 1, x)); let i = choose|i: int| 0 <= i < k - 1 && #[trigger] pre_seq(s, s[v][i]).contains(x); lemma_disjoint(s, v, i, k - 1, x); }
        lemma_nodup_cat(post_kids(s, v, k - 1), post_seq(s, c));
    }
}
pub proof fn lemma_post(s: Succ, v: int)
    requires forest(s), s.dom().contains(v)
    ensures forall|x: int| #[trigger] post_seq(s, v).contains(x) <==> pre_seq(s, v).contains(x), post_seq(s, v).no_duplicates(), post_seq(s, v).len() == pre_seq(s, v).len()
    decreases height(s)(v), s[v].len() + 1
{
    lemma_height(s); let k = s[v].len() as int; lemma_post_kids(s, v, k); lemma_kids_nodup(s, v, k);
    let a = post_kids(s, v, k); assert(a.push(v) =~= a + seq![v]); lemma_in_cat(a, seq![v]); lemma_in_one(v); lemma_in_cat(seq![v], pre_kids(s, v, k));
    assert forall|x: int| #[trigger] a.contains(x) implies !seq![v].contains(x) by {}
    assert(seq![v].no_duplicates()); lemma_nodup_cat(a, seq![v]);
}
// membership in a subtree is reachability
pub proof fn lemma_reach_in(s: Succ, v: int, p: Seq<int>)
    requires forest(s), tpath(s, p), p[0] == v
    ensures forall|i: int| 0 <= i < p.len() ==> pre_seq(s, v).contains(#[trigger] p[i])
    decreases p.len()
{
    lemma_self(s, v);
    if p.len() > 1 {
        let q = p.drop_last(); assert(tpath(s, q)) by { assert forall|i: int| 0 <= i < q.len() - 1 implies child(s, #[trigger] q[i], q[i + 1]) by { assert(q[i] == p[i]); } }
        lemma_reach_in(s, v, q);
        assert forall|i: int| 0 <= i < p.len() implies pre_seq(s, v).contains(#[trigger] p[i]) by { if i < q.len() { assert(q[i] == p[i]); } else { let j = p.len() - 2; assert(q[j] == p[j]); assert(child(s, p[j], p[j + 1])); lemma_kid_in(s, v, p[j], p[j + 1]); } }
    }
}
pub proof fn lemma_in_reach(s: Succ, v: int, x: int) -> (p: Seq<int>)
    requires forest(s), s.dom().contains(v), pre_seq(s, v).contains(x)
    ensures path_to(s, p, v, x)
    decreases height(s)(v)
{
    lemma_height(s); lemma_members(s, v);
    if x == v { seq![v] } else {
        let i = choose|i: int| 0 <= i < s[v].len() && #[trigger] pre_seq(s, s[v][i]).contains(x); let c = s[v][i];
        let q = lemma_in_reach(s, c, x); let p = seq![v] + q; lemma_child(s, v, i);
        assert(tpath(s, p)) by { assert forall|i: int| 0 <= i < p.len() - 1 implies child(s, #[trigger] p[i], p[i + 1]) by { if i > 0 { assert(p[i] == q[i - 1]); assert(p[i + 1] == q[i]); assert(child(s, q[i - 1], q[i - 1 + 1])); } else { assert(p[1] == q[0]); } } }
        p
    }
}
pub proof fn lemma_on_path1(s: Succ, r: int, a: int, d: int)
    requires forest(s), on_path(s, r, a, d)
    ensures pre_seq(s, a).contains(d)
{
    reveal(on_path); let p = choose|p: Seq<int>| #[trigger] path_to(s, p, r, d) && p.contains(a);
    let i = choose|i: int| 0 <= i < p.len() && p[i] == a; let q = p.subrange(i, p.len() as int);
    if i > 0 { assert(child(s, p[i - 1], p[i - 1 + 1])); lemma_height(s); let w = s[p[i - 1]]; let j = choose|j: int| 0 <= j < w.len() && w[j] == a; assert(s.dom().contains(s[p[i - 1]][j])); }
    assert(tpath(s, q)) by { assert forall|k: int| 0 <= k < q.len() - 1 implies child(s, #[trigger] q[k], q[k + 1]) by { assert(q[k] == p[i + k]); assert(q[k + 1] == p[i + k + 1]); assert(child(s, p[i + k], p[i + k + 1])); } }
    lemma_reach_in(s, a, q); assert(q[q.len() - 1] == d);
}
pub proof fn lemma_on_path2(s: Succ, r: int, a: int, d: int)
    requires forest(s), reach(s, r, a), s.dom().contains(a), pre_seq(s, a).contains(d)
    ensures on_path(s, r, a, d)
{
    let p = lemma_reach_get(s, r, a); let q = lemma_in_reach(s, a, d);
    let t = p + q.subrange(1, q.len() as int); lemma_path_cat(s, p, q);
    reveal(on_path); assert(path_to(s, t, r, d)); assert(t[p.len() - 1] == a); assert(t.contains(a));
}
pub proof fn lemma_on_path(s: Succ, r: int, a: int, d: int)
    requires rooted_tree(s, r), s.dom().contains(a), s.dom().contains(d)
    ensures on_path(s, r, a, d) <==> pre_seq(s, a).contains(d)
{
    if on_path(s, r, a, d) { lemma_on_path1(s, r, a, d); }
    if pre_seq(s, a).contains(d) { assert(reach(s, r, a)); lemma_on_path2(s, r, a, d); }
}
// positions: the numbers of a subtree decide ancestry.  i/j are positions of a and d in the preorder, k/l in the postorder
pub open spec fn at(q: Seq<int>, i: int, x: int) -> bool { 0 <= i < q.len() && q[i] == x }
pub proof fn lemma_numbers_kids(s: Succ, v: int, n: int, a: int, d: int, i: int, j: int, k: int, l: int)
    requires forest(s), s.dom().contains(v), 0 <= n <= s[v].len(), at(pre_kids(s, v, n), i, a), at(pre_kids(s, v, n), j, d), at(post_kids(s, v, n), k, a), at(post_kids(s, v, n), l, d)
    ensures (i <= j && k >= l) <==> pre_seq(s, a).contains(d)
    decreases height(s)(v), n
{
    lemma_height(s);
    if n > 0 {
        let c = s[v][n - 1]; let (f, g) = (pre_kids(s, v, n - 1), post_kids(s, v, n - 1)); let (x, y) = (pre_seq(s, c), post_seq(s, c));
        lemma_post_kids(s, v, n - 1); lemma_post(s, c); lemma_kids(s, v, n - 1);
        assert forall|z: int| #[trigger] f.contains(z) implies !x.contains(z) by { assert(in_kids(s, v, n - 1, z)); let w = choose|w: int| 0 <= w < n - 1 && #[trigger] pre_seq(s, s[v][w]).contains(z); lemma_disjoint(s, v, w, n - 1, z); }
        if i < f.len() { assert(f[i] == a); assert(f.contains(a)); } else { assert(x[i - f.len()] == a); assert(x.contains(a)); }
        if j < f.len() { assert(f[j] == d); assert(f.contains(d)); } else { assert(x[j - f.len()] == d); assert(x.contains(d)); }
        if k < g.len() { assert(g[k] == a); assert(g.contains(a)); } else { assert(y[k - g.len()] == a); assert(y.contains(a)); }
        if l < g.len() { assert(g[l] == d); assert(g.contains(d)); } else { assert(y[l - g.len()] == d); assert(y.contains(d)); }
        if i < f.len() && j < f.len() { lemma_numbers_kids(s, v, n - 1, a, d, i, j, k, l); }
        else if i >= f.len() && j >= f.len() { lemma_numbers(s, c, a, d, i - f.len(), j - f.len(), k - g.len(), l - g.len()); }
        else if i < f.len() {
            let w = choose|w: int| 0 <= w < n - 1 && #[trigger] pre_seq(s, s[v][w]).contains(a);
            if pre_seq(s, a).contains(d) { lemma_trans(s, s[v][w], a, d); lemma_disjoint(s, v, w, n - 1, d); }
        } else {
            if pre_seq(s, a).contains(d) { lemma_trans(s, c, a, d); }
        }
    }
}
pub proof fn lemma_trans(s: Succ, v: int, a: int, d: int)
    requires forest(s), s.dom().contains(v), pre_seq(s, v).contains(a), pre_seq(s, a).contains(d)
    ensures pre_seq(s, v).contains(d)
{
    lemma_low(s, v, a); let p = lemma_in_reach(s, v, a); let q = lemma_in_reach(s, a, d); let t = p + q.subrange(1, q.len() as int); lemma_path_cat(s, p, q);
    lemma_reach_in(s, v, t); assert(t[t.len() - 1] == d);
}
pub proof fn lemma_numbers(s: Succ, v: int, a: int, d: int, i: int, j: int, k: int, l: int)
    requires forest(s), s.dom().contains(v), at(pre_seq(s, v), i, a), at(pre_seq(s, v), j, d), at(post_seq(s, v), k, a), at(post_seq(s, v), l, d)
    ensures (i <= j && k >= l) <==> pre_seq(s, a).contains(d)
    decreases height(s)(v), s[v].len() + 1
{
    lemma_height(s); let n = s[v].len() as int; let (f, g) = (pre_kids(s, v, n), post_kids(s, v, n)); lemma_post_kids(s, v, n); lemma_kids_nodup(s, v, n); lemma_members(s, v);
    if i > 0 { assert(f[i - 1] == a); assert(f.contains(a)); } if j > 0 { assert(f[j - 1] == d); assert(f.contains(d)); }
    if k < g.len() { assert(g[k] == a); assert(g.contains(a)); } if l < g.len() { assert(g[l] == d); assert(g.contains(d)); }
    if a == v { assert(i == 0 && k == g.len()); assert(pre_seq(s, v)[j] == d); }
    else if d == v { assert(j == 0 && l == g.len()); assert(pre_seq(s, v).contains(a)) by { assert(pre_seq(s, v)[i] == a); } lemma_low(s, v, a); if pre_seq(s, a).contains(v) { lemma_low(s, a, v); } }
    else { lemma_numbers_kids(s, v, n, a, d, i - 1, j - 1, k, l); }
}
// a subtree occupies a contiguous part, headed (preorder) or closed (postorder) by its vertex
pub open spec fn block(q: Seq<int>, b: Seq<int>) -> bool { exists|i: int| 0 <= i && i + b.len() <= q.len() && #[trigger] q.subrange(i, i + b.len()) == b }
pub proof fn lemma_block_cat(q: Seq<int>, a: Seq<int>, c: Seq<int>, b: Seq<int>) requires block(q, b) ensures block(a + q + c, b)
{ let i = choose|i: int| 0 <= i && i + b.len() <= q.len() && #[trigger] q.subrange(i, i + b.len()) == b; assert((a + q + c).subrange(a.len() + i, a.len() + i + b.len()) =~= q.subrange(i, i + b.len())); }
pub proof fn lemma_blocks_kids(s: Succ, v: int, k: int, x: int)
    requires forest(s), s.dom().contains(v), 0 <= k <= s[v].len(), pre_kids(s, v, k).contains(x)
    ensures block(pre_kids(s, v, k), pre_seq(s, x)), block(post_kids(s, v, k), post_seq(s, x))
    decreases height(s)(v), k
{
    lemma_height(s);
    if k > 0 {
        let c = s[v][k - 1]; let (f, g) = (pre_kids(s, v, k - 1), post_kids(s, v, k - 1)); lemma_in_cat(f, pre_seq(s, c)); let e = Seq::<int>::empty();
        if f.contains(x) { lemma_blocks_kids(s, v, k - 1, x); lemma_block_cat(f, e, pre_seq(s, c), pre_seq(s, x)); lemma_block_cat(g, e, post_seq(s, c), post_seq(s, x)); assert(e + f + pre_seq(s, c) =~= f + pre_seq(s, c)); assert(e + g + post_seq(s, c) =~= g + post_seq(s, c)); }
        else { lemma_blocks(s, c, x); lemma_block_cat(pre_seq(s, c), f, e, pre_seq(s, x)); lemma_block_cat(post_seq(s, c), g, e, post_seq(s, x)); assert(f + pre_seq(s, c) + e =~= f + pre_seq(s, c)); assert(g + post_seq(s, c) + e =~= g + post_seq(s, c)); }
    }
}
pub proof fn lemma_blocks(s: Succ, v: int, x: int)
    requires forest(s), s.dom().contains(v), pre_seq(s, v).contains(x)
    ensures block(pre_seq(s, v), pre_seq(s, x)), block(post_seq(s, v), post_seq(s, x)), pre_seq(s, x)[0] == x, post_seq(s, x).last() == x
    decreases height(s)(v), s[v].len() + 1
{
    lemma_height(s); lemma_low(s, v, x); let n = s[v].len() as int; let (f, g) = (pre_kids(s, v, n), post_kids(s, v, n)); let e = Seq::<int>::empty();
    if x == v { assert(pre_seq(s, v).subrange(0, 0int + pre_seq(s, v).len()) =~= pre_seq(s, v)); assert(post_seq(s, v).subrange(0, 0int + post_seq(s, v).len()) =~= post_seq(s, v)); }
    else {
        lemma_in_cat(seq![v], f); lemma_in_one(v); lemma_blocks_kids(s, v, n, x);
        lemma_block_cat(f, seq![v], e, pre_seq(s, x)); assert(seq![v] + f + e =~= pre_seq(s, v)); lemma_block_cat(g, e, seq![v], post_seq(s, x)); assert(e + g + seq![v] =~= post_seq(s, v));
    }
}

// ---------- node attributes
pub open spec fn num_of(n: Map<int, Map<int, int>>, k: int, v: int) -> int { n[v][k] }
pub open spec fn has_num(n: Map<int, Map<int, int>>, k: int, v: int) -> bool { n.dom().contains(v) && n[v].dom().contains(k) }
// numbers under key k are the positions in q, shifted by o
pub open spec fn numbers(n: Map<int, Map<int, int>>, k: int, q: Seq<int>, o: int) -> bool { forall|i: int| 0 <= i < q.len() ==> has_num(n, k, #[trigger] q[i]) && n[q[i]][k] == o + i }
pub open spec fn only_key(a: Map<int, Map<int, int>>, b: Map<int, Map<int, int>>, k: int) -> bool { a.dom() =~= b.dom() && forall|v: int| #[trigger] a.dom().contains(v) ==> b[v].remove(k) =~= a[v].remove(k) }
pub open spec fn only_at(a: Map<int, Map<int, int>>, b: Map<int, Map<int, int>>, q: Seq<int>) -> bool { forall|v: int| #[trigger] a.dom().contains(v) && !q.contains(v) ==> b[v] == a[v] }
pub open spec fn set_all(n: Map<int, Map<int, int>>, k: int, x: int) -> Map<int, Map<int, int>> { Map::new(n.dom(), |v: int| n[v].insert(k, x)) }
pub open spec fn same_nodes(n: Map<int, Map<int, int>>, s: Succ) -> bool { forall|v: int| n.dom().contains(v) <==> #[trigger] s.dom().contains(v) }
#[verifier::opaque]
pub open spec fn numbered(t: Tree, r: int) -> bool {
    &&& rooted_tree(t.succ, r) &&& same_nodes(t.nodes, t.succ)
    &&& numbers(t.nodes, ''' + PRE + r''', pre_seq(t.succ, r), 0) &&& numbers(t.nodes, ''' + POST + r''', post_seq(t.succ, r), 0) }
pub proof fn lemma_ancestor(t: Tree, r: int, a: int, d: int)
    requires numbered(t, r), t.succ.dom().contains(a), t.succ.dom().contains(d)
    ensures has_num(t.nodes, ''' + PRE + r''', a), has_num(t.nodes, ''' + POST + r''', a), has_num(t.nodes, ''' + PRE + r''', d), has_num(t.nodes, ''' + POST + r''', d),
        (t.nodes[a][''' + PRE + r'''] <= t.nodes[d][''' + PRE + r'''] && t.nodes[a][''' + POST + r'''] >= t.nodes[d][''' + POST + r''']) <==> on_path(t.succ, r, a, d)
{
    reveal(numbered); let s = t.succ; lemma_on_path(s, r, a, d); lemma_post(s, r); lemma_nodup(s, r);
    assert(reach(s, r, a)); let p = lemma_reach_get(s, r, a); lemma_reach_in(s, r, p); assert(p[p.len() - 1] == a);
    assert(reach(s, r, d)); let q = lemma_reach_get(s, r, d); lemma_reach_in(s, r, q); assert(q[q.len() - 1] == d);
    let (x, y) = (pre_seq(s, r), post_seq(s, r)); assert(y.contains(a) && y.contains(d));
    let i = choose|i: int| 0 <= i < x.len() && x[i] == a; let j = choose|j: int| 0 <= j < x.len() && x[j] == d;
    let k = choose|k: int| 0 <= k < y.len() && y[k] == a; let l = choose|l: int| 0 <= l < y.len() && y[l] == d;
    lemma_numbers(s, r, a, d, i, j, k, l);
}
'''
