"""Path extension of a tour."""
from ..run import Unit
from . import walk, c04
PRELUDE = c04.BASE + r'''
// ---- sections of a closed tour
pub open spec fn cycpos(x: int, len: int) -> int { if x < len { x } else { x - (len - 1) } }
pub open spec fn plen(len: int, s: int, e: int) -> int { if e >= s { e - s + 1 } else { len - s + e } }
pub open spec fn section(t: Seq<int>, s: int, e: int) -> Seq<int> { Seq::new(plen(t.len() as int, s, e) as nat, |i: int| t[cycpos(s + i, t.len() as int)]) }
pub open spec fn internal(w: Seq<int>, v: int) -> bool { exists|i: int| 0 < i < w.len() - 1 && #[trigger] w[i] == v }
// ---- neighbours
pub proof fn lemma_inc(g: Graph, u: int, k: int, i: int) requires 0 <= k <= g.es.len(), 0 <= i < inc_upto(g, u, k).len() ensures 0 <= inc_upto(g, u, k)[i] < k, g.es[inc_upto(g, u, k)[i]].0 == u || g.es[inc_upto(g, u, k)[i]].1 == u decreases k
{ if k > 0 { let p = inc_upto(g, u, k - 1); if i < p.len() { lemma_inc(g, u, k - 1, i); } } }
pub open spec fn nbr(g: Graph, u: int, v: int) -> bool { has_edge(g, u, v) && has_edge(g, v, u) && 0 <= v < g.n }
pub proof fn lemma_sym(g: Graph, u: int, v: int) requires has_edge(g, u, v) ensures has_edge(g, v, u) { let e = choose|e: int| #[trigger] joins(g, e, u, v); assert(joins(g, e, v, u)); }
pub proof fn lemma_adj(g: Graph, u: int, i: int) requires wf(g), 0 <= i < adj(g, u).len() ensures nbr(g, u, adj(g, u)[i])
{ lemma_inc(g, u, g.es.len() as int, i); let e = out_edge_seq(g, u)[i]; assert(joins(g, e, u, adj(g, u)[i])); assert(joins(g, e, adj(g, u)[i], u)); }
pub proof fn lemma_adjs(g: Graph, u: int) requires wf(g) ensures forall|i: int| 0 <= i < adj(g, u).len() ==> nbr(g, u, #[trigger] adj(g, u)[i])
{ assert forall|i: int| 0 <= i < adj(g, u).len() implies nbr(g, u, #[trigger] adj(g, u)[i]) by { lemma_adj(g, u, i); } }
// library fact: std::set_intersection only copies elements found in both ranges
#[verifier::external_body] pub proof fn axiom_merge_inter(a: Seq<int>, b: Seq<int>) ensures forall|i: int| 0 <= i < merge_inter(a, b).len() ==> a.contains(#[trigger] merge_inter(a, b)[i]) && b.contains(merge_inter(a, b)[i]) { }
pub proof fn lemma_sorted_in(s: Seq<int>, x: int) requires sorted_seq(s).contains(x) ensures s.contains(x)
{ axiom_sorted_seq(s); let a = sorted_seq(s); assert(a.to_multiset().contains(x)) by { a.to_multiset_ensures(); } s.to_multiset_ensures(); assert(s.to_multiset().contains(x)); }
pub proof fn lemma_common(g: Graph, u: int, v: int) requires wf(g) ensures forall|i: int| 0 <= i < merge_inter(sorted_seq(adj(g, u)), sorted_seq(adj(g, v))).len() ==> nbr(g, u, #[trigger] merge_inter(sorted_seq(adj(g, u)), sorted_seq(adj(g, v)))[i]) && nbr(g, v, merge_inter(sorted_seq(adj(g, u)), sorted_seq(adj(g, v)))[i])
{ let a = sorted_seq(adj(g, u)); let b = sorted_seq(adj(g, v)); axiom_merge_inter(a, b);
  assert forall|i: int| 0 <= i < merge_inter(a, b).len() implies nbr(g, u, #[trigger] merge_inter(a, b)[i]) && nbr(g, v, merge_inter(a, b)[i]) by { let x = merge_inter(a, b)[i]; lemma_sorted_in(adj(g, u), x); lemma_sorted_in(adj(g, v), x); let j = choose|j: int| 0 <= j < adj(g, u).len() && adj(g, u)[j] == x; lemma_adj(g, u, j); let l = choose|l: int| 0 <= l < adj(g, v).len() && adj(g, v)[l] == x; lemma_adj(g, v, l); } }
// ---- parent pointers: following p from v reaches src after exactly k steps
pub open spec fn up(p: Seq<int>, src: int, v: int, k: int) -> bool decreases k { 0 <= v < p.len() && k >= 0 && if k <= 0 { v == src } else { v != src && up(p, src, p[v], k - 1) } }
pub open spec fn rooted(p: Seq<int>, src: int, v: int) -> bool { p[src] == src && exists|k: int| 0 <= k <= p.len() && #[trigger] up(p, src, v, k) }
pub proof fn lemma_up_unique(p: Seq<int>, src: int, v: int, a: int, b: int) requires up(p, src, v, a), up(p, src, v, b) ensures a == b decreases a
{ if a > 0 && b > 0 { lemma_up_unique(p, src, p[v], a - 1, b - 1); } }
#[verifier::opaque] pub open spec fn climb(p: Seq<int>, src: int, w: Seq<int>, top: int) -> bool { &&& forall|j: int| 0 <= j < w.len() ==> up(p, src, #[trigger] w[j], top + j) &&& forall|j: int| 0 <= j < w.len() - 1 ==> #[trigger] w[j] == p[w[j + 1]] }
pub proof fn climb_start(p: Seq<int>, src: int, v: int, k: int) requires up(p, src, v, k) ensures climb(p, src, seq![v], k) { reveal(climb); }
pub proof fn climb_step(p: Seq<int>, src: int, w: Seq<int>, k: int) requires climb(p, src, w, k), w.len() > 0, k > 0 ensures climb(p, src, seq![p[w[0]]] + w, k - 1)
{ reveal(climb); let q = seq![p[w[0]]] + w; assert(up(p, src, w[0], k + 0)); assert forall|j: int| 0 <= j < q.len() implies up(p, src, #[trigger] q[j], k - 1 + j) by { if j > 0 { assert(up(p, src, w[j - 1], k + (j - 1))); } } assert forall|j: int| 0 <= j < q.len() - 1 implies #[trigger] q[j] == p[q[j + 1]] by { if j > 0 { assert(w[j - 1] == p[w[j - 1 + 1]]); } } }
pub proof fn climb_top(p: Seq<int>, src: int, w: Seq<int>, k: int) requires climb(p, src, w, k), w.len() > 0, k >= 0 ensures 0 <= w[0] < p.len(), k > 0 ==> w[0] != src && p[w[0]] != w[0], k == 0 ==> w[0] == src
{ reveal(climb); assert(up(p, src, w[0], k + 0)); if k > 0 && p[w[0]] == w[0] { lemma_up_unique(p, src, w[0], k, k - 1); } }
pub open spec fn up_path(p: Seq<int>, src: int, v: int, w: Seq<int>) -> bool { w.len() > 0 && w[0] == src && w.last() == v && w.no_duplicates() && (forall|j: int| 0 <= j < w.len() - 1 ==> #[trigger] w[j] == p[w[j + 1]]) && (forall|j: int| 0 <= j < w.len() ==> 0 <= #[trigger] w[j] < p.len()) }
pub proof fn climb_end(p: Seq<int>, src: int, v: int, w: Seq<int>) requires climb(p, src, w, 0), w.len() > 0, w.last() == v ensures up_path(p, src, v, w)
{ reveal(climb); assert(up(p, src, w[0], 0int + 0)); assert forall|a: int, b: int| 0 <= a < b < w.len() implies w[a] != w[b] by { if w[a] == w[b] { assert(up(p, src, w[a], 0 + a)); assert(up(p, src, w[b], 0 + b)); lemma_up_unique(p, src, w[a], a, b); } }
  assert forall|j: int| 0 <= j < w.len() implies 0 <= #[trigger] w[j] < p.len() by { assert(up(p, src, w[j], 0 + j)); } }
// ---- search trees: F is the set of vertices reached besides the source, d the order in which they were reached
#[verifier::opaque] pub open spec fn tree_d(g: Graph, src: int, f: Set<int>, p: Seq<int>, d: Seq<int>, c: int) -> bool {
    &&& p.len() == g.n && d.len() == g.n && 0 <= src < g.n && p[src] == src && d[src] == 0 && !f.contains(src) && c >= 0
    &&& forall|v: int| #[trigger] f.contains(v) ==> 0 <= v < g.n && 0 <= p[v] < g.n && has_edge(g, p[v], v) && 0 < d[v] && d[p[v]] < d[v] <= c && (p[v] == src || f.contains(p[v])) }
pub open spec fn tree(g: Graph, src: int, f: Set<int>, p: Seq<int>) -> bool { exists|d: Seq<int>| #[trigger] tree_d(g, src, f, p, d, g.n) }
pub proof fn lemma_up(g: Graph, src: int, f: Set<int>, p: Seq<int>, d: Seq<int>, c: int, v: int) -> (k: int) requires tree_d(g, src, f, p, d, c), v == src || f.contains(v) ensures 0 <= k <= d[v], up(p, src, v, k) decreases d[v]
{ reveal(tree_d); if v == src { 0 } else { if p[v] != src { assert(f.contains(p[v])); } let k = lemma_up(g, src, f, p, d, c, p[v]); k + 1 } }
pub proof fn lemma_rooted(g: Graph, src: int, f: Set<int>, p: Seq<int>, v: int) requires tree(g, src, f, p), f.contains(v) ensures rooted(p, src, v), 0 <= v < p.len(), 0 <= src < p.len()
{ let d = choose|d: Seq<int>| #[trigger] tree_d(g, src, f, p, d, g.n); let k = lemma_up(g, src, f, p, d, g.n, v); reveal(tree_d); assert(up(p, src, v, k)); }
// a path read off the parent pointers is a path of the graph whose vertices (but the first) were reached
pub open spec fn path_in(g: Graph, w: Seq<int>, f: Set<int>) -> bool { w.len() > 0 && w.no_duplicates() && is_walk(g, w, 0, w.len() as int) && (forall|j: int| 0 < j < w.len() ==> f.contains(#[trigger] w[j])) }
pub proof fn lemma_tree_path(g: Graph, src: int, f: Set<int>, p: Seq<int>, v: int, w: Seq<int>) requires tree(g, src, f, p), f.contains(v), up_path(p, src, v, w) ensures path_in(g, w, f)
{ let d = choose|d: Seq<int>| #[trigger] tree_d(g, src, f, p, d, g.n);
  assert forall|j: int| 0 < j < w.len() implies f.contains(#[trigger] w[j]) by { lemma_tree_member(g, src, f, p, d, v, w, j); }
  assert forall|i: int| 0 <= i < w.len() - 1 implies #[trigger] has_edge(g, w[i], w[i + 1]) by { reveal(tree_d); assert(f.contains(w[i + 1])); assert(w[i] == p[w[i + 1]]); } }
pub proof fn lemma_tree_member(g: Graph, src: int, f: Set<int>, p: Seq<int>, d: Seq<int>, v: int, w: Seq<int>, j: int) requires tree_d(g, src, f, p, d, g.n), f.contains(v), up_path(p, src, v, w), 0 < j < w.len() ensures f.contains(w[j]) decreases w.len() - j
{ reveal(tree_d); if j < w.len() - 1 { lemma_tree_member(g, src, f, p, d, v, w, j + 1); assert(w[j] == p[w[j + 1]]); assert(w[0] != w[j]); } }

#[verifier::opaque] pub open spec fn reach(m0: Seq<bool>, m: Seq<bool>, src: int, f: Set<int>) -> bool { m.len() == m0.len() && 0 <= src < m.len() && m[src] && (forall|v: int| #[trigger] f.contains(v) ==> 0 <= v < m.len() && m[v] && !m0[v] && v != src) && (forall|v: int| 0 <= v < m.len() && #[trigger] m[v] && !m0[v] && v != src ==> f.contains(v)) && (forall|v: int| 0 <= v < m.len() && #[trigger] m0[v] ==> m[v]) }
pub open spec fn searched(g: Graph, src: int, m0: Seq<bool>, m: Seq<bool>, p: Seq<int>) -> bool { exists|f: Set<int>| #[trigger] tree(g, src, f, p) && reach(m0, m, src, f) }
pub open spec fn qok(q: Seq<int>, src: int, f: Set<int>) -> bool { forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == src || f.contains(q[i]) }
pub proof fn bfs_start(g: Graph, src: int, m0: Seq<bool>, m: Seq<bool>, p: Seq<int>) requires m0.len() == g.n, p.len() == g.n, 0 <= src < g.n, m == m0.update(src, true), p[src] == src ensures tree_d(g, src, Set::<int>::empty(), p, Seq::new(g.n as nat, |i: int| 0int), 0), reach(m0, m, src, Set::<int>::empty()) { reveal(tree_d); reveal(reach); }
pub proof fn bfs_step(g: Graph, src: int, m0: Seq<bool>, m: Seq<bool>, p: Seq<int>, f: Set<int>, d: Seq<int>, c: int, u: int, v: int)
    requires tree_d(g, src, f, p, d, c), reach(m0, m, src, f), 0 <= v < m.len(), !m[v], has_edge(g, u, v), u == src || f.contains(u), m.len() == g.n
    ensures tree_d(g, src, f.insert(v), p.update(v, u), d.update(v, c + 1), c + 1), reach(m0, m.update(v, true), src, f.insert(v)), !f.contains(v)
{ reveal(tree_d); reveal(reach); let f2 = f.insert(v); let p2 = p.update(v, u); let d2 = d.update(v, c + 1);
  assert(v != src && !f.contains(v)); assert(m[u]); assert(u != v);
  assert forall|x: int| #[trigger] f2.contains(x) implies 0 <= x < g.n && 0 <= p2[x] < g.n && has_edge(g, p2[x], x) && 0 < d2[x] && d2[p2[x]] < d2[x] <= c + 1 && (p2[x] == src || f2.contains(p2[x])) by { if x != v { assert(f.contains(x)); assert(p[x] != v) by { if p[x] == v { assert(f.contains(v)); } } } } 
  assert forall|x: int| 0 <= x < m.len() && #[trigger] m.update(v, true)[x] && !m0[x] && x != src implies f2.contains(x) by { if x != v { assert(m[x]); } }
  assert forall|x: int| 0 <= x < m.len() && #[trigger] m0[x] implies m.update(v, true)[x] by { assert(m[x] || x == v); } }
pub proof fn bfs_len(g: Graph, src: int, f: Set<int>, p: Seq<int>, d: Seq<int>, c: int) requires tree_d(g, src, f, p, d, c) ensures f.len() <= g.n
{ reveal(tree_d); let all = vstd::set_lib::set_int_range(0, g.n); vstd::set_lib::lemma_int_range(0, g.n); assert forall|x: int| f.contains(x) implies all.contains(x) by { } vstd::set_lib::lemma_len_subset(f, all); }
pub proof fn bfs_end(g: Graph, src: int, m0: Seq<bool>, m: Seq<bool>, f: Set<int>, p: Seq<int>, d: Seq<int>, c: int) requires tree_d(g, src, f, p, d, c), reach(m0, m, src, f), c == f.len() ensures searched(g, src, m0, m, p)
{ bfs_len(g, src, f, p, d, c); assert(tree_d(g, src, f, p, d, g.n)) by { reveal(tree_d); } assert(tree(g, src, f, p)); }
// ---- candidates and chosen replacements for the section of i .. i + step
pub open spec fn psum(p: Map<int, int>, w: Seq<int>) -> int { prize_sum(p, w, 0, w.len() as int) }
pub open spec fn shape(g: Graph, t: Seq<int>, i: int, step: int, q: Seq<int>) -> bool { q.len() >= 2 && q[0] == t[i] && q.last() == t[cycpos(i + step, t.len() as int)] && is_walk(g, q, 0, q.len() as int) && q.no_duplicates() && forall|j: int| 0 < j < q.len() - 1 ==> !t.contains(#[trigger] q[j]) }
#[verifier::opaque] pub open spec fn ext_ok(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, q: Seq<int>) -> bool { i + step < t.len() && shape(g, t, i, step, q) && psum(p, q) > psum(p, t.subrange(i, i + step + 1)) }
pub open spec fn nonneg(g: Graph, p: Map<int, int>) -> bool { forall|v: int| 0 <= v < g.n ==> #[trigger] p[v] >= 0 }
// a candidate is a walk that either has the right shape and leaves the root alone or collects too little
#[verifier::opaque] pub open spec fn cand(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, sec: Seq<int>, q: Seq<int>) -> bool { is_walk(g, q, 0, q.len() as int) && ((i + step < t.len() && shape(g, t, i, step, q)) || psum(p, q) <= psum(p, sec)) }
pub open spec fn cands(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, sec: Seq<int>, qs: Seq<Seq<int>>) -> bool { forall|j: int| 0 <= j < qs.len() ==> cand(g, t, p, i, step, sec, #[trigger] qs[j]) }
pub open spec fn all_walks(g: Graph, qs: Seq<Seq<int>>) -> bool { forall|j: int| 0 <= j < qs.len() ==> is_walk(g, #[trigger] qs[j], 0, qs[j].len() as int) }
pub open spec fn found(g: Graph, t: Seq<int>, p: Map<int, int>, step: int, feas: Seq<bool>, qs: Seq<Seq<int>>, k: int) -> bool { forall|i: int| 0 <= i < k && #[trigger] feas[i] ==> ext_ok(g, t, p, i, step, qs[i]) }
// ---- splicing
pub open spec fn splice(t: Seq<int>, a: int, b: int, q: Seq<int>) -> Seq<int> { t.subrange(0, a) + q + t.subrange(b + 1, t.len() as int) }
pub proof fn lemma_psum_add(p: Map<int, int>, a: Seq<int>, b: Seq<int>) ensures psum(p, a + b) == psum(p, a) + psum(p, b) decreases b.len()
{ if b.len() == 0 { assert(a + b == a); } else { let c = b.drop_last(); lemma_psum_add(p, a, c); lemma_psum_push(p, a + c, b.last()); lemma_psum_push(p, c, b.last()); assert((a + c).push(b.last()) == a + b); assert(c.push(b.last()) == b); } }
pub proof fn lemma_psum_push(p: Map<int, int>, a: Seq<int>, x: int) ensures psum(p, a.push(x)) == psum(p, a) + p[x] { lemma_prize_shift(p, a.push(x), a, 0, 0, a.len() as int); assert(a.push(x)[0 + (a.len() + 1) - 1] == x); }
pub proof fn lemma_psum_nonneg(g: Graph, p: Map<int, int>, a: Seq<int>) requires nonneg(g, p), forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < g.n ensures psum(p, a) >= 0 decreases a.len()
{ if a.len() > 0 { let c = a.drop_last(); assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < g.n by { assert(c[i] == a[i]); } lemma_psum_nonneg(g, p, c); lemma_psum_push(p, c, a.last()); assert(c.push(a.last()) == a); assert(a.last() == a[a.len() - 1]); assert(p[a.last()] >= 0); } else { assert(psum(p, a) == 0); } }
'''
PRELUDE += r"""
pub proof fn lemma_psum_nn(p: Map<int, int>, a: Seq<int>) requires forall|i: int| 0 <= i < a.len() ==> p[#[trigger] a[i]] >= 0 ensures psum(p, a) >= 0 decreases a.len()
{ if a.len() > 0 { let c = a.drop_last(); assert forall|i: int| 0 <= i < c.len() implies p[#[trigger] c[i]] >= 0 by { assert(c[i] == a[i]); } lemma_psum_nn(p, c); lemma_psum_push(p, c, a.last()); assert(c.push(a.last()) == a); assert(p[a[a.len() - 1]] >= 0); } }
pub proof fn lemma_psum_one(p: Map<int, int>, x: int) ensures psum(p, seq![x]) == p[x] { reveal_with_fuel(prize_sum, 3); assert(seq![x][0 + (1 - 1)] == x); }
pub proof fn lemma_psum_three(p: Map<int, int>, x: int, y: int, z: int) ensures psum(p, seq![x, y, z]) == p[x] + p[y] + p[z]
{ lemma_psum_one(p, x); lemma_psum_push(p, seq![x], y); lemma_psum_push(p, seq![x].push(y), z); assert(seq![x].push(y).push(z) =~= seq![x, y, z]); }
// the two ends and one inner vertex are part of what a section collects
pub proof fn lemma_psum_inner(g: Graph, p: Map<int, int>, w: Seq<int>, m: int) requires nonneg(g, p), 0 < m < w.len() - 1, forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < g.n ensures psum(p, w) >= p[w[0]] + p[w[m]] + p[w.last()]
{ let a = w.subrange(1, m); let b = w.subrange(m + 1, w.len() - 1); let h = seq![w[0]]; let x = seq![w[m]]; let z = seq![w.last()];
  assert(h + (a + (x + (b + z))) =~= w); lemma_psum_add(p, h, a + (x + (b + z))); lemma_psum_add(p, a, x + (b + z)); lemma_psum_add(p, x, b + z); lemma_psum_add(p, b, z); lemma_psum_one(p, w[0]); lemma_psum_one(p, w[m]); lemma_psum_one(p, w.last());
  assert forall|i: int| 0 <= i < a.len() implies p[#[trigger] a[i]] >= 0 by { assert(0 <= w[i + 1] < g.n); } assert forall|i: int| 0 <= i < b.len() implies p[#[trigger] b[i]] >= 0 by { assert(0 <= w[m + 1 + i] < g.n); } lemma_psum_nn(p, a); lemma_psum_nn(p, b); }
pub proof fn lemma_mod(i: int, step: int, k: int) requires 0 <= i < k, 1 <= step < k ensures tmod(i + step, k) == (if i + step < k { i + step } else { i + step - k })
{ if i + step < k { assert((i + step) / k == 0) by (nonlinear_arith) requires 0 <= i + step < k; assert(k * 0 == 0); assert(tdiv(i + step, k) == 0); } else { assert((i + step) / k == 1) by (nonlinear_arith) requires k <= i + step < 2 * k; assert(k * 1 == k); assert(tdiv(i + step, k) == 1); } }
pub proof fn lemma_section(g: Graph, t: Seq<int>, i: int, step: int) requires wf(g), tour_ok(g, t), 1 <= step < t.len() - 1, 0 <= i < t.len() - 1
    ensures ({ let k = t.len() - 1; let j = tmod(i + step, k); let s = section(t, i, j); 0 <= j < k && j == (if i + step < k { i + step } else { i + step - k }) && s.len() == step + 1 && s[0] == t[i] && s.last() == t[j] && t[j] == t[cycpos(i + step, t.len() as int)] && t[i] != t[j] && is_walk(g, s, 0, s.len() as int) && (i + step <= k ==> s == t.subrange(i, i + step + 1)) && (i + step > k ==> internal(s, t[0])) && (forall|x: int| 0 <= x < s.len() ==> 0 <= #[trigger] s[x] < g.n) })
{ let k = t.len() - 1; lemma_mod(i, step, k); let j = tmod(i + step, k); let s = section(t, i, j); lemma_range(g, t); reveal(tour_ok); 
  assert(t.drop_last()[i] == t[i] && t.drop_last()[j] == t[j]); assert(t.last() == t[k]);
  if i + step <= k { assert(s =~= t.subrange(i, i + step + 1)); } else { assert(s[k - i] == t[k]); }
  assert forall|x: int| 0 <= x < s.len() - 1 implies #[trigger] has_edge(g, s[x], s[x + 1]) by { let a = cycpos(i + x, t.len() as int); if i + x == k { assert(has_edge(g, t[0], t[0 + 1int])); } else { assert(has_edge(g, t[a], t[a + 1])); } }
  assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] s[x] < g.n by { let a = cycpos(i + x, t.len() as int); assert(s[x] == t[a]); } }
pub proof fn lemma_cand_root(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, sec: Seq<int>) requires nonneg(g, p), sec.len() == step + 1, internal(sec, t[0]), has_edge(g, sec[0], t[0]), has_edge(g, t[0], sec.last()), forall|x: int| 0 <= x < sec.len() ==> 0 <= #[trigger] sec[x] < g.n ensures cand(g, t, p, i, step, sec, seq![sec[0], t[0], sec.last()]), is_walk(g, seq![sec[0], t[0], sec.last()], 0, 3)
{ let m = choose|m: int| 0 < m < sec.len() - 1 && #[trigger] sec[m] == t[0]; lemma_psum_inner(g, p, sec, m); lemma_psum_three(p, sec[0], t[0], sec.last()); reveal(cand); let q = seq![sec[0], t[0], sec.last()]; assert forall|x: int| 0 <= x < q.len() - 1 implies #[trigger] has_edge(g, q[x], q[x + 1]) by { if x == 0 { } else { assert(x == 1); } } }
pub proof fn lemma_cand_mid(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, sec: Seq<int>, a: int, u: int, b: int) requires i + step < t.len(), 0 <= i, step >= 1, a == t[i], b == t[i + step], a != b, !t.contains(u), nbr(g, a, u), nbr(g, b, u) ensures cand(g, t, p, i, step, sec, seq![a, u, b]), is_walk(g, seq![a, u, b], 0, 3)
{ reveal(cand); let q = seq![a, u, b]; assert(t.contains(t[i]) && t.contains(t[i + step])); assert forall|x: int| 0 <= x < q.len() - 1 implies #[trigger] has_edge(g, q[x], q[x + 1]) by { if x == 0 { } else { assert(x == 1); } } assert(q.no_duplicates()); }
pub proof fn lemma_cand_path(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, sec: Seq<int>, f: Set<int>, w: Seq<int>, b: int) requires i + step < t.len(), 0 <= i, step >= 1, w.len() >= 1, path_in(g, w, f), w[0] == t[i], b == t[i + step], w[0] != b, nbr(g, b, w.last()), f.contains(w.last()), forall|x: int| #[trigger] f.contains(x) ==> !t.contains(x) ensures cand(g, t, p, i, step, sec, w.push(b)), is_walk(g, w.push(b), 0, w.len() + 1int)
{ reveal(cand); let q = w.push(b); assert(t.contains(t[i + step])); 
  assert forall|x: int| 0 <= x < q.len() - 1 implies #[trigger] has_edge(g, q[x], q[x + 1]) by { if x < w.len() - 1 { assert(has_edge(g, w[x], w[x + 1])); } else { assert(q[x] == w.last()); } }
  assert forall|x: int, y: int| 0 <= x < y < q.len() implies q[x] != q[y] by { if y < w.len() { assert(w[x] != w[y]); } else if x > 0 { assert(f.contains(w[x])); } }
  assert forall|j: int| 0 < j < q.len() - 1 implies !t.contains(#[trigger] q[j]) by { assert(f.contains(w[j])); } }
pub proof fn lemma_found(g: Graph, t: Seq<int>, p: Map<int, int>, step: int, i: int, sec: Seq<int>, q: Seq<int>) requires cand(g, t, p, i, step, sec, q), psum(p, q) > psum(p, sec), i + step < t.len() ==> sec == t.subrange(i, i + step + 1) ensures ext_ok(g, t, p, i, step, q) { reveal(cand); reveal(ext_ok); }
// where an entry of the spliced tour comes from: a position of the old tour, or -1
pub open spec fn origin(t: Seq<int>, i: int, step: int, q: Seq<int>, x: int) -> int { if x < i { x } else if x == i { i } else if x < i + q.len() - 1 { -1 } else { x - (i + q.len() - 1) + i + step } }
pub proof fn lemma_splice(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, q: Seq<int>) requires wf(g), tour_ok(g, t), ext_ok(g, t, p, i, step, q), 0 <= i < t.len() - 1, 1 <= step < t.len() - 1
    ensures ({ let t2 = splice(t, i, i + step, q); tour_ok(g, t2) && t2[0] == t[0] && prize_sum(p, t2, 0, t2.len() - 1) >= prize_sum(p, t, 0, t.len() - 1) })
{ reveal(ext_ok); reveal(tour_ok); let k = t.len() - 1; let e = i + step; let t2 = splice(t, i, e, q); let a = t.subrange(0, i); let b = t.subrange(e + 1, t.len() as int); let d = t2.drop_last(); let s = t.drop_last();
  assert(cycpos(e, t.len() as int) == e); assert(t.last() == t[k]); assert(q.last() == q[q.len() - 1]);
  assert(t2.last() == t[k]) by { if e == k { assert(b.len() == 0); assert(t2 =~= a + q); } else { assert(t2[t2.len() - 1] == b[b.len() - 1]); } }
  assert forall|x: int| 0 <= x < t2.len() implies (origin(t, i, step, q, x) >= 0 ==> origin(t, i, step, q, x) <= k && #[trigger] t2[x] == t[origin(t, i, step, q, x)]) && (origin(t, i, step, q, x) < 0 ==> t2[x] == q[x - i] && i < x < i + q.len() - 1) by { if x >= i + q.len() - 1 { if x == i + q.len() - 1 { assert(t2[x] == q[q.len() - 1]); } else { assert(t2[x] == b[x - i - q.len()]); } } }
  assert forall|x: int, y: int| 0 <= x < y < d.len() implies d[x] != d[y] by { let ox = origin(t, i, step, q, x); let oy = origin(t, i, step, q, y); assert(d[x] == t2[x] && d[y] == t2[y]);
    if ox >= 0 && oy >= 0 { assert(oy < k); assert(ox < oy); assert(s[ox] == t[ox] && s[oy] == t[oy]); } else if ox < 0 && oy < 0 { assert(q[x - i] != q[y - i]); } else if ox < 0 { assert(!t.contains(q[x - i])); assert(t.contains(t[oy])); } else { assert(!t.contains(q[y - i])); assert(t.contains(t[ox])); } }
  assert forall|x: int| 0 <= x < t2.len() - 1 implies #[trigger] has_edge(g, t2[x], t2[x + 1]) by { if x < i { assert(has_edge(g, t[x], t[x + 1])); if x + 1 == i { assert(t2[x + 1] == q[0]); } } else if x < i + q.len() - 1 { assert(has_edge(g, q[x - i], q[x - i + 1])); assert(t2[x] == q[x - i] && t2[x + 1] == q[x - i + 1]); } else { let o = origin(t, i, step, q, x); assert(has_edge(g, t[o], t[o + 1])); assert(t2[x + 1] == b[x + 1 - i - q.len()]); } }
  let sec = t.subrange(i, e + 1); assert(a + (sec + b) =~= t); assert(a + (q + b) =~= t2); lemma_psum_add(p, a, sec + b); lemma_psum_add(p, sec, b); lemma_psum_add(p, a, q + b); lemma_psum_add(p, q, b);
  assert(t2[t2.len() - 1] == t[k]); assert(psum(p, t) == prize_sum(p, t, 0, k) + p[t[0 + (k + 1) - 1]]); assert(psum(p, t2) == prize_sum(p, t2, 0, t2.len() - 1) + p[t2[0 + t2.len() - 1]]); }
// cutting round the end of the tour and putting the root back gives the same tour as splicing
pub open spec fn rejoined(t: Seq<int>, first: int, last: int, q: Seq<int>) -> Seq<int> { let z = find_pos(q, 0, q.len() as int, t[0]); q.subrange(z, q.len() as int) + t.subrange(last + 1, first) + q.subrange(0, z + 1) }
pub proof fn lemma_rejoined(g: Graph, t: Seq<int>, p: Map<int, int>, i: int, step: int, q: Seq<int>) requires tour_ok(g, t), ext_ok(g, t, p, i, step, q), 0 < i < t.len() - 1, i + step == t.len() - 1 ensures rejoined(t, i, 0, q) == splice(t, i, i + step, q), q.contains(t[0])
{ reveal(ext_ok); reveal(tour_ok); let n = q.len() as int; assert(q[n - 1] == t[0]); lemma_find_pos(q, 0, n, t[0]); let z = find_pos(q, 0, n, t[0]); assert(z == n - 1) by { if z < n - 1 { assert(q[z] != q[n - 1]); } } assert(rejoined(t, i, 0, q) =~= splice(t, i, i + step, q)); }
"""
C = dict(c04.C)
C['getSubpathOfCycle'] = [dict(sig=['iter', 'iter', 'int', 'int'], params=['first', 'last', 's', 'e'],
    requires=['$first == 0', '$last == $rng.len()', '$rng.len() >= 2', '0 <= $s < $rng.len()', '0 <= $e < $rng.len()'],
    ensures=[('the section from one position to the other, going round the end', '$ret == section($rng, $s, $e)'), '$out(first) == $first && $out(last) == $last && $out(s) == $s && $out(e) == $e'],
    locals=[('cycle_length', 'int'), ('subpath_length', 'int'), ('subpath', 'Seq<int>'), ('current', 'iter'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $subpath_length', '$subpath_length == plen($rng.len() as int, $s, $e)', '$subpath.len() == $subpath_length', '$current == (if $s + $i <= $rng.len() { $s + $i } else { $s + $i - ($rng.len() - 1) })', 'forall|j: int| 0 <= j < $i ==> #[trigger] $subpath[j] == $rng[cycpos($s + j, $rng.len() as int)]'], dec='$subpath_length - $i')],
    hints={'loop1.after': 'proof { assert($subpath =~= section($rng, $s, $e)); }'})]
C['isInternalVertexOfWalk'] = [dict(params=['walk', 'v'], requires=['$walk.len() >= 2'], ensures=[('exactly when the vertex occurs strictly between the ends', '$ret == internal($walk, $v)'), '$out(walk) == $walk'],
    hints={'return': 'proof { lemma_find_pos($walk, 1, $walk.len() - 1, $v); }'})]
C['neighborIntersection'] = [dict(params=['g', 'u', 'v'], requires=['wf($g)'], ensures=[('only common neighbours', 'forall|i: int| 0 <= i < $ret.len() ==> nbr($g, $u, #[trigger] $ret[i]) && nbr($g, $v, $ret[i])'), '$out(g) == $g && $out(u) == $u && $out(v) == $v'],
    hints={'entry': 'proof { lemma_common($g, $u, $v); let a = adj($g, $u); let b = adj($g, $v); assert(a.subrange(0, a.len() as int) =~= a); assert(b.subrange(0, b.len() as int) =~= b); axiom_sorted_seq(a); axiom_sorted_seq(b); let sa = sorted_seq(a); let sb = sorted_seq(b); assert(sa.subrange(0, sa.len() as int) =~= sa); assert(sb.subrange(0, sb.len() as int) =~= sb); }'})]
C['breadthFirstSearch'] = [dict(params=['g', 'source', 'marked', 'parent', 'depth_limit'], requires=['wf($g)', '$marked.len() == $g.n', '$parent.len() == $g.n', '0 <= $source < $g.n'],
    ensures=[('the parents of the newly marked vertices form a tree of the graph below the source', 'searched($g, $source, $marked, $out(marked), $out(parent))'), '$out(g) == $g', '$out(parent).len() == $parent.len() && $out(marked).len() == $marked.len()'],
    locals=[('queue', 'Seq<int>'), ('depth', 'int'), ('this_level_counter', 'int'), ('next_level_counter', 'int'), ('u', 'int')],
    loops=[dict(kind='while', inv=['wf($g)', '$marked.len() == $g.n', '$parent.len() == $g.n', 'tree_d($g, $source, f, $parent, d, f.len() as int)', 'reach($in_marked, $marked, $source, f)', 'qok($queue, $source, f)', '0 <= $source < $g.n'], dec='$g.n - f.len() + $queue.len()'),
           dict(kind='range', inv=['wf($g)', '$marked.len() == $g.n', '$parent.len() == $g.n', 'tree_d($g, $source, f, $parent, d, f.len() as int)', 'reach($in_marked, $marked, $source, f)', 'qok($queue, $source, f)', '$u == $source || f.contains($u)', '$queue.len() - f.len() == gap'])],
    hints={'loop1.before': 'let ghost mut f: Set<int> = Set::<int>::empty(); let ghost mut d: Seq<int> = Seq::new($g.n as nat, |i: int| 0int); proof { bfs_start($g, $source, $in_marked, $marked, $parent); }',
           'loop1.body': 'proof { bfs_len($g, $source, f, $parent, d, f.len() as int); }',
           'loop2.before': 'let ghost gap = $queue.len() - f.len();',
           'loop2.body': 'let ghost m1 = $marked; let ghost p1 = $parent; let ghost nb = $seq[$it]; proof { lemma_adj($g, $u, $it as int); }',
           'loop2.end': 'proof { if $marked != m1 { bfs_step($g, $source, $in_marked, m1, p1, f, d, f.len() as int, $u, nb); d = d.update(nb, f.len() as int + 1); f = f.insert(nb); } }',
           'loop1.end': 'proof { bfs_len($g, $source, f, $parent, d, f.len() as int); }',
           'loop1.after': 'proof { bfs_end($g, $source, $in_marked, $marked, f, $parent, d, f.len() as int); }'})]
C['pathInTreeFromParents'] = [dict(params=['p', 'source', 'target'], requires=['rooted($p, $source, $target)', '0 <= $source < $p.len()'], ensures=[('the path from the source to the target along the parents', 'up_path($p, $source, $target, $ret)'), '$out(p) == $p && $out(source) == $source && $out(target) == $target'],
    locals=[('path', 'Seq<int>'), ('child', 'int'), ('parent', 'int'), ('i', 'int')],
    loops=[dict(kind='while', inv=['0 <= $source < $p.len()', '$p[$source] == $source', '0 <= k <= $p.len()', '0 <= $i <= k', 'climb($p, $source, $path, k - $i)', '$path.len() > 0', '$path.last() == $target', '$path[0] == $child', '0 <= $child < $p.len()', '$parent == $p[$child]'], dec='$p.len() + 1 - $i')],
    hints={'entry': 'let ghost k = choose|k: int| 0 <= k <= $p.len() && #[trigger] up($p, $source, $target, k); proof { climb_start($p, $source, $target, k); }',
           'loop1.body': 'proof { climb_top($p, $source, $path, k - $i); climb_step($p, $source, $path, k - $i); climb_top($p, $source, seq![$p[$path[0]]] + $path, k - $i - 1); }',
           'loop1.after': 'proof { climb_top($p, $source, $path, k - $i); climb_end($p, $source, $target, $path); }'})]
RES = [('a simple closed tour of the graph', 'tour_ok($g, $out(tour))'), ('starts and ends at the root', '$out(tour)[0] == $root && $out(tour).last() == $root'), ('collects at least as much', 'prize_sum($p, $out(tour), 0, $out(tour).len() - 1) >= prize_sum($p, $tour, 0, $tour.len() - 1)'), '$exc == 0']
INV = ['tour_ok($g, $tour)', '$tour[0] == $root', '$tour.len() >= 2', 'prize_sum($p, $tour, 0, $tour.len() - 1) >= prize_sum($p, $in_tour, 0, $in_tour.len() - 1)']
HINTS = {'entry': 'proof { lemma_range($g, $tour); lemma_tour_walk($g, $tour); }', 'loop1.body': 'let ghost t0 = $tour; let ghost ks = $tour.len() - 1; let ghost s0 = $step; proof { lemma_range($g, $tour); lemma_tour_walk($g, $tour); }',
    'decl:index_of_smallest_loss': 'proof { let b = $index_of_smallest_loss; if 0 <= b < ks && $is_feasible_extension[b] { let q = $extension_paths[b]; lemma_mod(b, $step, ks); lemma_splice($g, t0, $p, b, $step, q); reveal(ext_ok); if b + $step == ks { lemma_rejoined($g, t0, $p, b, $step, q); } let t2 = splice(t0, b, b + $step, q); lemma_range($g, t2); lemma_tour_walk($g, t2); } }',
    'loop1.after': 'proof { lemma_tour_walk($g, $tour); }'}
C['unitaryLoss'] = [dict(params=['a', 'b', 'c', 'd'], ensures=['$out(a) == $a && $out(b) == $b && $out(c) == $c && $out(d) == $d'])]
C['numFeasibleExtensions'] = [dict(params=['feas'], ensures=[('counts only feasible sections', '$ret > 0 ==> exists|i: int| 0 <= i < $feas.len() && #[trigger] $feas[i]'), '$out(feas) == $feas'], locals=[('num_feasible_extensions', 'int')],
    loops=[dict(kind='range', inv=['$num_feasible_extensions > 0 ==> exists|i: int| 0 <= i < $it && #[trigger] $feas[i]'])], hints={'loop1.body': 'let ghost b0 = $seq[$it];'})]
C['averageUnitaryLoss'] = [dict(params=['loss', 'feas'], requires=['$loss.len() == $feas.len()'], ensures=['$out(loss) == $loss && $out(feas) == $feas'], locals=[('total_loss', 'real'), ('i', 'int')], loops=[dict(kind='for', inv=['0 <= $i <= $loss.len()'], dec='$loss.len() - $i')])]
C['indexOfSmallestLoss'] = [dict(params=['loss', 'feas'], requires=['$loss.len() == $feas.len()'], ensures=[('a feasible section', '$ret >= 0 ==> $ret < $feas.len() && $feas[$ret]'), ('some section if one is feasible', 'forall|i: int| 0 <= i < $feas.len() && #[trigger] $feas[i] ==> $ret >= 0'), '$out(loss) == $loss && $out(feas) == $feas', '$ret >= -1'],
    locals=[('found_smallest_loss', 'bool'), ('smallest_loss', 'real'), ('index_of_smallest_loss', 'int'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $loss.len()', '$found_smallest_loss ==> 0 <= $index_of_smallest_loss < $i && $feas[$index_of_smallest_loss]', '!$found_smallest_loss ==> $index_of_smallest_loss == -1 && forall|j: int| 0 <= j < $i ==> !#[trigger] $feas[j]'], dec='$loss.len() - $i')])]
C['chooseExtensionPathFromCandidates'] = [dict(params=['g', 'c', 'p', 'qs', 'sec'], requires=['all_walks($g, $qs)', 'is_walk($g, $sec, 0, $sec.len() as int)'],
    ensures=[('a chosen candidate collects more than the section', '$ret.index >= 0 ==> $ret.index < $qs.len() && psum($p, $qs[$ret.index]) > psum($p, $sec)'), '$ret.index >= -1', '$exc == 0', '$out(g) == $g'],
    locals=[('best_candidate', 'ExtensionVertex'), ('current_index', 'int'), ('extension_found', 'bool')],
    loops=[dict(kind='range', inv=['$current_index == $it', '$extension_found ==> 0 <= $best_candidate.index < $it && psum($p, $qs[$best_candidate.index]) > psum($p, $sec)', '!$extension_found ==> $best_candidate.index == -1'])])]
C['swapPathsInTour'] = [dict(hints={'entry': 'proof { if $np.contains($tour[0]) { lemma_find_pos($np, 0, $np.len() as int, $tour[0]); let w = choose|w: int| 0 <= w < $np.len() && $np[w] == $tour[0]; } }'}, params=['tour', 'np', 'first', 'last'], requires=['0 <= $first < $tour.len()', '0 <= $last < $tour.len()', '$first != $last', '$first > $last ==> $np.contains($tour[0])'],
    ensures=[('the section is replaced', '$first < $last ==> $out(tour) == splice($tour, $first, $last, $np)'), ('a section round the end is replaced and the root put back at both ends', '$first > $last ==> $out(tour) == rejoined($tour, $first, $last, $np)'), ('arguments unchanged', '$out(np) == $np && $out(first) == $first && $out(last) == $last'), '$exc == 0'],
    locals=[('first_it', 'iter'), ('last_it', 'iter')],
    loops=[dict(kind='while', inv=['$first_it == $first', '$first <= $last_it <= $last', '$tour == $in_tour.subrange(0, $first) + $in_tour.subrange($first + ($last - $last_it), $in_tour.len() as int)'], dec='$last_it - $first_it'),
           dict(kind='while', inv=['$first_it_2 == $first', '$last_it_2 == $tour.len()', '$first <= $tour.len() <= $in_tour.len()', '$tour == $in_tour.subrange(0, $first) + $in_tour.subrange($in_tour.len() - ($tour.len() - $first), $in_tour.len() as int)'], dec='$tour.len() - $first'),
           dict(kind='while', inv=['$first_it_2 == 0', '0 <= $last_it_2 <= $last', '$tour == $in_tour.subrange($last - $last_it_2, $first)'], dec='$last_it_2')])]
C['findExtensionPaths'] = [dict(params=['g', 'tour', 'c', 'p', 'root', 'step', 'depth', 'loss', 'feas', 'paths'],
    requires=['wf($g)', 'tour_ok($g, $tour)', 'nonneg($g, $p)', '$tour[0] == $root', '1 <= $step < $tour.len() - 1', '$loss.len() == $tour.len() - 1', '$feas.len() == $tour.len() - 1', '$paths.len() == $tour.len() - 1'],
    ensures=[('a feasible section has a dearer replacement path with the same ends whose interior is outside the tour', 'found($g, $tour, $p, $step, $out(feas), $out(paths), $tour.len() - 1)'), '$exc == 0', ('inputs unchanged', '$out(g) == $g && $out(tour) == $tour && $out(root) == $root && $out(step) == $step && $out(depth) == $depth'), '$out(loss).len() == $loss.len() && $out(feas).len() == $feas.len() && $out(paths).len() == $paths.len()'],
    locals=[('k', 'int'), ('vertices_in_tour', 'Set<int>'), ('i', 'int'), ('j', 'int'), ('vi', 'int'), ('vj', 'int'), ('internal_path', 'Seq<int>'), ('external_path_candidates', 'Seq<Seq<int>>'), ('marked', 'Seq<bool>'), ('parent', 'Seq<int>'), ('best_candidate', 'ExtensionVertex')],
    loops=[dict(kind='for', inv=['0 <= $i <= $k', '$loss.len() == $k && $feas.len() == $k && $paths.len() == $k', 'found($g, $tour, $p, $step, $feas, $paths, $i)'], dec='$k - $i'),
           dict(kind='range', inv=['cands($g, $tour, $p, $i, $step, $internal_path, $external_path_candidates)', 'all_walks($g, $external_path_candidates)']),
           dict(kind='range', inv=['$marked.len() == $g.n', 'forall|x: int| 0 <= x < $it ==> #[trigger] $marked[$tour[x]]', 'forall|v: int| 0 <= v < $g.n && #[trigger] $marked[v] ==> $tour.contains(v)']) ,
           dict(kind='range', inv=['cands($g, $tour, $p, $i, $step, $internal_path, $external_path_candidates)', 'all_walks($g, $external_path_candidates)'])],
    hints={'entry': 'proof { lemma_range($g, $tour); assert(tour_set($tour, $tour.to_set())); lemma_tour_walk($g, $tour); assert($tour.subrange(0, $tour.len() as int) =~= $tour); }',
           'loop1.body': 'let ghost i0 = $i; proof { lemma_section($g, $tour, i0, $step); lemma_mod(i0, $step, $tour.len() - 1); }',
           'decl:external_path_candidates': 'proof { if has_edge($g, $vi, $root) && has_edge($g, $root, $vj) && internal($internal_path, $root) { lemma_cand_root($g, $tour, $p, i0, $step, $internal_path); } }',
           'loop2.body': 'let ghost u0 = $seq[$it]; proof { if !$tour.contains(u0) { lemma_cand_mid($g, $tour, $p, i0, $step, $internal_path, $vi, u0, $vj); } }',
           'loop4.before': 'let ghost f = choose|f: Set<int>| #[trigger] tree($g, $vi, f, $parent) && reach(m0, $marked, $vi, f); proof { reveal(reach); }',
           'loop3.after': 'let ghost m0 = $marked;',
           'loop4.body': 'let ghost nb = $seq[$it]; proof { lemma_adj($g, $vj, $it as int); if !$tour.contains(nb) && $marked[nb] { assert(f.contains(nb)); lemma_rooted($g, $vi, f, $parent, nb); } }',
           'decl:path_ij': 'proof { if up_path($parent, $vi, nb, $path_ij) && f.contains(nb) { lemma_tree_path($g, $vi, f, $parent, nb, $path_ij); lemma_cand_path($g, $tour, $p, i0, $step, $internal_path, f, $path_ij, $vj); } }',
           'decl:best_candidate': 'proof { let b = $best_candidate.index; if 0 <= b < $external_path_candidates.len() { let q = $external_path_candidates[b]; assert(q.subrange(0, q.len() as int) =~= q); lemma_found($g, $tour, $p, $step, i0, $internal_path, q); } }'})]
C['pathExtension'] = [dict(params=['g', 'tour', 'c', 'p', 'root', 'step', 'depth'], requires=['wf($g)', 'tour_ok($g, $tour)', 'nonneg($g, $p)', '$tour[0] == $root', '$step >= 1'], ensures=RES + [('graph and root unchanged', '$out(g) == $g && $out(root) == $root')],
    locals=[('i', 'int'), ('k', 'int'), ('unitary_loss', 'Seq<real>'), ('is_feasible_extension', 'Seq<bool>'), ('extension_paths', 'Seq<Seq<int>>'), ('index_of_smallest_loss', 'int'), ('external_path', 'Seq<int>')],
    loops=[dict(kind='while', inv=INV + ['0 <= $i <= $g.n'], dec='$g.n - $i')], hints=HINTS)]
C['pathExtensionUntilPrizeFeasible'] = [dict(params=['g', 'tour', 'c', 'p', 'root', 'quota', 'step', 'depth'], requires=['wf($g)', 'tour_ok($g, $tour)', 'nonneg($g, $p)', '$tour[0] == $root', '$step >= 1'], ensures=RES + [('graph and root unchanged', '$out(g) == $g && $out(root) == $root')],
    locals=[('i', 'int'), ('k', 'int'), ('unitary_loss', 'Seq<real>'), ('is_feasible_extension', 'Seq<bool>'), ('extension_paths', 'Seq<Seq<int>>'), ('index_of_smallest_loss', 'int'), ('external_path', 'Seq<int>')],
    loops=[dict(kind='while', inv=INV + ['0 <= $i <= $g.n + 1', '$go ==> $i <= $g.n', '$step >= 1', '$go ==> $step < $tour.len() - 1'], dec='2 * ($g.n + 1 - $i) + (if $go { 1int } else { 0int })')], hints=HINTS)]
C['extensionUnitaryLoss'] = [dict(params=['g', 'tour', 'c', 'p', 'root'], requires=['wf($g)', 'tour_ok($g, $tour)', 'nonneg($g, $p)', '$tour[0] == $root'], ensures=RES + [('graph and root unchanged', '$out(g) == $g && $out(root) == $root')])]
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
void use(PCTSPgraph& g, std::list<PCTSPvertex>& t, VertexPrizeMap& pm, EdgeCostMap& cm, int& q, PCTSPvertex& root, int& s, int& d) { pathExtension(g, t, cm, pm, root, 1, 2); pathExtensionUntilPrizeFeasible(g, t, cm, pm, root, q, s, d); extensionUnitaryLoss(g, t, cm, pm, root); }
#include "../src/heuristic.cpp"
'''
NAMES = ['getSubpathOfCycle', 'isInternalVertexOfWalk', 'neighborIntersection', 'breadthFirstSearch', 'pathInTreeFromParents']
EXT = ['unitaryLoss', 'numFeasibleExtensions', 'averageUnitaryLoss', 'indexOfSmallestLoss', 'chooseExtensionPathFromCandidates', 'swapPathsInTour', 'findExtensionPaths', 'pathExtension', 'pathExtensionUntilPrizeFeasible', 'extensionUnitaryLoss']
UNITS = [Unit('extend', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in EXT], prefetch=EXT), Unit('search', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in NAMES], prefetch=NAMES)]
RUNTIME = [dict(kind='cxx', driver='c05.cpp', procs=3, srcs=['heuristic.cpp', 'graph.cpp'], rule='random graphs up to 10 vertices with a random rooted tour of 2 to 7 vertices, step sizes up to 6, depth limits up to 6; non-trivial: a section of that size exists and the depth limit allows a replacement')]
ASSUMPTIONS = ['losses are computed over the reals (the code rounds to float); they only decide which valid replacement is taken', 'machine integers do not overflow', 'std::sort and std::set_intersection behave as documented']
