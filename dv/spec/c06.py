"""Collapse of a prize-feasible tour."""
from ..cxx import E, Call, S
from ..run import Unit
from . import c05
PRELUDE = c05.PRELUDE + r'''
// ---- cost and prize of concatenated and rotated tours
pub open spec fn wcost(g: Graph, c: Map<int, int>, w: Seq<int>) -> int { walk_cost(g, c, w, 0, wlen(0, w.len() as int)) }
pub open spec fn tprize(p: Map<int, int>, t: Seq<int>) -> int { prize_sum(p, t, 0, t.len() - 1) }
pub open spec fn nonneg_cost(g: Graph, c: Map<int, int>) -> bool { forall|e: int| 0 <= e < g.es.len() ==> #[trigger] c[e] >= 0 }
pub proof fn lemma_cost_shift(g: Graph, c: Map<int, int>, w: Seq<int>, v: Seq<int>, a: int, b: int, k: int) requires forall|i: int| a <= i <= a + k ==> #[trigger] w[i] == v[b + (i - a)] ensures walk_cost(g, c, w, a, k) == walk_cost(g, c, v, b, k) decreases k
{ if k > 0 { lemma_cost_shift(g, c, w, v, a, b, k - 1); assert(w[a + k - 1] == v[b + ((a + k - 1) - a)]); assert(w[a + k] == v[b + ((a + k) - a)]); } }
pub proof fn lemma_cost_split(g: Graph, c: Map<int, int>, w: Seq<int>, a: int, m: int, k: int) requires 0 <= m <= k ensures walk_cost(g, c, w, a, k) == walk_cost(g, c, w, a, m) + walk_cost(g, c, w, a + m, k - m) decreases k
{ if k > m { lemma_cost_split(g, c, w, a, m, k - 1); assert(a + m + (k - m) - 1 == a + k - 1); } }
pub proof fn lemma_rotation(g: Graph, c: Map<int, int>, p: Map<int, int>, t: Seq<int>, r: Seq<int>, at: int) requires wf(g), tour_ok(g, t), rotation(t, r, at), 0 <= at < t.len() - 1 ensures tour_ok(g, r), wcost(g, c, r) == wcost(g, c, t), tprize(p, r) == tprize(p, t)
{ reveal(tour_ok); let k = t.len() - 1; let d = t.drop_last(); let e = r.drop_last(); assert(t.last() == t[k]);
  assert(r[0] == t[at]); assert(r[k] == t[at + k - k]); assert(r.last() == r[k]);
  assert forall|x: int, y: int| 0 <= x < y < e.len() implies e[x] != e[y] by { assert(e[x] == r[x] && e[y] == r[y]); let a = if at + x <= k { at + x } else { at + x - k }; let b = if at + y <= k { at + y } else { at + y - k }; let a2 = if a == k { 0 } else { a }; let b2 = if b == k { 0 } else { b }; assert(r[x] == t[a2]); assert(r[y] == t[b2]); assert(d[a2] == t[a2] && d[b2] == t[b2]); }
  assert forall|x: int| 0 <= x < r.len() - 1 implies #[trigger] has_edge(g, r[x], r[x + 1]) by { let a = if at + x <= k { at + x } else { at + x - k }; let a2 = if a == k { 0 } else { a }; assert(r[x] == t[a2]); assert(r[x + 1] == t[a2 + 1]) by { if at + x + 1 <= k { } else { } } assert(has_edge(g, t[a2], t[a2 + 1])); }
  lemma_cost_split(g, c, t, 0, at, k); lemma_cost_split(g, c, r, 0, k - at, k);
  assert forall|i: int| 0 <= i <= 0 + (k - at) implies #[trigger] r[i] == t[at + (i - 0)] by { } lemma_cost_shift(g, c, r, t, 0, at, k - at);
  assert forall|i: int| k - at <= i <= k - at + at implies #[trigger] r[i] == t[0 + (i - (k - at))] by { if i == k - at { assert(r[i] == t[k]); } } lemma_cost_shift(g, c, r, t, k - at, 0, at);
  let x1 = t.subrange(0, at); let x2 = t.subrange(at, k); assert(x1 + x2 =~= d); assert(x2 + x1 =~= e) by { assert forall|i: int| 0 <= i < e.len() implies (x2 + x1)[i] == e[i] by { if i >= k - at { assert(r[i] == t[if at + i < t.len() { at + i } else { at + i - (t.len() - 1) }]); } } }
  lemma_psum_add(p, x1, x2); lemma_psum_add(p, x2, x1); lemma_prize_shift(p, t, d, 0, 0, k); lemma_prize_shift(p, r, e, 0, 0, k); }
// ---- a stretch of m vertices of the closed tour, starting at position s
pub open spec fn run(t: Seq<int>, s: int, m: int) -> Seq<int> { Seq::new(m as nat, |i: int| t[cycpos(s + i, t.len() as int)]) }
pub proof fn lemma_run(g: Graph, t: Seq<int>, s: int, m: int) requires wf(g), tour_ok(g, t), 0 <= s < t.len(), 1 <= m <= t.len() - 1 ensures ({ let w = run(t, s, m); w.len() == m && w.no_duplicates() && is_walk(g, w, 0, w.len() as int) && forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < g.n })
{ reveal(tour_ok); lemma_range(g, t); let w = run(t, s, m); let k = t.len() - 1; let d = t.drop_last(); assert(t.last() == t[k]);
  assert forall|x: int, y: int| 0 <= x < y < w.len() implies w[x] != w[y] by { let a = cycpos(s + x, t.len() as int); let b = cycpos(s + y, t.len() as int); let a2 = if a == k { 0 } else { a }; let b2 = if b == k { 0 } else { b }; assert(w[x] == t[a2] && w[y] == t[b2]); assert(d[a2] == t[a2] && d[b2] == t[b2]); }
  assert forall|x: int| 0 <= x < w.len() - 1 implies #[trigger] has_edge(g, w[x], w[x + 1]) by { let a = cycpos(s + x, t.len() as int); let a2 = if a == k { 0 } else { a }; assert(w[x] == t[a2]); assert(w[x + 1] == t[a2 + 1]); assert(has_edge(g, t[a2], t[a2 + 1])); } 
  assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] w[i] < g.n by { let a = cycpos(s + i, t.len() as int); assert(w[i] == t[a]); } }
pub open spec fn simple_path(g: Graph, w: Seq<int>) -> bool { w.len() >= 1 && w.no_duplicates() && is_walk(g, w, 0, w.len() as int) && forall|i: int| 0 <= i < w.len() ==> 0 <= #[trigger] w[i] < g.n }
// ---- a path that closes the stretch into a tour that meets the quota
#[verifier::opaque] pub open spec fn closes(g: Graph, p: Map<int, int>, w: Seq<int>, quota: int, q: Seq<int>) -> bool {
    &&& w.len() >= 2 && q.len() >= 2 && q[0] == w.last() && q.last() == w[0] && q.no_duplicates() && is_walk(g, q, 0, q.len() as int)
    &&& (forall|j: int| 0 < j < q.len() - 1 ==> !w.contains(#[trigger] q[j])) && psum(p, w) + psum(p, q) - p[q[0]] - p[q.last()] >= quota }
pub open spec fn all_close(g: Graph, p: Map<int, int>, w: Seq<int>, quota: int, qs: Seq<Seq<int>>) -> bool { forall|j: int| 0 <= j < qs.len() ==> closes(g, p, w, quota, #[trigger] qs[j]) && is_walk(g, qs[j], 0, qs[j].len() as int) }
pub proof fn lemma_close_mid(g: Graph, p: Map<int, int>, w: Seq<int>, quota: int, v: int) requires w.len() >= 1, w.last() != w[0], nbr(g, w.last(), v), has_edge(g, v, w[0]), !w.contains(v), psum(p, w) + p[v] >= quota ensures closes(g, p, w, quota, seq![w.last(), v, w[0]]), is_walk(g, seq![w.last(), v, w[0]], 0, 3)
{ reveal(closes); let q = seq![w.last(), v, w[0]]; lemma_psum_three(p, w.last(), v, w[0]); assert(w.contains(w[0])); assert(w.contains(w[w.len() - 1])); assert(w.len() >= 2) by { if w.len() == 1 { assert(w.last() == w[0]); } } assert(q.no_duplicates()); assert forall|x: int| 0 <= x < q.len() - 1 implies #[trigger] has_edge(g, q[x], q[x + 1]) by { if x == 0 { } else { assert(x == 1); } } }
pub proof fn lemma_close_path(g: Graph, p: Map<int, int>, w: Seq<int>, quota: int, q: Seq<int>, f: Set<int>) requires w.len() >= 2, simple_path(g, w), path_in(g, q, f), q[0] == w.last(), q.last() == w[0], psum(p, w) + psum(p, q) - p[w.last()] - p[w[0]] >= quota, forall|x: int| #[trigger] f.contains(x) ==> !w.contains(x) || x == w[0] ensures closes(g, p, w, quota, q), is_walk(g, q, 0, q.len() as int)
{ reveal(closes); assert(w[0] != w[w.len() - 1]); assert(q.len() >= 2) by { if q.len() == 1 { assert(q.last() == q[0]); } }
  assert forall|j: int| 0 < j < q.len() - 1 implies !w.contains(#[trigger] q[j]) by { assert(f.contains(q[j])); assert(q[j] != q[q.len() - 1]); } }
pub proof fn lemma_closed(g: Graph, c: Map<int, int>, p: Map<int, int>, w: Seq<int>, quota: int, q: Seq<int>) requires wf(g), simple_path(g, w), closes(g, p, w, quota, q) ensures ({ let z = w + q.subrange(1, q.len() as int); tour_ok(g, z) && tprize(p, z) >= quota && wcost(g, c, z) == wcost(g, c, w) + wcost(g, c, q) && forall|x: int| w.contains(x) ==> #[trigger] z.contains(x) })
{ reveal(closes); reveal(tour_ok); let y = q.subrange(1, q.len() as int); let z = w + y; let d = z.drop_last(); let n = w.len() as int; let m = q.len() as int; let mid = q.subrange(1, m - 1); let wl = w.last(); let ql = q.last(); assert(wl == w[n - 1] && ql == q[m - 1]);
  assert(z.last() == q[m - 1]); assert(z[0] == w[0]); assert(d =~= w + mid);
  assert forall|a: int, b: int| 0 <= a < b < d.len() implies d[a] != d[b] by { if b < n { assert(w[a] != w[b]); } else if a >= n { assert(q[a - n + 1] != q[b - n + 1]); } else { assert(!w.contains(q[b - n + 1])); assert(w.contains(w[a])); } }
  assert forall|x: int| 0 <= x < z.len() - 1 implies #[trigger] has_edge(g, z[x], z[x + 1]) by { if x < n - 1 { assert(has_edge(g, w[x], w[x + 1])); } else { assert(has_edge(g, q[x - n + 1], q[x - n + 1 + 1])); } }
  lemma_psum_add(p, w, mid); lemma_prize_shift(p, z, d, 0, 0, z.len() - 1); assert(q =~= (seq![q[0]] + mid).push(ql)); lemma_psum_add(p, seq![q[0]], mid); lemma_psum_one(p, q[0]); lemma_psum_push(p, seq![q[0]] + mid, ql);
  lemma_cost_split(g, c, z, 0, n - 1, z.len() - 1); assert forall|i: int| 0 <= i <= 0 + (n - 1) implies #[trigger] z[i] == w[0 + (i - 0)] by { } lemma_cost_shift(g, c, z, w, 0, 0, n - 1);
  assert forall|i: int| n - 1 <= i <= n - 1 + (m - 1) implies #[trigger] z[i] == q[0 + (i - (n - 1))] by { } lemma_cost_shift(g, c, z, q, n - 1, 0, m - 1);
  assert forall|x: int| w.contains(x) implies #[trigger] z.contains(x) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; assert(z[i] == x); } }
// ASSUMED boost::dijkstra_shortest_paths with the blacklisting visitor (dijkstraShortestPathBlacklist): when the target is found, the predecessors of the vertices reached form a tree of the graph below the source that contains the target and no blacklisted vertex
pub open spec fn avoids(f: Set<int>, mark: Seq<bool>) -> bool { forall|x: int| f.contains(x) ==> 0 <= x < mark.len() && !#[trigger] mark[x] }
pub open spec fn tree_avoiding(g: Graph, src: int, tgt: int, mark: Seq<bool>, p: Seq<int>) -> bool { exists|f: Set<int>| #[trigger] tree(g, src, f, p) && (tgt == src || f.contains(tgt)) && avoids(f, mark) }
#[verifier::external_body]
pub fn dijkstra_blacklist(Ghost(g): Ghost<Graph>, Ghost(src): Ghost<int>, Ghost(tgt): Ghost<int>, Ghost(p): Ghost<Seq<int>>, Ghost(d): Ghost<Seq<int>>, Ghost(c): Ghost<Map<int, int>>, Ghost(col): Ghost<Seq<int>>, Ghost(mark): Ghost<Seq<bool>>) -> (r: Ghost<(int, int, Seq<int>, Seq<int>, Seq<int>)>)
    requires wf(g), 0 <= src < g.n, 0 <= tgt < g.n, p.len() == g.n, d.len() == g.n, col.len() == g.n, mark.len() == g.n, nonneg_cost(g, c), !mark[src], !mark[tgt]
    ensures r@.0 == 0 || r@.0 == EXC_TargetVertexFound(), r@.2.len() == p.len(), r@.0 != 0 ==> r@.2[src] == src && tree_avoiding(g, src, tgt, mark, r@.2)
{ unimplemented!() }
'''
def h_dijkstra(self, args, n):
    vs = [self.expr(a) for a in args]
    r = self.fresh('r')
    self.emit(Call(r, 'dijkstra_blacklist', [v.s for v in vs]))
    for i, k in ((3, 2), (4, 3), (6, 4)): self.write(vs[i].lv, f'{r}@.{k}')
    save, self.cur = self.cur, []
    self.do_raise(f'{r}@.0')
    st = self.cur; self.cur = save
    for s in st:
        if s.k == 'set': s.definite = False
    self.emit(S('if', c=f'{r}@.0 != 0', a=st, b=[]))
    return E('0int', 'unit')
C = dict(c05.C)

def _h(self, args, n, *a): 
    return h_dijkstra(self, [x for x in args], n)
C['__calls__'] = {'dijkstraShortestPathBlacklist': _h}
C['getSubPathOverTour'] = [dict(params=['tour', 's', 'p', 'quota', 'root'], requires=['0 <= $s < $tour.len()', '$tour.len() >= 2'],
    ensures=[('a stretch of the tour from the given position', '1 <= $ret.path.len() <= $tour.len() - 1 && $ret.path == run($tour, $s, $ret.path.len() as int)'), ('its prize', '$ret.prize_of_path == psum($p, $ret.path)'), ('the root is marked as seen only when it is on the stretch', '$ret.root_vertex_seen ==> $ret.path.contains($root)'),
        ('a stretch that still needs another vertex', '$ret.feasible_path_found ==> $ret.prize_of_path < $quota'), ('tour unchanged', '$out(tour) == $tour')],
    locals=[('path_iterator', 'iter'), ('sub_path', 'SubPathOverTour'), ('length_of_tour', 'int'), ('length_of_path', 'int')],
    loops=[dict(kind='for', inv=['1 <= $length_of_path <= $tour.len() - 1', '$length_of_tour == $tour.len()', '$sub_path.path.len() == $length_of_path', '$sub_path.path == run($tour, $s, $length_of_path)', '$sub_path.prize_of_path == psum($p, $sub_path.path)', '$sub_path.root_vertex_seen ==> $sub_path.path.contains($root)',
        '$sub_path.feasible_path_found ==> $sub_path.prize_of_path < $quota', '!$brk ==> $path_iterator == (if $s + $length_of_path <= $tour.len() { $s + $length_of_path } else { $s + $length_of_path - ($tour.len() - 1) })', '$brk ==> $sub_path.feasible_path_found'], dec='$tour.len() - $length_of_path + (if $brk { 0int } else { 1int })')],
    hints={'loop1.before': 'proof { lemma_psum_one($p, $tour[$s]); assert($sub_path.path =~= run($tour, $s, 1)); assert($sub_path.path[0] == $tour[$s]); }',
           'loop1.body': 'let ghost w0 = $sub_path.path; let ghost l0 = $length_of_path;',
           'loop1.end': 'proof { let x = $tour[cycpos($s + l0, $tour.len() as int)]; lemma_psum_push($p, w0, x); let w1 = w0.push(x); assert(w1 =~= run($tour, $s, l0 + 1)); assert(w1.contains(x)) by { assert(w1[l0] == x); } assert forall|v: int| w0.contains(v) implies #[trigger] w1.contains(v) by { let i = choose|i: int| 0 <= i < w0.len() && w0[i] == v; assert(w1[i] == v); } }'})]
C['findCollapsePaths'] = [dict(params=['g', 'w', 'c', 'p', 'quota', 'sp'], requires=['wf($g)', 'simple_path($g, $w)', 'nonneg($g, $p)', 'nonneg_cost($g, $c)', '$quota > 0'],
    ensures=[('every path closes the stretch into a tour that meets the quota', 'all_close($g, $p, $w, $quota, $ret)'), '$exc == 0', ('inputs unchanged', '$out(g) == $g && $out(w) == $w')],
    locals=[('source', 'int'), ('target', 'int'), ('path_st', 'Seq<int>'), ('prize_of_internal_path', 'int'), ('collapse_paths', 'Seq<Seq<int>>'), ('n', 'int'), ('in_internal_path', 'Seq<bool>'), ('mark', 'Seq<bool>'), ('predecessor', 'Seq<int>')],
    loops=[dict(kind='range', inv=['$in_internal_path.len() == $g.n', 'forall|x: int| 0 <= x < $it ==> #[trigger] $in_internal_path[$w[x]]', 'forall|v: int| 0 <= v < $g.n && #[trigger] $in_internal_path[v] ==> $w.contains(v)']),
           dict(kind='range', inv=['all_close($g, $p, $w, $quota, $collapse_paths)'])],
    hints={'loop1.before': 'proof { assert($w[0] == $target && $w[$w.len() - 1] == $source); }', 'loop2.body': 'let ghost nb = $seq[$it]; proof { lemma_adj($g, $source, $it as int); if !$in_internal_path[nb] && has_edge($g, nb, $target) && $source != $target && $prize_of_internal_path + $p[nb] >= $quota { assert(!$w.contains(nb)); lemma_close_mid($g, $p, $w, $quota, nb); } }',
           'decl:mark': 'proof { if $w.len() == 1 { lemma_psum_one($p, $w[0]); assert($w =~= seq![$w[0]]); } }',
           'set:predecessor': 'proof { if tree_avoiding($g, $source, $target, $mark, $predecessor) && $predecessor[$source] == $source { let f = choose|f: Set<int>| #[trigger] tree($g, $source, f, $predecessor) && ($target == $source || f.contains($target)) && avoids(f, $mark); if $target != $source { lemma_rooted($g, $source, f, $predecessor, $target); } else { assert(up($predecessor, $source, $source, 0)); } } }',
           'decl:path_st': 'proof { if tree_avoiding($g, $source, $target, $mark, $predecessor) && up_path($predecessor, $source, $target, $path_st) { let f = choose|f: Set<int>| #[trigger] tree($g, $source, f, $predecessor) && ($target == $source || f.contains($target)) && avoids(f, $mark); if $target != $source { lemma_tree_path($g, $source, f, $predecessor, $target, $path_st); assert forall|x: int| #[trigger] f.contains(x) implies !$w.contains(x) || x == $w[0] by { assert(x != $source) by { let d = choose|d: Seq<int>| #[trigger] tree_d($g, $source, f, $predecessor, d, $g.n); reveal(tree_d); } if $w.contains(x) { let j = choose|j: int| 0 <= j < $w.len() && $w[j] == x; assert($in_internal_path[$w[j]]); assert(!$mark[x]); } } if $prize_of_internal_path + psum($p, $path_st) - $p[$source] - $p[$target] >= $quota { lemma_close_path($g, $p, $w, $quota, $path_st, f); } } else { assert($path_st.len() == 1) by { assert($path_st[0] == $path_st[$path_st.len() - 1]); } lemma_psum_one($p, $source); assert($path_st =~= seq![$source]); assert($w.len() == 1) by { assert($w[0] == $w[$w.len() - 1]); } } } }'})]
C['collapse'] = [dict(params=['g', 'tour', 'c', 'p', 'quota', 'root', 'sp'], requires=['wf($g)', 'tour_ok($g, $tour)', '$tour.contains($root)', 'nonneg($g, $p)', 'nonneg_cost($g, $c)', 'tprize($p, $tour) >= $quota'],
    ensures=[('a simple closed tour of the graph', 'tour_ok($g, $ret)'), ('starts and ends at the root', '$ret[0] == $root && $ret.last() == $root'), ('meets the quota', 'tprize($p, $ret) >= $quota'), ('costs no more than the input', 'wcost($g, $c, $ret) <= wcost($g, $c, $tour)'), ('input unchanged', '$out(tour) == $tour && $out(g) == $g'), '$exc == 0'],
    locals=[('cost_of_best_tour', 'int'), ('best_tour', 'Seq<int>'), ('first_vertex_iterator', 'riter'), ('index_of_first_vertex', 'int'), ('sub_path_over_tour', 'SubPathOverTour'), ('collapse_paths', 'Seq<Seq<int>>'), ('internal_cost', 'int'), ('best_index', 'int'), ('i', 'int'), ('external_path', 'Seq<int>'), ('external_it', 'iter')],
    loops=[dict(kind='for', inv=['0 <= $first_vertex_iterator <= $tour.len()', 'tour_ok($g, $best_tour)', '$best_tour.contains($root)', 'tprize($p, $best_tour) >= $quota', '$cost_of_best_tour == wcost($g, $c, $best_tour)', '$cost_of_best_tour <= wcost($g, $c, $tour)'], dec='$first_vertex_iterator'),
           dict(kind='range', inv=['$i == $it', '-1 <= $best_index < $i', '$best_index == -1 ==> $cost_of_best_tour == wcost($g, $c, $best_tour)', '$best_index >= 0 ==> $cost_of_best_tour == wcost($g, $c, $collapse_paths[$best_index]) + $internal_cost', '$cost_of_best_tour <= wcost($g, $c, $tour)']),
           dict(kind='for', inv=['1 <= $external_it <= $external_path_2.len()', '$best_tour == $sub_path_over_tour.path + $external_path_2.subrange(1, $external_it)'], dec='$external_path_2.len() - $external_it')],
    hints={'entry': 'proof { lemma_range($g, $tour); lemma_tour_walk($g, $tour); }',
           'decl:sub_path_over_tour': 'let ghost w = $sub_path_over_tour.path; proof { lemma_run($g, $tour, $index_of_first_vertex, w.len() as int); lemma_psum_nonneg($g, $p, w); }',
           'loop3.before': 'let ghost q = $external_path_2; proof { assert(closes($g, $p, w, $quota, $collapse_paths[$best_index])); assert(q.len() >= 2) by { reveal(closes); } lemma_closed($g, $c, $p, w, $quota, q); assert($best_tour =~= w + q.subrange(1, 1int)); }',
           'loop3.end': 'proof { assert($best_tour =~= w + q.subrange(1, $external_it)); }',
           'loop1.after': 'proof { lemma_range($g, $best_tour); lemma_tour_walk($g, $best_tour); let n = $best_tour.len() as int; lemma_find_pos($best_tour, 0, n, $root); let j = choose|j: int| 0 <= j < n && $best_tour[j] == $root; assert(find_pos($best_tour, 0, n, $root) < n - 1) by { if find_pos($best_tour, 0, n, $root) >= n - 1 { assert($best_tour[0] == $best_tour[n - 1]); if j < n - 1 { assert($best_tour[j] != $root); } else { assert($best_tour[0] != $root); } } } }',
           'return': 'proof { lemma_rotation($g, $c, $p, $best_tour, $retval, find_pos($best_tour, 0, $best_tour.len() as int, $root)); }'})]
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
void use(PCTSPgraph& g, std::list<PCTSPvertex>& t, VertexPrizeMap& pm, EdgeCostMap& cm, PrizeNumberType& q, PCTSPvertex& root) { collapse(g, t, cm, pm, q, root, true); }
'''
NAMES = ['getSubPathOverTour', 'findCollapsePaths', 'collapse']
UNITS = [Unit('collapse', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in NAMES], prefetch=NAMES + ['indexOfReverseIterator'])]
RUNTIME = [dict(kind='cxx', driver='c06.cpp', procs=3, srcs=['heuristic.cpp', 'graph.cpp'], rule='random graphs up to 10 vertices with a random tour of 2 to 8 vertices, any root on the tour, quotas up to the prize of the tour, both collapse modes; non-trivial: the tour has at least three vertices')]
ASSUMPTIONS = ['boost::dijkstra_shortest_paths with the blacklisting visitor behind dijkstraShortestPathBlacklist: when it reports the target found, its predecessor map is a tree of graph edges rooted at the source that contains the target and no blacklisted vertex (checked at run time only)', 'machine integers do not overflow', 'edge costs and vertex prizes are not negative (precondition)']
