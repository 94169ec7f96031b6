"""Unitary-gain extension of a tour."""
from ..run import Unit
from . import walk
BASE = walk.PRELUDE + r'''
#[verifier::opaque] pub open spec fn tour_ok(g: Graph, t: Seq<int>) -> bool { t.len() >= 2 && t[0] == t.last() && t.drop_last().no_duplicates() && is_walk(g, t, 0, t.len() as int) }
// the unitary gain of putting v between the i-th vertex of the tour and the next one
pub open spec fn ugain(p: int, uw: int, uv: int, vw: int) -> real { (p as real) / ((uv + vw - uw) as real) }
pub open spec fn fits(g: Graph, t: Seq<int>, i: int, v: int) -> bool { 0 <= i < t.len() - 1 && has_edge(g, t[i], v) && has_edge(g, v, t[i + 1]) }
pub open spec fn gain_at(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>, i: int, v: int) -> real { ugain(p[v], c[g_edge(g, t[i], t[i + 1]).0], c[g_edge(g, t[i], v).0], c[g_edge(g, v, t[i + 1]).0]) }
#[verifier::opaque] pub open spec fn no_gain_of(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>, v: int, k: int) -> bool { forall|i: int| 0 <= i < k && #[trigger] fits(g, t, i, v) ==> gain_at(g, t, c, p, i, v) <= 0real }
#[verifier::opaque] pub open spec fn no_gain(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>) -> bool { forall|v: int| 0 <= v < g.n && !t.contains(v) ==> #[trigger] no_gain_of(g, t, c, p, v, t.len() - 1) }
#[verifier::opaque] pub open spec fn no_gain_upto(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>, k: int) -> bool { forall|v: int| 0 <= v < k && !t.contains(v) ==> #[trigger] no_gain_of(g, t, c, p, v, t.len() - 1) }
pub proof fn ng_start(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>, v: int) ensures no_gain_of(g, t, c, p, v, 0), no_gain_upto(g, t, c, p, 0) { reveal(no_gain_of); reveal(no_gain_upto); }
pub proof fn ng_step(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>, v: int, k: int) requires no_gain_of(g, t, c, p, v, k), fits(g, t, k, v) ==> gain_at(g, t, c, p, k, v) <= 0real ensures no_gain_of(g, t, c, p, v, k + 1) { reveal(no_gain_of); }
pub proof fn ngu_step(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>, k: int) requires no_gain_upto(g, t, c, p, k), t.contains(k) || no_gain_of(g, t, c, p, k, t.len() - 1) ensures no_gain_upto(g, t, c, p, k + 1) { reveal(no_gain_upto); }
pub proof fn ngu_end(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>) requires no_gain_upto(g, t, c, p, g.n) ensures no_gain(g, t, c, p) { reveal(no_gain_upto); reveal(no_gain); }
pub open spec fn tour_set(t: Seq<int>, s: Set<int>) -> bool { forall|x: int| #[trigger] s.contains(x) <==> t.contains(x) }
// m[i] is where the i-th entry of the original tour is now
#[verifier::opaque] pub open spec fn kept(a: Seq<int>, t: Seq<int>, m: Seq<int>) -> bool {
    &&& m.len() == a.len() && a.len() >= 1 && m[0] == 0 && m.last() == t.len() - 1
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] m[i] < t.len() && t[m[i]] == a[i]
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] m[i] < #[trigger] m[j]
}
pub open spec fn grown(a: Seq<int>, t: Seq<int>) -> bool { exists|m: Seq<int>| #[trigger] kept(a, t, m) }
pub proof fn lemma_grown_refl(a: Seq<int>) requires a.len() >= 1 ensures grown(a, a) { reveal(kept); let m = Seq::new(a.len(), |i: int| i); assert(kept(a, a, m)); }
pub proof fn lemma_grown(a: Seq<int>, t: Seq<int>, i: int, v: int) requires grown(a, t), 0 <= i < t.len() - 1 ensures grown(a, t.insert(i + 1, v))
{ let m = choose|m: Seq<int>| #[trigger] kept(a, t, m); reveal(kept); let q = Seq::new(m.len(), |j: int| if m[j] <= i { m[j] } else { m[j] + 1 }); let t2 = t.insert(i + 1, v);
  assert(m.last() == t.len() - 1); assert(q.last() == q[m.len() - 1]); assert(m.last() == m[m.len() - 1]);
  assert forall|j: int| 0 <= j < a.len() implies 0 <= #[trigger] q[j] < t2.len() && t2[q[j]] == a[j] by { assert(0 <= m[j] < t.len()); }
  assert(kept(a, t2, q)); }
pub proof fn lemma_range(g: Graph, t: Seq<int>) requires wf(g), tour_ok(g, t) ensures forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] t[i] < g.n, t.len() <= g.n + 1, t.len() >= 2
{ reveal(tour_ok); assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < g.n by { let j = if i < t.len() - 1 { i } else { i - 1 }; assert(has_edge(g, t[j], t[j + 1])); let e = choose|e: int| #[trigger] joins(g, e, t[j], t[j + 1]); }
  let s = t.drop_last(); let all = vstd::set_lib::set_int_range(0, g.n); s.unique_seq_to_set(); assert forall|x: int| s.to_set().contains(x) implies all.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
  vstd::set_lib::lemma_int_range(0, g.n); vstd::set_lib::lemma_len_subset(s.to_set(), all); }
pub proof fn lemma_tour_walk(g: Graph, t: Seq<int>) requires tour_ok(g, t) ensures is_walk(g, t, 0, t.len() as int), t.len() >= 2, t[0] == t.last() { reveal(tour_ok); }
pub proof fn lemma_ins(g: Graph, t: Seq<int>, i: int, v: int) requires tour_ok(g, t), fits(g, t, i, v), !t.contains(v) ensures tour_ok(g, t.insert(i + 1, v)), t.insert(i + 1, v)[0] == t[0]
{ reveal(tour_ok); let q = t.insert(i + 1, v); let d = q.drop_last(); let s = t.drop_last();
  assert forall|a: int, b: int| 0 <= a < b < d.len() implies d[a] != d[b] by { let a2 = if a <= i { a } else { a - 1 }; let b2 = if b <= i { b } else { b - 1 }; if a == i + 1 { assert(d[b] == t[b2]); assert(t.contains(t[b2])); } else if b == i + 1 { assert(d[a] == t[a2]); assert(t.contains(t[a2])); } else { assert(d[a] == s[a2] && d[b] == s[b2]); } }
  assert forall|a: int| 0 <= a < q.len() - 1 implies #[trigger] has_edge(g, q[a], q[a + 1]) by { if a < i { assert(has_edge(g, t[a], t[a + 1])); } else if a > i + 1 { assert(has_edge(g, t[a - 1], t[a - 1 + 1])); } } }
pub proof fn lemma_ins_set(t: Seq<int>, s: Set<int>, i: int, v: int) requires tour_set(t, s), 0 <= i <= t.len() ensures tour_set(t.insert(i, v), s.insert(v))
{ let q = t.insert(i, v); let s2 = s.insert(v); assert forall|x: int| #[trigger] s2.contains(x) <==> q.contains(x) by { if q.contains(x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; if j < i { assert(t[j] == x); } else if j > i { assert(t[j - 1] == x); } if x != v { assert(t.contains(x)); } } if s.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; if j < i { assert(q[j] == x); } else { assert(q[j + 1] == x); } } if x == v { assert(q[i] == v); } } }
pub proof fn lemma_ins_prize(p: Map<int, int>, t: Seq<int>, i: int, v: int, k: int) requires 0 <= i <= k <= t.len() ensures prize_sum(p, t.insert(i, v), 0, k + 1) == prize_sum(p, t, 0, k) + p[v] decreases k
{ let q = t.insert(i, v); if k == i { lemma_prize_shift(p, q, t, 0, 0, k); assert(q[0 + (k + 1) - 1] == v); } else { lemma_ins_prize(p, t, i, v, k - 1); assert(q[0 + (k + 1) - 1] == t[k - 1]); } }
'''
PRELUDE = BASE + r'''
pub open spec fn spot(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>, v: int, e: ExtensionVertex) -> bool { fits(g, t, e.index, v) && e.value == gain_at(g, t, c, p, e.index, v) && e.value > 0real }
'''
C = dict(walk.C)
C['unitaryGain'] = [dict(params=['p', 'uw', 'uv', 'vw'], ensures=[('prize per extra cost', '$ret == ugain($p, $uw, $uv, $vw)')])]
C['unitaryGainOfVertex'] = [dict(params=['g', 'tour', 'c', 'p', 'vertex'], requires=['tour_ok($g, $tour)', '0 <= $vertex < $g.n'],
    ensures=['$exc == 0', ('a positive gain comes with a position where both new edges exist', '$ret.value > 0real ==> spot($g, $tour, $c, $p, $vertex, $ret)'), ('otherwise no position has a positive gain', '$ret.value <= 0real ==> no_gain_of($g, $tour, $c, $p, $vertex, $tour.len() - 1)'), ('inputs unchanged', '$out(g) == $g && $out(tour) == $tour')],
    locals=[('tour_iterator', 'iter'), ('prev_vertex_id', 'int'), ('u', 'int'), ('v', 'int'), ('max_gain', 'real'), ('prize_of_v', 'int'), ('index_of_extension', 'int'), ('i', 'int')],
    loops=[dict(kind='for', inv=['1 <= $tour_iterator <= $tour.len()', '$i == $tour_iterator - 1', '$u == $tour[$i]', '$v == $vertex', '$prize_of_v == $p[$v]', 'is_walk($g, $tour, 0, $tour.len() as int)', '$max_gain >= 0real',
        '$max_gain > 0real ==> fits($g, $tour, $index_of_extension, $v) && $max_gain == gain_at($g, $tour, $c, $p, $index_of_extension, $v)', '$max_gain == 0real ==> no_gain_of($g, $tour, $c, $p, $v, $i)'], dec='$tour.len() - $tour_iterator')],
    hints={'entry': 'proof { lemma_tour_walk($g, $tour); ng_start($g, $tour, $c, $p, $vertex); }',
           'loop1.body': 'let ghost i0 = $i; let ghost m0 = $max_gain; proof { assert(has_edge($g, $tour[i0], $tour[i0 + 1])); }',
           'loop1.end': 'proof { if $max_gain == 0real { ng_step($g, $tour, $c, $p, $v, i0); } }'})]
C['calculateAverageGain'] = [dict(params=['vs', 'gm'], ensures=[('inputs unchanged', '$out(vs) == $vs && $out(gm) == $gm')], loops=[dict(kind='range', inv=[])])]
C['findVertexWithBiggestGain'] = [dict(params=['g', 'tour', 'c', 'p', 'gm', 'vs'], requires=['wf($g)', 'tour_ok($g, $tour)', 'tour_set($tour, $vs)'],
    ensures=['$exc == 0 || $exc == EXC_NoGainVertexFoundException()',
        ('a vertex outside the tour with a positive gain and its position', '$exc == 0 ==> 0 <= $ret < $g.n && !$tour.contains($ret) && $out(gm).dom().contains($ret) && spot($g, $tour, $c, $p, $ret, $out(gm)[$ret])'),
        ('an exception only if no vertex outside the tour has a positive gain', '$exc != 0 ==> no_gain($g, $tour, $c, $p)'), ('inputs unchanged', '$out(g) == $g && $out(tour) == $tour && $out(vs) == $vs')],
    locals=[('vp', '(iter, iter)'), ('biggest_gain', 'real'), ('biggest_gain_vertex', 'int'), ('found_biggest_gain', 'bool')],
    loops=[dict(kind='for', inv=['0 <= $vp.0 <= $vp.1', '$vp.1 == $g.n', '!$found_biggest_gain ==> $biggest_gain == 0real && no_gain_upto($g, $tour, $c, $p, $vp.0)',
        '$found_biggest_gain ==> 0 <= $biggest_gain_vertex < $vp.0 && !$tour.contains($biggest_gain_vertex) && $gm.dom().contains($biggest_gain_vertex) && spot($g, $tour, $c, $p, $biggest_gain_vertex, $gm[$biggest_gain_vertex]) && $gm[$biggest_gain_vertex].value == $biggest_gain'], dec='$vp.1 - $vp.0')],
    hints={'entry': 'proof { ng_start($g, $tour, $c, $p, 0); }', 'loop1.body': 'let ghost v0 = $vp.0; let ghost f0 = $found_biggest_gain;',
           'loop1.end': 'proof { if !$found_biggest_gain { ngu_step($g, $tour, $c, $p, v0); } }',
           'loop1.after': 'proof { if !$found_biggest_gain { ngu_end($g, $tour, $c, $p); } }'})]
C['insertBiggestGainVertexIntoTour'] = [dict(params=['tour', 'v', 'gm'], requires=['$gm.dom().contains($v)', '0 <= $gm[$v].index < $tour.len() - 1'],
    ensures=[('inserted behind the recorded position', '$out(tour) == $tour.insert($gm[$v].index + 1, $v)'), ('inputs unchanged', '$out(gm) =~= $gm')])]
INV = ['wf($g)', 'tour_ok($g, $tour)', '$tour[0] == $in_tour[0]', 'grown($in_tour, $tour)', 'tour_set($tour, $vertices_in_tour)', '$in_tour.len() <= $tour.len()']
RES = [('a simple closed tour of the graph', 'tour_ok($g, $out(tour))'), ('same start vertex', '$out(tour)[0] == $tour[0]'), ('every original vertex in the original order', 'grown($tour, $out(tour))'), '$exc == 0', ('graph unchanged', '$out(g) == $g')]
START = 'proof { lemma_range($g, $tour); lemma_grown_refl($tour); assert(tour_set($tour, $tour.to_set())); }'
BODY = 'let ghost t0 = $tour; let ghost s0 = $vertices_in_tour; let ghost mut gv: int = 0; let ghost mut gi: int = 0; proof { lemma_range($g, $tour); }'
GOT = 'proof { gv = $biggest_gain_vertex; gi = $gain_map[gv].index; }'
END = 'proof { if $tour != t0 { if fits($g, t0, gi, gv) && !t0.contains(gv) { lemma_ins($g, t0, gi, gv); lemma_grown($in_tour, t0, gi, gv); lemma_ins_set(t0, s0, gi + 1, gv); lemma_range($g, t0.insert(gi + 1, gv)); lemma_ins_prize($p, t0, gi + 1, gv, t0.len() - 1); } } else { lemma_range($g, $tour); } }'
C['extensionUnitaryGain'] = [dict(params=['g', 'tour', 'c', 'p'], requires=['wf($g)', 'tour_ok($g, $tour)'], ensures=RES,
    locals=[('gain_map', 'Map<int, ExtensionVertex>'), ('vertices_in_tour', 'Set<int>'), ('exists_vertices_with_above_avg_gain', 'bool'), ('biggest_gain_vertex', 'int')],
    loops=[dict(kind='while', inv=INV, dec='2 * ($g.n + 2 - $tour.len()) + (if $exists_vertices_with_above_avg_gain { 1int } else { 0int })')],
    hints={'entry': START, 'loop1.body': BODY, 'decl:biggest_gain_vertex': GOT, 'loop1.end': END})]
C['extensionUntilPrizeFeasible'] = [dict(params=['g', 'tour', 'c', 'p', 'quota'], requires=['wf($g)', 'tour_ok($g, $tour)'],
    ensures=RES + [('a tour that meets the quota is left alone', 'prize_sum($p, $tour, 0, $tour.len() - 1) >= $quota ==> $out(tour) == $tour'),
        ('stops only at the quota, without a positive gain or at the attempt limit', 'prize_sum($p, $out(tour), 0, $out(tour).len() - 1) >= $quota || no_gain($g, $out(tour), $c, $p) || $out(tour).len() - $tour.len() > $g.n')],
    locals=[('gain_map', 'Map<int, ExtensionVertex>'), ('vertices_in_tour', 'Set<int>'), ('prize', 'int'), ('attempts', 'int'), ('insert_a_vertex', 'bool'), ('biggest_gain_vertex', 'int')],
    loops=[dict(kind='while', inv=INV + ['$prize == prize_sum($p, $tour, 0, $tour.len() - 1)', '$attempts == $tour.len() - $in_tour.len()', '$insert_a_vertex || no_gain($g, $tour, $c, $p) || $attempts > $g.n', '$attempts == 0 ==> $tour == $in_tour', 'prize_sum($p, $in_tour, 0, $in_tour.len() - 1) >= $quota ==> $tour == $in_tour'],
        dec='2 * ($g.n + 2 - $tour.len()) + (if $insert_a_vertex { 1int } else { 0int })')],
    hints={'entry': START, 'loop1.body': BODY, 'decl:biggest_gain_vertex': GOT, 'loop1.end': END})]
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
void use(PCTSPgraph& g, std::list<PCTSPvertex>& t, VertexPrizeMap& pm, EdgeCostMap& cm, PrizeNumberType& q) { extensionUnitaryGain(g, t, cm, pm); extensionUntilPrizeFeasible(g, t, cm, pm, q); }
#include "../src/heuristic.cpp"

'''
NAMES = ['unitaryGain', 'unitaryGainOfVertex', 'calculateAverageGain', 'findVertexWithBiggestGain', 'insertBiggestGainVertexIntoTour', 'extensionUnitaryGain', 'extensionUntilPrizeFeasible']
UNITS = [Unit('gain', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in NAMES], prefetch=NAMES)]
LEVEL = 'proof'
ASSUMPTIONS = ['gains are computed over the reals (the code rounds to float; a division by zero is taken to give some value)', 'machine integers do not overflow']
RUNTIME = [dict(kind='cxx', driver='c04.cpp', procs=3, srcs=['heuristic.cpp'], rule='random graphs up to 9 vertices that contain a random tour, costs and prizes of several magnitudes (some negative), quotas around the prize of the tour and of the graph; non-trivial: a vertex lies outside the tour')]
