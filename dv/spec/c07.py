"""The extension/collapse pipeline that produces the heuristic tour."""
from ..run import Unit
from . import c06
PRELUDE = c06.PRELUDE + r'''
pub proof fn lemma_at_root(t: Seq<int>, root: int) requires t.len() >= 2, t[0] == root ensures find_pos(t, 0, t.len() as int, root) == 0, t.contains(root)
{ lemma_find_pos(t, 0, t.len() as int, root); assert(t[0] == root); }
// a feasible rooted tour that costs at most as much as a given one
pub open spec fn good(g: Graph, c: Map<int, int>, p: Map<int, int>, quota: int, root: int, t: Seq<int>) -> bool { tour_ok(g, t) && t.len() >= 2 && t[0] == root && t.last() == root && tprize(p, t) >= quota }
pub proof fn lemma_good_rotation(g: Graph, c: Map<int, int>, p: Map<int, int>, quota: int, root: int, t: Seq<int>, r: Seq<int>) requires wf(g), good(g, c, p, quota, root, t), rotation(t, r, find_pos(t, 0, t.len() as int, root)) ensures good(g, c, p, quota, root, r), wcost(g, c, r) == wcost(g, c, t)
{ lemma_at_root(t, root); lemma_rotation(g, c, p, t, r, 0); lemma_tour_walk(g, r); assert(r[0] == t[0]); }
pub proof fn lemma_rotations(g: Graph, c: Map<int, int>, p: Map<int, int>, quota: int, root: int) requires wf(g) ensures forall|t: Seq<int>, r: Seq<int>| #[trigger] rotation(t, r, find_pos(t, 0, t.len() as int, root)) && good(g, c, p, quota, root, t) ==> good(g, c, p, quota, root, r) && wcost(g, c, r) == wcost(g, c, t)
{ assert forall|t: Seq<int>, r: Seq<int>| #[trigger] rotation(t, r, find_pos(t, 0, t.len() as int, root)) && good(g, c, p, quota, root, t) implies good(g, c, p, quota, root, r) && wcost(g, c, r) == wcost(g, c, t) by { lemma_good_rotation(g, c, p, quota, root, t, r); } }
'''
C = dict(c06.C)
C['pathExtensionCollapse'] = [dict(params=['g', 'init', 'c', 'p', 'quota', 'root', 'sp', 'depth', 'step_size'],
    requires=['wf($g)', 'tour_ok($g, $init)', '$init[0] == $root', 'nonneg($g, $p)', 'nonneg_cost($g, $c)'],
    ensures=[('a returned tour is a simple closed tour of the graph', '$ret.len() > 0 ==> tour_ok($g, $ret)'), ('a returned tour starts and ends at the root', '$ret.len() > 0 ==> $ret[0] == $root && $ret.last() == $root'), ('a returned tour meets the quota', '$ret.len() > 0 ==> tprize($p, $ret) >= $quota'),
        ('a tour is returned when the input meets the quota', 'tprize($p, $init) >= $quota ==> $ret.len() > 0'), ('and it costs no more than the input', 'tprize($p, $init) >= $quota ==> wcost($g, $c, $ret) <= wcost($g, $c, $init)'), ('inputs unchanged', '$out(g) == $g && $out(init) == $init && $out(root) == $root && $out(quota) == $quota'), '$exc == 0'],
    locals=[('tour', 'Seq<int>'), ('best_tour', 'Seq<int>'), ('prize_of_tour', 'int'), ('best_tour_is_feasible', 'bool'), ('step', 'int'), ('best_cost', 'int'), ('tour_cost', 'int')],
    loops=[dict(kind='for', inv=['tour_ok($g, $tour)', '$tour[0] == $root', '$step >= 1', '$best_tour_is_feasible ==> good($g, $c, $p, $quota, $root, $best_tour)', '!$best_tour_is_feasible ==> $best_tour.len() == 0'], dec='$step_size + 1 - $step + (if $brk { 0int } else { 1int })'),
           dict(kind='for', inv=['good($g, $c, $p, $quota, $root, $best_tour)', '$tour == $best_tour', '$step_2 >= 1', '$best_cost == wcost($g, $c, $best_tour)', 'tprize($p, $init) >= $quota ==> $best_cost <= wcost($g, $c, $init)'], dec='$step_size + 1 - $step_2')],
    hints={'entry': 'proof { lemma_tour_walk($g, $init); lemma_rotations($g, $c, $p, $quota, $root); }', 'loop1.body': 'proof { lemma_tour_walk($g, $tour); }', 'loop1.end': 'proof { lemma_tour_walk($g, $tour); }',
           'set:best_tour': 'proof { if tour_ok($g, $best_tour) { lemma_tour_walk($g, $best_tour); lemma_at_root($best_tour, $root); } }', 'set:tour': 'proof { if tour_ok($g, $tour) { lemma_tour_walk($g, $tour); if $tour[0] == $root { lemma_at_root($tour, $root); } } }'})]
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
void use(PCTSPgraph& g, std::list<PCTSPvertex>& t, VertexPrizeMap& pm, EdgeCostMap& cm, PrizeNumberType& q, PCTSPvertex& root) { pathExtensionCollapse(g, t, cm, pm, q, root, true, 2, 1); }
#include "../src/heuristic.cpp"
'''
NAMES = ['pathExtensionCollapse']
UNITS = [Unit('pipeline', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in NAMES], prefetch=NAMES + c06.NAMES + ['indexOfReverseIterator'])]
RUNTIME = [dict(kind='cxx', driver='c07.cpp', procs=3, srcs=['heuristic.cpp', 'graph.cpp'], rule='random graphs up to 10 vertices with a random rooted tour of 2 to 7 vertices, quotas below, at and above the prize of the tour, both collapse modes, step sizes and depth limits up to 6; non-trivial: the tour has at least three vertices')]
ASSUMPTIONS = c06.ASSUMPTIONS + ['losses are computed over the reals (the code rounds to float); they only decide which valid replacement is taken']
