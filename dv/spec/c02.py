from ..run import Unit
from . import walk
C = dict(walk.C)
C['isPrizeFeasible'] = [
    dict(emit='isPrizeFeasible_range', sig=['PMap', 'int', 'iter', 'iter'], params=['prize_map', 'quota', 'first', 'last'],
         requires=['0 <= $first <= $last <= $rng.len()'],
         ensures=[('yes exactly when the prize reaches the quota', '$ret == (prize_sum($prize_map, $rng, $first, $last - $first) >= $quota)')],
         locals=[('prize', 'int')],
         loops=[dict(kind='for', inv=['$in_first <= $first <= $last', '$prize == prize_sum($prize_map, $rng, $in_first, $first - $in_first)'], dec='$last - $first')]),
    dict(emit='isPrizeFeasible_vector', sig=['PMap', 'int', 'Seq<int>'], params=['prize_map', 'quota', 'vs'],
         ensures=[('yes exactly when the prize reaches the quota', '$ret == (prize_sum($prize_map, $vs, 0, $vs.len() as int) >= $quota)')])]
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/walk.hh"
void use(PCTSPgraph& g, std::list<PCTSPvertex>& t, std::vector<PCTSPvertex>& v, VertexPrizeMap& pm, EdgeCostMap& cm, PrizeNumberType& q, std::vector<PCTSPedge>& e, std::list<PCTSPedge>& el) {
  totalCost(g, t, cm); totalCost(g, v, cm); totalCost(e, cm); totalCost(el, cm); totalPrize(pm, t); totalPrize(pm, v); totalPrizeOfTour(pm, t); totalPrizeOfGraph(g, pm);
  isPrizeFeasible(pm, q, v); auto a = t.begin(), b = t.end(); isPrizeFeasible(pm, q, a, b);
}'''
NAMES = ['getEdgesInWalk', 'totalCost', 'totalPrize', 'totalPrizeOfTour', 'totalPrizeOfGraph', 'isPrizeFeasible']
UNITS = [Unit('walk_sums', tu=TU, contracts=C, prelude=walk.PRELUDE, roots=[(n,) for n in NAMES], prefetch=NAMES)]
RUNTIME = [dict(kind='cxx', driver='c02.cpp', rule='random graphs up to 7 vertices, random vertex lists (mostly walks) up to 8 entries; non-trivial: at least one consecutive pair')]
ASSUMPTIONS = ['simple graph: the edge of a vertex pair is unique']
