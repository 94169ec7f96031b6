"""Contracts for pctsp/walk.hh (used by C02, C03 and every heuristic property)."""
PRELUDE = r'''
// cost of the first k steps of the walk w[a..]
pub open spec fn walk_cost(g: Graph, c: Map<int, int>, w: Seq<int>, a: int, k: int) -> int decreases k
{ if k <= 0 { 0 } else { walk_cost(g, c, w, a, k - 1) + c[g_edge(g, w[a + k - 1], w[a + k]).0] } }
pub open spec fn edges_cost(c: Map<int, int>, e: Seq<int>, a: int, k: int) -> int decreases k
{ if k <= 0 { 0 } else { edges_cost(c, e, a, k - 1) + c[e[a + k - 1]] } }
pub open spec fn prize_sum(p: Map<int, int>, w: Seq<int>, a: int, k: int) -> int decreases k
{ if k <= 0 { 0 } else { prize_sum(p, w, a, k - 1) + p[w[a + k - 1]] } }
pub open spec fn is_walk(g: Graph, w: Seq<int>, a: int, b: int) -> bool { forall|i: int| a <= i < b - 1 ==> #[trigger] has_edge(g, w[i], w[i + 1]) }
pub open spec fn wlen(a: int, b: int) -> int { if b - a < 2 { 0 } else { b - a - 1 } }
pub proof fn lemma_edges_cost(g: Graph, c: Map<int, int>, w: Seq<int>, e: Seq<int>, a: int, k: int)
    requires 0 <= k <= e.len(), forall|i: int| 0 <= i < k ==> #[trigger] e[i] == g_edge(g, w[a + i], w[a + i + 1]).0
    ensures edges_cost(c, e, 0, k) == walk_cost(g, c, w, a, k)
    decreases k
{ if k > 0 { lemma_edges_cost(g, c, w, e, a, k - 1); assert(e[k - 1] == g_edge(g, w[a + (k - 1)], w[a + (k - 1) + 1]).0); } }
pub proof fn lemma_prize_shift(p: Map<int, int>, w: Seq<int>, v: Seq<int>, a: int, b: int, k: int)
    requires forall|i: int| a <= i < a + k ==> #[trigger] w[i] == v[b + (i - a)]
    ensures prize_sum(p, w, a, k) == prize_sum(p, v, b, k)
    decreases k
{ if k > 0 { lemma_prize_shift(p, w, v, a, b, k - 1); assert(w[a + (k - 1)] == v[b + ((a + (k - 1)) - a)]); } }
// rotation of a closed tour: position i of the result is position (at + i) of the input, wrapping over n = len - 1
pub open spec fn rotation(t: Seq<int>, r: Seq<int>, at: int) -> bool {
    &&& r.len() == t.len()
    &&& 0 <= at < t.len()
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] r[i] == t[if at + i < t.len() { at + i } else { at + i - (t.len() - 1) }]
}
'''

C = {}
C['getEdgesInWalk'] = [dict(params=['graph', 'first', 'last'],
    requires=['0 <= $first <= $last <= $rng.len()'],
    ensures=[('edge-not-found error exactly on a missing edge', '$exc == (if is_walk($graph, $rng, $first, $last) { 0 } else { EXC_EdgeNotFoundException() })'),
             ('one edge per consecutive pair', '$exc == 0 ==> $ret.len() == wlen($first, $last)'),
             ('the edge of each pair', '$exc == 0 ==> forall|i: int| 0 <= i < wlen($first, $last) ==> #[trigger] $ret[i] == g_edge($graph, $rng[$first + i], $rng[$first + i + 1]).0')],
    locals=[('n_vertices', 'int'), ('edges', 'Seq<int>'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $n_vertices - 1', '$n_vertices == $last - $in_first', '$first == $in_first + $i', '$edges.len() == $n_vertices - 1',
                                 'forall|j: int| 0 <= j < $i ==> has_edge($graph, #[trigger] $rng[$in_first + j], $rng[$in_first + j + 1])',
                                 'forall|j: int| 0 <= j < $i ==> #[trigger] $edges[j] == g_edge($graph, $rng[$in_first + j], $rng[$in_first + j + 1]).0'], dec='$n_vertices - 1 - $i')],
    hints={'loop1.after': 'assert forall|i: int| $in_first <= i < $in_last - 1 implies #[trigger] has_edge($graph, $rng[i], $rng[i + 1]) by { assert(has_edge($graph, $rng[$in_first + (i - $in_first)], $rng[$in_first + (i - $in_first) + 1])); };'})]
C['totalCost'] = [
    dict(emit='totalCost_edge_range', sig=['iter', 'iter', 'PMap'], params=['first', 'last', 'cost_map'],
         requires=['0 <= $first <= $last <= $rng.len()'],
         ensures=[('sum of the edge costs', '$ret == edges_cost($cost_map, $rng, $first, $last - $first)')],
         locals=[('cost', 'int')],
         loops=[dict(kind='for', inv=['$in_first <= $first <= $last', '$cost == edges_cost($cost_map, $rng, $in_first, $first - $in_first)'], dec='$last - $first')]),
    dict(emit='totalCost_edge_list', sig=['Seq<int>', 'PMap'], params=['edges', 'cost_map'],
         ensures=[('sum of the edge costs', '$ret == edges_cost($cost_map, $edges, 0, $edges.len() as int)')]),
    dict(emit='totalCost_range', sig=['Graph', 'iter', 'iter', 'PMap'], params=['graph', 'first', 'last', 'cost_map'],
         requires=['0 <= $first <= $last <= $rng.len()'],
         ensures=[('edge-not-found error exactly on a missing edge', '$exc == (if is_walk($graph, $rng, $first, $last) { 0 } else { EXC_EdgeNotFoundException() })'),
                  ('sum over consecutive pairs', '$exc == 0 ==> $ret == walk_cost($graph, $cost_map, $rng, $first, wlen($first, $last))')],
         locals=[('edges', 'Seq<int>')],
         hints={'return': 'proof { if wlen($in_first, $in_last) == $edges.len() && (forall|i: int| 0 <= i < $edges.len() ==> #[trigger] $edges[i] == g_edge($graph, $rng[$in_first + i], $rng[$in_first + i + 1]).0) { lemma_edges_cost($graph, $cost_map, $rng, $edges, $in_first, $edges.len() as int); } }'}),
    dict(emit='totalCost_walk', sig=['Graph', 'Seq<int>', 'PMap'], params=['graph', 'tour', 'cost_map'],
         ensures=[('edge-not-found error exactly on a missing edge', '$exc == (if is_walk($graph, $tour, 0, $tour.len() as int) { 0 } else { EXC_EdgeNotFoundException() })'),
                  ('sum over consecutive pairs', '$exc == 0 ==> $ret == walk_cost($graph, $cost_map, $tour, 0, wlen(0, $tour.len() as int))')]),
]
C['totalPrize'] = [
    dict(emit='totalPrize_range', sig=['PMap', 'iter', 'iter'], params=['prize_map', 'first', 'last'],
         requires=['0 <= $first <= $last <= $rng.len()'],
         ensures=[('sum of the vertex prizes', '$ret == prize_sum($prize_map, $rng, $first, $last - $first)')],
         locals=[('prize', 'int')],
         loops=[dict(kind='for', inv=['$in_first <= $first <= $last', '$prize == prize_sum($prize_map, $rng, $in_first, $first - $in_first)'], dec='$last - $first')]),
    dict(emit='totalPrize_walk', sig=['PMap', 'Seq<int>'], params=['prize_map', 'path'],
         ensures=[('sum of the vertex prizes', '$ret == prize_sum($prize_map, $path, 0, $path.len() as int)')]),
]
C['totalPrizeOfTour'] = [dict(params=['prize_map', 'tour'], requires=['$tour.len() > 0'],
    ensures=[('sum without the repeated last vertex', '$ret == prize_sum($prize_map, $tour, 0, $tour.len() - 1)')],
    locals=[('tour_without_last_vertex', 'Seq<int>')],
    hints={'return': 'proof { if $tour_without_last_vertex.len() == $tour.len() - 1 { lemma_prize_shift($prize_map, $tour_without_last_vertex, $tour, 0, 0, $tour.len() - 1); } }'})]
C['totalPrizeOfGraph'] = [dict(params=['graph', 'prize_map'], requires=['wf($graph)'],
    ensures=[('sum of all vertex prizes', '$ret == prize_sum($prize_map, vertex_seq($graph), 0, $graph.n)')],
    locals=[('prize', 'int')],
    loops=[dict(kind='range', inv=['$prize == prize_sum($prize_map, vertex_seq($graph), 0, $it)'])])]
C['ReorderTourFromRoot'] = [dict(params=['tour', 'root'],
    requires=['$tour.len() > 0', '$tour[0] == $tour[$tour.len() - 1]', '$tour.contains($root)'],
    ensures=[('same length', '$ret.len() == $tour.len()'),
             ('starts and ends at the root', '$ret.len() > 0 && $ret[0] == $root && $ret[$ret.len() - 1] == $root'),
             ('cyclic rotation of the input', 'rotation($tour, $ret, find_pos($tour, 0, $tour.len() as int, $root))'),
             ('input unchanged', '$out(tour) == $tour')],
    locals=[('root_finder', 'iter'), ('new_tour', 'Seq<int>'), ('tour_it', 'iter')],
    loops=[dict(kind='for', inv=['1 <= $tour_it <= $root_finder', '$root_finder < $tour.len()', '$new_tour.len() == $tour.len() - $root_finder + ($tour_it - 1)',
        'forall|i: int| 0 <= i < $tour.len() - $root_finder ==> #[trigger] $new_tour[i] == $tour[$root_finder + i]',
        'forall|i: int| $tour.len() - $root_finder <= i < $new_tour.len() ==> #[trigger] $new_tour[i] == $tour[$root_finder + i - ($tour.len() - 1)]'], dec='$root_finder - $tour_it')],
    hints={'entry': 'proof { lemma_find_pos($tour, 0, $tour.len() as int, $root); let w = choose|w: int| 0 <= w < $tour.len() && $tour[w] == $root; }'})]
