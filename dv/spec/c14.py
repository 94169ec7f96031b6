from ..run import Unit
from .. import scip
from . import sol
PRELUDE = sol.PRELUDE + r'''
pub open spec fn visited_upto(g: Graph, m: Map<int, int>, s: int, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if var_pos(s, m[g_edge(g, k - 1, k - 1).0]) { visited_upto(g, m, s, k - 1).push(k - 1) } else { visited_upto(g, m, s, k - 1) }
}
pub open spec fn is_visited(g: Graph, m: Map<int, int>, s: int, v: int) -> bool { 0 <= v < g.n && var_pos(s, m[g_edge(g, v, v).0]) }
pub proof fn visited_prop(g: Graph, m: Map<int, int>, s: int, k: int)
    requires 0 <= k
    ensures forall|i: int| 0 <= i < visited_upto(g, m, s, k).len() ==> 0 <= #[trigger] visited_upto(g, m, s, k)[i] < k && var_pos(s, m[g_edge(g, visited_upto(g, m, s, k)[i], visited_upto(g, m, s, k)[i]).0]),
        forall|i: int, j: int| 0 <= i < j < visited_upto(g, m, s, k).len() ==> visited_upto(g, m, s, k)[i] < visited_upto(g, m, s, k)[j],
        forall|v: int| 0 <= v < k && var_pos(s, m[g_edge(g, v, v).0]) ==> #[trigger] visited_upto(g, m, s, k).contains(v)
    decreases k
{
    if k > 0 {
        visited_prop(g, m, s, k - 1);
        let p = visited_upto(g, m, s, k - 1); let q = visited_upto(g, m, s, k);
        assert forall|v: int| 0 <= v < k && var_pos(s, m[g_edge(g, v, v).0]) implies #[trigger] q.contains(v) by {
            if v < k - 1 { assert(p.contains(v)); let i = choose|i: int| 0 <= i < p.len() && p[i] == v; assert(q[i] == v); } else { assert(q[p.len() as int] == v); }
        }
    }
}
/// capacity of a value: exact at 0, 1 and 2 (within tolerance), scaled and truncated otherwise
pub open spec fn cap(x: real) -> int {
    if scip_zero(x) { 0 } else if scip_zero(x - 1real) { 1000000 } else if scip_zero(x - 2real) { 2000000 } else { trunc(1000000real * x) }
}
'''
C = {**scip.BASE, **sol.C,
 'getSolutionVertices': [dict(params=['scip', 'graph', 'sol', 'edge_variable_map'],
    requires=['$graph.n >= 0', 'forall|v: int| 0 <= v < $graph.n && (#[trigger] g_edge($graph, v, v)).1 ==> $edge_variable_map.dom().contains(g_edge($graph, v, v).0)'],
    ensures=[('error exactly when a self loop is missing', '$exc == (if forall|v: int| 0 <= v < $graph.n ==> #[trigger] has_edge($graph, v, v) { 0 } else { EXC_EdgeNotFoundException() })'),
             ('vertices with a positive self-loop variable in vertex order', '$exc == 0 ==> $ret == visited_upto($graph, $edge_variable_map, $sol, $graph.n)'),
             ('exactly those vertices', '$exc == 0 ==> forall|v: int| #[trigger] $ret.contains(v) <==> is_visited($graph, $edge_variable_map, $sol, v)')],
    locals=[('solution_vertices', 'Seq<int>')],
    loops=[dict(kind='range', inv=['$solution_vertices == visited_upto($graph, $edge_variable_map, $sol, $it)', 'forall|v: int| 0 <= v < $it ==> #[trigger] has_edge($graph, v, v)'])],
    hints={'loop1.body': 'proof { reveal_with_fuel(visited_upto, 2); lemma_g_edge($graph, $it as int, $it as int); assert($seq[$it as int] == $it as int); }',
           'return': '''proof { visited_prop($graph, $edge_variable_map, $sol, $graph.n); }
             assert forall|v: int| #[trigger] $retval.contains(v) <==> is_visited($graph, $edge_variable_map, $sol, v) by {
                if $retval.contains(v) { let i = choose|i: int| 0 <= i < $retval.len() && $retval[i] == v; assert(var_pos($sol, $edge_variable_map[g_edge($graph, $retval[i], $retval[i]).0])); }
                if is_visited($graph, $edge_variable_map, $sol, v) { assert(visited_upto($graph, $edge_variable_map, $sol, $graph.n).contains(v)); } }'''})],
 'getCapacityVectorFromSol': [dict(params=['scip', 'graph', 'sol', 'edge_variable_map'],
    ensures=[('one capacity per used edge, aligned', '$ret.len() == used_edges($graph, $edge_variable_map, $sol).len() && forall|i: int| 0 <= i < $ret.len() ==> #[trigger] $ret[i] == cap(sol_val($sol, $edge_variable_map[used_edges($graph, $edge_variable_map, $sol)[i]]))')],
    locals=[('capacity', 'Seq<int>')],
    loops=[dict(kind='range', inv=['$seq == used_edges($graph, $edge_variable_map, $sol)', '$capacity.len() == $it', 'forall|i: int| 0 <= i < $it ==> #[trigger] $capacity[i] == cap(sol_val($sol, $edge_variable_map[used_edges($graph, $edge_variable_map, $sol)[i]]))'])],
    hints={'loop1.body': 'proof { used_edges_exact($graph, $edge_variable_map, $sol); assert($seq.contains($seq[$it as int])); }'})],
 'getVertexPairVectorFromEdgeSubset': [dict(params=['graph', 'edge_subset_vector'],
    ensures=[('one vertex pair per edge, aligned', '$ret.len() == $edge_subset_vector.len() && forall|i: int| 0 <= i < $ret.len() ==> #[trigger] $ret[i] == (e_src($graph, $edge_subset_vector[i]), e_tgt($graph, $edge_subset_vector[i]))')],
    locals=[('edges', 'Seq<(int, int)>')],
    loops=[dict(kind='range', inv=['$edges.len() == $it', '$seq == $edge_subset_vector', 'forall|i: int| 0 <= i < $it ==> #[trigger] $edges[i] == (e_src($graph, $edge_subset_vector[i]), e_tgt($graph, $edge_subset_vector[i]))'])])],
}
TU = '#include "../src/solution.cpp"\n#include "../src/separation.cpp"\n#include "../src/graph.cpp"\n'
N = ['isVarPositive', 'getSolutionEdges', 'getSolutionVertices', 'getCapacityVectorFromSol', 'getVertexPairVectorFromEdgeSubset']
UNITS = [Unit('extraction', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in N], prefetch=N + ['FLOW_FLOAT_MULTIPLIER'])]
RUNTIME = [dict(kind='cxx', driver='c14.cpp', srcs=['solution.cpp', 'separation.cpp', 'graph.cpp', 'sciputils.cpp'], rule='random graphs with self loops on up to 8 vertices, partial variable maps, values 0, within tolerance of 0, 1 and 2, fractional; non-trivial: some edge is used and some is not')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['every self loop of the graph has a variable (part of the problem data)']
