"""Shared: which edges and vertices a solution uses."""
from .. import scip
PRELUDE = scip.PRELUDE + r'''
pub open spec fn var_pos(sol: int, v: int) -> bool { !scip_zero(sol_val(sol, v)) && sol_val(sol, v) > 0real }
/// non-loop edges with a positive variable, in the order of the map
pub open spec fn used_upto(g: Graph, m: Map<int, int>, sol: int, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else { let e = map_entries(m)[k - 1]; let p = used_upto(g, m, sol, k - 1);
        if e_src(g, e.0) != e_tgt(g, e.0) && var_pos(sol, e.1) { p.push(e.0) } else { p } }
}
pub open spec fn used_edges(g: Graph, m: Map<int, int>, sol: int) -> Seq<int> { used_upto(g, m, sol, map_entries(m).len() as int) }
pub open spec fn is_used(g: Graph, m: Map<int, int>, sol: int, e: int) -> bool { m.dom().contains(e) && e_src(g, e) != e_tgt(g, e) && var_pos(sol, m[e]) }
pub proof fn used_upto_prop(g: Graph, m: Map<int, int>, sol: int, k: int)
    requires 0 <= k <= map_entries(m).len(), m.dom().finite()
    ensures ({ let s = used_upto(g, m, sol, k); s.no_duplicates() && (forall|i: int| 0 <= i < s.len() ==> is_used(g, m, sol, #[trigger] s[i]))
        && (forall|i: int| 0 <= i < s.len() ==> exists|j: int| 0 <= j < k && (#[trigger] map_entries(m)[j]).0 == #[trigger] s[i])
        && (forall|j: int| 0 <= j < k && is_used(g, m, sol, #[trigger] map_entries(m)[j].0) ==> s.contains(map_entries(m)[j].0)) })
    decreases k
{
    axiom_map_entries(m);
    if k > 0 {
        used_upto_prop(g, m, sol, k - 1);
        let p = used_upto(g, m, sol, k - 1); let s = used_upto(g, m, sol, k); let e = map_entries(m)[k - 1].0;
        assert(m.dom().contains(e) && m[e] == map_entries(m)[k - 1].1);
        if s.len() > p.len() {
            assert(s =~= p.push(e)); assert(s[p.len() as int] == e);
            assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
                if i < p.len() && j < p.len() {} else { let a = if i < p.len() { i } else { j }; assert(s[a] == p[a]); let q = choose|q: int| 0 <= q < k - 1 && (#[trigger] map_entries(m)[q]).0 == p[a]; assert(map_entries(m)[q].0 != map_entries(m)[k - 1].0); }
            }
            assert forall|i: int| 0 <= i < s.len() implies exists|j: int| 0 <= j < k && (#[trigger] map_entries(m)[j]).0 == #[trigger] s[i] by {
                if i < p.len() { assert(s[i] == p[i]); let q = choose|q: int| 0 <= q < k - 1 && (#[trigger] map_entries(m)[q]).0 == p[i]; assert(map_entries(m)[q].0 == s[i]); } else { assert(map_entries(m)[k - 1].0 == s[i]); }
            }
        }
        assert forall|j: int| 0 <= j < k && is_used(g, m, sol, #[trigger] map_entries(m)[j].0) implies s.contains(map_entries(m)[j].0) by {
            if j < k - 1 { assert(p.contains(map_entries(m)[j].0)); let i = choose|i: int| 0 <= i < p.len() && p[i] == map_entries(m)[j].0; assert(s[i] == map_entries(m)[j].0); }
        }
    }
}
/// the edges read back are exactly the used edges, each once
pub proof fn used_edges_exact(g: Graph, m: Map<int, int>, sol: int)
    requires m.dom().finite()
    ensures used_edges(g, m, sol).no_duplicates(), forall|e: int| #[trigger] used_edges(g, m, sol).contains(e) <==> is_used(g, m, sol, e)
{
    axiom_map_entries(m); used_upto_prop(g, m, sol, map_entries(m).len() as int);
    let s = used_edges(g, m, sol);
    assert forall|e: int| #[trigger] s.contains(e) <==> is_used(g, m, sol, e) by {
        if is_used(g, m, sol, e) { let j = choose|j: int| 0 <= j < map_entries(m).len() && #[trigger] map_entries(m)[j] == (e, m[e]); assert(is_used(g, m, sol, map_entries(m)[j].0)); assert(s.contains(map_entries(m)[j].0)); }
        if s.contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(is_used(g, m, sol, s[i])); }
    }
}
'''
C = {
 'isVarPositive': [dict(params=['scip', 'sol', 'var'], ensures=[('positive and not zero within the tolerance', '$ret == var_pos($sol, $var)')])],
 'getSolutionEdges': [dict(params=['scip', 'graph', 'sol', 'edge_variable_map', 'add_self_loops'],
    ensures=[('exactly the used edges in map order', '$ret == used_edges($graph, $edge_variable_map, $sol)'),
             ('each used edge once and nothing else', '$ret.no_duplicates() && forall|e: int| #[trigger] $ret.contains(e) <==> is_used($graph, $edge_variable_map, $sol, e)')],
    locals=[('solution_edges', 'Seq<int>')],
    loops=[dict(kind='range', inv=['$solution_edges == used_upto($graph, $edge_variable_map, $sol, $it)'])],
    hints={'loop1.body': 'proof { reveal_with_fuel(used_upto, 2); }', 'return': 'proof { used_edges_exact($graph, $edge_variable_map, $sol); } assert($retval == used_edges($graph, $edge_variable_map, $sol));'})],
}
