"""The integer program without subtour elimination."""
from ..run import Unit
from ..ir import E
from .. import scip
STR = {k: list(v) for k, v in scip.STRUCTS.items()}
STR['Scip'] = STR['Scip'] + [('objsense', 'int')]
PRELUDE = scip.PRELUDE + r'''
// ---- variables
pub open spec fn evar(c: int) -> SVar { SVar { lb: 0real, ub: 1real, obj: c as real, vtype: 0, added: true } }
pub open spec fn evars(cost: Map<int, int>, k: int) -> Seq<SVar> { Seq::new(k as nat, |i: int| evar(cost[i])) }
pub open spec fn put_vars(m: Map<int, int>, base: int, k: int) -> Map<int, int> decreases k { if k <= 0 { m } else { put_vars(m, base, k - 1).insert(k - 1, base + k) } }
pub proof fn lemma_put_vars(m: Map<int, int>, base: int, k: int)
    requires 0 <= k
    ensures forall|e: int| #[trigger] put_vars(m, base, k).dom().contains(e) <==> (m.dom().contains(e) || 0 <= e < k), m.dom().finite() ==> put_vars(m, base, k).dom().finite(),
        forall|e: int| 0 <= e < k ==> #[trigger] put_vars(m, base, k)[e] == base + e + 1, forall|e: int| !(0 <= e < k) ==> #[trigger] put_vars(m, base, k)[e] == m[e]
    decreases k
{ if k > 0 { lemma_put_vars(m, base, k - 1); } }
// ---- weights by variable
/// the keys are the addresses of the names: every variable keeps its name in storage of its own
#[verifier::external_body] pub proof fn axiom_names() ensures forall|a: int, b: int| #[trigger] var_name(a) == #[trigger] var_name(b) ==> a == b {}
pub open spec fn inj(m: Map<int, int>) -> bool { forall|e: int, f: int| #[trigger] m.dom().contains(e) && #[trigger] m.dom().contains(f) && m[e] == m[f] ==> e == f }
pub open spec fn wmap(m: Map<int, int>, w: Map<int, int>, k: int) -> Map<int, int> decreases k { if k <= 0 { Map::empty() } else { wmap(m, w, k - 1).insert(var_name(map_entries(m)[k - 1].1), mget(w, map_entries(m)[k - 1].0, 0)) } }
pub open spec fn weights_ok(nw: Map<int, int>, m: Map<int, int>, w: Map<int, int>) -> bool { forall|e: int| #[trigger] m.dom().contains(e) ==> nw.dom().contains(var_name(m[e])) && nw[var_name(m[e])] == mget(w, e, 0) }
pub proof fn lemma_wmap(m: Map<int, int>, w: Map<int, int>, k: int)
    requires 0 <= k <= map_entries(m).len(), m.dom().finite(), inj(m)
    ensures forall|i: int| 0 <= i < k ==> wmap(m, w, k).dom().contains(var_name((#[trigger] map_entries(m)[i]).1)) && wmap(m, w, k)[var_name(map_entries(m)[i].1)] == mget(w, map_entries(m)[i].0, 0)
    decreases k
{
    axiom_names(); axiom_map_entries(m);
    if k > 0 {
        lemma_wmap(m, w, k - 1);
        assert forall|i: int| 0 <= i < k implies wmap(m, w, k).dom().contains(var_name((#[trigger] map_entries(m)[i]).1)) && wmap(m, w, k)[var_name(map_entries(m)[i].1)] == mget(w, map_entries(m)[i].0, 0) by {
            if i < k - 1 { let a = map_entries(m)[i]; let b = map_entries(m)[k - 1]; assert(a.0 != b.0); assert(m.dom().contains(a.0) && m.dom().contains(b.0)); assert(m[a.0] == a.1 && m[b.0] == b.1); assert(a.1 != b.1); assert(var_name(a.1) != var_name(b.1)); }
        }
    }
}
pub proof fn lemma_weights(m: Map<int, int>, w: Map<int, int>)
    requires m.dom().finite(), inj(m)
    ensures weights_ok(wmap(m, w, map_entries(m).len() as int), m, w)
{
    axiom_map_entries(m); let n = map_entries(m).len() as int; lemma_wmap(m, w, n);
    assert forall|e: int| #[trigger] m.dom().contains(e) implies wmap(m, w, n).dom().contains(var_name(m[e])) && wmap(m, w, n)[var_name(m[e])] == mget(w, e, 0) by { let i = choose|i: int| 0 <= i < map_entries(m).len() && #[trigger] map_entries(m)[i] == (e, m[e]); assert(map_entries(m)[i].1 == m[e]); }
}
// ---- constraints
/// enforced, checked, valid everywhere, complete
pub open spec fn model_flags(f: Seq<bool>) -> bool { f.len() == 10 && f[2] && f[3] && !f[5] && !f[6] }
pub open spec fn lin(c: Cons, lhs: real, rhs: real, co: Seq<(int, real)>) -> bool { c.added && c.lhs == lhs && c.rhs == rhs && c.co == co && model_flags(c.flags) }
/// - sum of weight x variable <= -quota; nw gives the weight of the variable with that name
pub open spec fn prize_co(nw: Map<int, int>, k: int) -> Seq<(int, real)> { Seq::new(k as nat, |i: int| (i + 1, (-mget(nw, var_name(i + 1), 0)) as real)) }
pub open spec fn knap_co(w: Map<int, int>, k: int) -> Seq<(int, real)> { Seq::new(k as nat, |i: int| (i + 1, (-w[i]) as real)) }
pub open spec fn grows(a: Scip, b: Scip, k: int) -> bool { b.conss.len() == a.conss.len() + k && b.conss.take(a.conss.len() as int) == a.conss && b == (Scip { conss: b.conss, ..a }) }
/// the edges below k at v other than self loops, in order
pub open spec fn star(g: Graph, v: int, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if (g.es[k - 1].0 == v) != (g.es[k - 1].1 == v) { star(g, v, k - 1).push(k - 1) } else { star(g, v, k - 1) }
}
pub open spec fn touches(g: Graph, v: int, e: int) -> bool { (g.es[e].0 == v) != (g.es[e].1 == v) }
pub proof fn star_exact(g: Graph, v: int, k: int)
    requires 0 <= k <= g.es.len()
    ensures forall|e: int| #[trigger] star(g, v, k).contains(e) <==> (0 <= e < k && touches(g, v, e)), star(g, v, k).no_duplicates(), forall|i: int| 0 <= i < star(g, v, k).len() ==> 0 <= #[trigger] star(g, v, k)[i] < k && touches(g, v, star(g, v, k)[i])
    decreases k
{
    if k > 0 {
        star_exact(g, v, k - 1); let p = star(g, v, k - 1); let q = star(g, v, k);
        assert forall|e: int| #[trigger] q.contains(e) <==> (0 <= e < k && touches(g, v, e)) by {
            if q.contains(e) { let i = choose|i: int| 0 <= i < q.len() && q[i] == e; if i < p.len() { assert(p[i] == e); assert(p.contains(e)); } }
            if 0 <= e < k && touches(g, v, e) { if e < k - 1 { assert(p.contains(e)); let i = choose|i: int| 0 <= i < p.len() && p[i] == e; assert(q[i] == e); } else { assert(q[p.len() as int] == e); } }
        }
    }
}
/// drop one edge from a list
pub open spec fn drop_edge(s: Seq<int>, l: int, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if s[k - 1] != l { drop_edge(s, l, k - 1).push(s[k - 1]) } else { drop_edge(s, l, k - 1) } }
pub proof fn drop_mono(s: Seq<int>, l: int, a: int, b: int)
    requires 0 <= a <= b
    ensures drop_edge(s, l, a).len() <= drop_edge(s, l, b).len() decreases b - a
{ if a < b { drop_mono(s, l, a, b - 1); } }
pub proof fn drop_prefix(s: Seq<int>, t: Seq<int>, l: int, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), s.take(k) == t.take(k)
    ensures drop_edge(s, l, k) == drop_edge(t, l, k) decreases k
{ if k > 0 { assert(s.take(k - 1) =~= s.take(k).take(k - 1)); assert(t.take(k - 1) =~= t.take(k).take(k - 1)); drop_prefix(s, t, l, k - 1); assert(s[k - 1] == s.take(k)[k - 1]); assert(t[k - 1] == t.take(k)[k - 1]); } }
/// the self loop occurs twice in the incidence list, every other incident edge once
pub proof fn star_drop(g: Graph, v: int, l: int, k: int)
    requires 0 <= k <= g.es.len(), simple(g), joins(g, l, v, v)
    ensures drop_edge(inc_upto(g, v, k), l, inc_upto(g, v, k).len() as int) == star(g, v, k), inc_upto(g, v, k).len() == star(g, v, k).len() + (if l < k { 2int } else { 0int })
    decreases k
{
    reveal_with_fuel(drop_edge, 3);
    if k > 0 {
        star_drop(g, v, l, k - 1); let p = inc_upto(g, v, k - 1); let q = inc_upto(g, v, k); let n = p.len() as int;
        assert(q.take(n) =~= p.take(n)); drop_prefix(q, p, l, n);
        let e = g.es[k - 1];
        if e.0 == v && e.1 == v { assert(joins(g, k - 1, v, v)); assert(l == k - 1); assert(drop_edge(q, l, n + 2) == drop_edge(q, l, n + 1)); }
        else if e.0 == v || e.1 == v { assert(l != k - 1); assert(drop_edge(q, l, n + 1) =~= star(g, v, k)); }
    }
}
pub proof fn inc_range(g: Graph, v: int, k: int)
    requires 0 <= k <= g.es.len()
    ensures forall|i: int| 0 <= i < inc_upto(g, v, k).len() ==> 0 <= #[trigger] inc_upto(g, v, k)[i] < k && (g.es[inc_upto(g, v, k)[i]].0 == v || g.es[inc_upto(g, v, k)[i]].1 == v)
    decreases k
{ if k > 0 { inc_range(g, v, k - 1); let p = inc_upto(g, v, k - 1); let q = inc_upto(g, v, k);
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < k && (g.es[q[i]].0 == v || g.es[q[i]].1 == v) by { if i < p.len() { assert(q[i] == p[i]); } } } }
/// looking an incident edge up by its other end gives the edge back
pub proof fn lookup_back(g: Graph, v: int, i: int)
    requires simple(g), 0 <= i < adj(g, v).len()
    ensures g_edge(g, v, adj(g, v)[i]) == (out_edge_seq(g, v)[i], true), 0 <= out_edge_seq(g, v)[i] < g.es.len()
{
    inc_range(g, v, g.es.len() as int); let e = out_edge_seq(g, v)[i]; let u = adj(g, v)[i]; assert(joins(g, e, v, u)); assert(has_edge(g, v, u)); lemma_g_edge(g, v, u);
    assert(joins(g, g_edge(g, v, u).0, v, u)); assert(joins(g, e, v, u));
}
pub open spec fn nloop(g: Graph, v: int) -> int { g_edge(g, v, v).0 }
/// sum of the non-loop edges at v minus twice the variable of v equals 0
pub open spec fn deg_co(g: Graph, m: Map<int, int>, v: int) -> Seq<(int, real)> { let s = star(g, v, g.es.len() as int); Seq::new(s.len() + 1, |i: int| if i == 0 { (m[nloop(g, v)], -2real) } else { (m[s[i - 1]], 1real) }) }
pub open spec fn is_degree(c: Cons, g: Graph, m: Map<int, int>, v: int) -> bool { lin(c, 0real, 0real, deg_co(g, m, v)) }
pub open spec fn all_loops(g: Graph, k: int) -> bool { forall|v: int| 0 <= v < k ==> #[trigger] has_edge(g, v, v) }
pub open spec fn vars_for(g: Graph, m: Map<int, int>) -> bool { forall|e: int| 0 <= e < g.es.len() ==> #[trigger] m.dom().contains(e) }
// ---- preprocessing
pub open spec fn with_loops(g: Graph, k: int) -> Graph { Graph { n: g.n, es: g.es + Seq::new(k as nat, |v: int| (v, v)) } }
pub open spec fn weight_of(g: Graph, p: Map<int, int>, e: int) -> int { if g.es[e].0 == g.es[e].1 { p[g.es[e].0] } else { 0 } }
pub open spec fn put_weights(g: Graph, p: Map<int, int>, w: Map<int, int>, k: int) -> Map<int, int> decreases k { if k <= 0 { w } else { put_weights(g, p, w, k - 1).insert(k - 1, weight_of(g, p, k - 1)) } }
pub proof fn lemma_put_weights(g: Graph, p: Map<int, int>, w: Map<int, int>, k: int)
    requires 0 <= k
    ensures forall|e: int| #[trigger] put_weights(g, p, w, k).dom().contains(e) <==> (w.dom().contains(e) || 0 <= e < k), forall|e: int| 0 <= e < k ==> #[trigger] put_weights(g, p, w, k)[e] == weight_of(g, p, e)
    decreases k
{ reveal_with_fuel(put_weights, 2); if k > 0 { lemma_put_weights(g, p, w, k - 1); assert(put_weights(g, p, w, k) == put_weights(g, p, w, k - 1).insert(k - 1, weight_of(g, p, k - 1))); } }
pub open spec fn zeroed(g: Graph, c: Map<int, int>, k: int) -> Map<int, int> decreases k { if k <= 0 { c } else if has_edge(g, k - 1, k - 1) { zeroed(g, c, k - 1).insert(nloop(g, k - 1), 0) } else { zeroed(g, c, k - 1) } }
pub proof fn lemma_zeroed(g: Graph, c: Map<int, int>, k: int)
    requires 0 <= k, simple(g)
    ensures forall|e: int| 0 <= e < g.es.len() ==> #[trigger] zeroed(g, c, k)[e] == (if g.es[e].0 == g.es[e].1 && 0 <= g.es[e].0 < k { 0 } else { c[e] })
    decreases k
{
    if k > 0 {
        lemma_zeroed(g, c, k - 1); lemma_g_edge(g, k - 1, k - 1); let z = zeroed(g, c, k - 1); assert(zeroed(g, c, k) == (if has_edge(g, k - 1, k - 1) { z.insert(nloop(g, k - 1), 0) } else { z }));
        assert forall|e: int| 0 <= e < g.es.len() implies #[trigger] zeroed(g, c, k)[e] == (if g.es[e].0 == g.es[e].1 && 0 <= g.es[e].0 < k { 0 } else { c[e] }) by {
            if g.es[e] == (k - 1, k - 1) { assert(joins(g, e, k - 1, k - 1)); assert(has_edge(g, k - 1, k - 1)); let f = nloop(g, k - 1); assert(joins(g, f, k - 1, k - 1)); assert(e == f); assert(zeroed(g, c, k)[e] == 0); }
            else if has_edge(g, k - 1, k - 1) { let f = nloop(g, k - 1); assert(joins(g, f, k - 1, k - 1)); assert(g.es[f] == (k - 1, k - 1)); assert(f != e); assert(zeroed(g, c, k)[e] == z[e]); } else { assert(zeroed(g, c, k)[e] == z[e]); }
        }
    }
}
// ---- the whole model
pub open spec fn is_model(a: Scip, b: Scip, g: Graph, cost: Map<int, int>, w: Map<int, int>, quota: int, root: int) -> bool {
    let n = a.conss.len() as int; let m = put_vars(Map::empty(), 0, g.es.len() as int);
    &&& b.objsense == 1 &&& b.vars == evars(cost, g.es.len() as int) &&& b.conss.len() == n + 2 + g.n &&& b.conss.take(n) == a.conss
    &&& lin(b.conss[n], -scip_infinity(), (-quota) as real, knap_co(w, g.es.len() as int))
    &&& lin(b.conss[n + 1], 1real, 1real, seq![(m[nloop(g, root)], 1real)])
    &&& forall|v: int| 0 <= v < g.n ==> is_degree(#[trigger] b.conss[n + 2 + v], g, m, v)
}
'''
def set_sense(self, a, n):
    s = scip.S(self, a[0]).sub(('fld', 'objsense', 'Scip'), 'int'); self.write(s, self.expr(a[1]).s); return E('1int', 'int')
def keep(*ps): return ' && '.join(f'$out({p}) == ${p}' for p in ps)
C = {**scip.BASE, '__structs__': STR, '__calls__': {**scip.CALLS, 'SCIPsetObjsense': set_sense},
 'addSelfLoopsToGraph': [dict(params=['graph'], requires=['$graph.n >= 0'], ensures=[('exactly one self loop more on every vertex', '$out(graph) == with_loops($graph, $graph.n)')],
    loops=[dict(kind='range', inv=['$graph == with_loops($in_graph, $it as int)', '$seq == vertex_seq($in_graph)'])],
    hints={'loop1.before': 'proof { assert(with_loops($graph, 0).es =~= $graph.es); }', 'loop1.end': 'proof { assert($graph.es =~= with_loops($in_graph, $it as int).es); }'})],
 'hasSelfLoopsOnAllVertices': [dict(params=['graph'], requires=['$graph.n >= 0'], ensures=[('exactly when every vertex has one', '$ret == all_loops($graph, $graph.n)'), keep('graph')],
    loops=[dict(kind='range', inv=['all_loops($graph, $it as int)'])])],
 'assignZeroCostToSelfLoops': [dict(params=['graph', 'cost_map'], requires=['$graph.n >= 0', 'wf($graph)', 'simple($graph)'], ensures=[('self loops cost zero, other costs stay', 'forall|e: int| 0 <= e < $graph.es.len() ==> #[trigger] $out(cost_map)[e] == (if $graph.es[e].0 == $graph.es[e].1 { 0 } else { $cost_map[e] })'), keep('graph')],
    loops=[dict(kind='range', inv=['$cost_map == zeroed($graph, $in_cost_map, $it as int)'])], hints={'loop1.after': 'proof { lemma_zeroed($graph, $in_cost_map, $graph.n); }'})],
 'putPrizeOntoEdgeWeights': [dict(params=['graph', 'prize_map', 'weight_map'], requires=['wf($graph)', 'simple($graph)'], ensures=[('self loops weigh the prize of their vertex, other edges nothing', '$out(weight_map) == put_weights($graph, $prize_map, $weight_map, $graph.es.len() as int)'), keep('graph', 'prize_map')],
    locals=[('ei', 'iter'), ('ei_end', 'iter')],
    loops=[dict(kind='for', inv=['0 <= $ei <= $graph.es.len()', '$ei_end == $graph.es.len()', '$weight_map == put_weights($graph, $prize_map, $in_weight_map, $ei)'], dec='$graph.es.len() - $ei')],
    hints={'loop1.body': 'proof { let s = e_src($graph, $ei); let t = e_tgt($graph, $ei); assert(joins($graph, $ei, s, t)); assert(has_edge($graph, s, t)); lemma_g_edge($graph, s, t); assert(joins($graph, g_edge($graph, s, t).0, s, t)); reveal_with_fuel(put_weights, 2); }'})],
 'PCTSPaddEdgeVariables': [dict(params=['scip', 'graph', 'cost_map', 'variable_map'], requires=['wf($graph)'],
    ensures=['$ret == 1', ('one added binary variable per edge with the cost of the edge', '$out(scip) == (Scip { vars: $scip.vars + evars($cost_map, $graph.es.len() as int), ..$scip })'), ('and the map names them', '$out(variable_map) == put_vars($variable_map, $scip.vars.len() as int, $graph.es.len() as int)'), keep('graph', 'cost_map')],
    loops=[dict(kind='range', inv=['$scip == (Scip { vars: $in_scip.vars + evars($cost_map, $it as int), ..$in_scip })', '$variable_map == put_vars($in_variable_map, $in_scip.vars.len() as int, $it as int)'])],
    hints={'loop1.before': 'proof { assert($scip.vars + evars($cost_map, 0) =~= $scip.vars); }', 'loop1.end': 'proof { assert($scip.vars =~= $in_scip.vars + evars($cost_map, $it as int)); reveal_with_fuel(put_vars, 2); }'})],
 'getVariableNameToWeightMap': [dict(params=['edge_variable_map', 'weight_map'], requires=['$edge_variable_map.dom().finite()'], ensures=['$ret == wmap($edge_variable_map, $weight_map, map_entries($edge_variable_map).len() as int)', ('every variable gets the weight of its edge', 'inj($edge_variable_map) ==> weights_ok($ret, $edge_variable_map, $weight_map)'), keep('edge_variable_map')],
    locals=[('variable_name_to_weight_map', 'Map<Str, int>'), ('it', 'iter')],
    loops=[dict(kind='for', inv=['0 <= $it <= map_entries($edge_variable_map).len()', '$variable_name_to_weight_map == wmap($edge_variable_map, $weight_map, $it)'], dec='map_entries($edge_variable_map).len() - $it')],
    hints={'loop1.body': 'proof { reveal_with_fuel(wmap, 2); }', 'return': 'proof { if inj($edge_variable_map) { lemma_weights($edge_variable_map, $weight_map); } }'})],
 'PCTSPaddPrizeConstraint': [dict(params=['scip', 'variable_map', 'weight_map', 'quota', 'num_edge_variables'], requires=['$variable_map.dom().finite()', 'inj($variable_map)', '0 <= $num_edge_variables <= $scip.vars.len()'],
    ensures=['$ret == 1', ('one constraint more', 'grows($scip, $out(scip), 1)'),
             ('minus the weights of the variables at most minus the quota', 'exists|nw: Map<int, int>| #[trigger] weights_ok(nw, $variable_map, $weight_map) && lin($out(scip).conss.last(), -scip_infinity(), (-$quota) as real, prize_co(nw, $num_edge_variables))'), keep('variable_map', 'weight_map')],
    locals=[('cons', 'int'), ('vars', 'Seq<int>'), ('variable_name_to_weight_map', 'Map<Str, int>'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $num_edge_variables', '$cons == $in_scip.conss.len() + 1', '$scip.conss.len() == $cons', '$scip == (Scip { conss: $in_scip.conss.push(Cons { lhs: -scip_infinity(), rhs: (-$quota) as real, co: prize_co($variable_name_to_weight_map, $i), flags: $scip.conss.last().flags, added: false }), ..$in_scip })', 'model_flags($scip.conss.last().flags)'], dec='$num_edge_variables - $i')],
    hints={'loop1.before': 'proof { assert($scip.conss.last().co =~= prize_co($variable_name_to_weight_map, 0)); assert($scip.conss =~= $in_scip.conss.push($scip.conss.last())); }',
           'loop1.end': 'proof { assert($scip.conss.last().co =~= prize_co($variable_name_to_weight_map, $i)); assert($scip.conss =~= $in_scip.conss.push($scip.conss.last())); }',
           'return': 'assert($scip.conss.take($in_scip.conss.len() as int) =~= $in_scip.conss); assert(weights_ok($variable_name_to_weight_map, $variable_map, $weight_map)); assert(lin($scip.conss.last(), -scip_infinity(), (-$quota) as real, prize_co($variable_name_to_weight_map, $num_edge_variables)));'})],
 'PCTSPaddRootVertexConstraint': [dict(params=['scip', 'edge_variable_map', 'root_self_loop'], requires=['$edge_variable_map.dom().contains($root_self_loop)'],
    ensures=['$ret == 1', ('one constraint more', 'grows($scip, $out(scip), 1)'), ('the root variable equals one', 'lin($out(scip).conss.last(), 1real, 1real, seq![($edge_variable_map[$root_self_loop], 1real)])')],
    locals=[('root_variable', 'int'), ('cons', 'int'), ('vars', 'Seq<int>'), ('values', 'Seq<real>')],
    hints={'return': 'assert($scip.conss.last().co =~= seq![($edge_variable_map[$root_self_loop], 1real)]); assert($scip.conss.take($in_scip.conss.len() as int) =~= $in_scip.conss); '})],
 'PCTSPaddDegreeTwoConstraint': [dict(params=['scip', 'graph', 'edge_variable_map'], requires=['wf($graph)', 'simple($graph)', 'vars_for($graph, $edge_variable_map)'],
    ensures=[('a missing self loop is an error', '$exc == (if all_loops($graph, $graph.n) { 0 } else { EXC_EdgeNotFoundException() })'), '$exc == 0 ==> $ret == 1 && grows($scip, $out(scip), $graph.n)',
             ('per vertex: non-loop edges equal twice the vertex variable', '$exc == 0 ==> forall|v: int| 0 <= v < $graph.n ==> is_degree(#[trigger] $out(scip).conss[$scip.conss.len() + v], $graph, $edge_variable_map, v)'), keep('graph', 'edge_variable_map')],
    locals=[('cons_count', 'int'), ('num_neighbors', 'int'), ('neighbor_index', 'int'), ('cons', 'int'), ('vars', 'Seq<int>'), ('coefs', 'Seq<real>')],
    loops=[dict(kind='range', inv=['all_loops($graph, $it as int)', 'grows($in_scip, $scip, $it as int)', 'forall|v: int| 0 <= v < $it ==> is_degree(#[trigger] $scip.conss[$in_scip.conss.len() + v], $graph, $edge_variable_map, v)']),
           dict(kind='range', inv=['$neighbor_index == 1 + drop_edge(out_edge_seq($graph, $vertex), nloop($graph, $vertex), $it as int).len()', '$vars.len() == $num_neighbors', '$coefs.len() == $num_neighbors', '$num_neighbors == adj($graph, $vertex).len() - 1', '$num_neighbors >= 1', '$vars[0] == $variable', '$coefs[0] == -2real',
                'forall|j: int| 1 <= j < $neighbor_index ==> #[trigger] $vars[j] == $edge_variable_map[drop_edge(out_edge_seq($graph, $vertex), nloop($graph, $vertex), $it as int)[j - 1]] && $coefs[j] == 1real'])],
    hints={'loop1.before': 'assert($scip.conss.take($in_scip.conss.len() as int) =~= $in_scip.conss);',
       'loop1.body': 'proof { let v = $it as int; if has_edge($graph, v, v) { lemma_g_edge($graph, v, v); star_drop($graph, v, nloop($graph, v), $graph.es.len() as int); } }',
       'loop2.body': 'proof { lookup_back($graph, $vertex, $it as int); reveal_with_fuel(drop_edge, 2); drop_mono(out_edge_seq($graph, $vertex), nloop($graph, $vertex), $it as int + 1, adj($graph, $vertex).len() as int); }',
       'loop2.end': 'proof { lookup_back($graph, $vertex, $it - 1); assert($edge_variable_map.dom().contains(out_edge_seq($graph, $vertex)[$it - 1])); let p = drop_edge(out_edge_seq($graph, $vertex), nloop($graph, $vertex), $it - 1); let q = drop_edge(out_edge_seq($graph, $vertex), nloop($graph, $vertex), $it as int); assert forall|j: int| 1 <= j < $neighbor_index implies #[trigger] $vars[j] == $edge_variable_map[q[j - 1]] && $coefs[j] == 1real by { if j - 1 < p.len() { assert(q[j - 1] == p[j - 1]); } } }',
       'loop1.end': 'proof { let c = $scip.conss.last(); assert(c.co =~= deg_co($graph, $edge_variable_map, $vertex)); assert($scip.conss.take($in_scip.conss.len() as int) =~= $in_scip.conss); }',
       })],
}
TU = '#include "../src/algorithms.cpp"\n#include "../src/preprocessing.cpp"\n' + r'''
void use(SCIP* s, PCTSPgraph& g, EdgeCostMap& c, VertexPrizeMap& p, std::map<PCTSPedge, int>& w, int& q, PCTSPvertex& r, std::map<PCTSPedge, SCIP_VAR*>& m) { hasSelfLoopsOnAllVertices(g); assignZeroCostToSelfLoops(g, c); putPrizeOntoEdgeWeights(g, p, w); PCTSPmodelWithoutSECs(s, g, c, w, q, r, m); }
'''
N = ['addSelfLoopsToGraph', 'hasSelfLoopsOnAllVertices', 'assignZeroCostToSelfLoops', 'putPrizeOntoEdgeWeights', 'PCTSPaddEdgeVariables', 'getVariableNameToWeightMap', 'PCTSPaddPrizeConstraint', 'PCTSPaddRootVertexConstraint', 'PCTSPaddDegreeTwoConstraint']
C['PCTSPmodelWithoutSECs'] = [dict(params=['scip', 'graph', 'cost_map', 'weight_map', 'quota', 'root_vertex', 'variable_map'],
    requires=['wf($graph)', 'simple($graph)', '$scip.vars.len() == 0', '$variable_map == Map::<int, int>::empty()', '0 <= $root_vertex < $graph.n', 'vars_for($graph, $weight_map)'],
    ensures=[('a missing self loop is an error', '$exc == (if all_loops($graph, $graph.n) { 0 } else { EXC_EdgeNotFoundException() })'),
             ('the model: variables, costs, quota, root and degree constraints and nothing else', '$exc == 0 ==> $ret == 1 && is_model($scip, $out(scip), $graph, $cost_map, $weight_map, $quota, $root_vertex)'),
             ('the map names the variable of every edge', '$exc == 0 ==> $out(variable_map) == put_vars(Map::empty(), 0, $graph.es.len() as int)'), keep('graph', 'weight_map'), ('nothing else in the solver changes', '$exc == 0 ==> $out(scip) == (Scip { vars: $out(scip).vars, conss: $out(scip).conss, objsense: $out(scip).objsense, ..$scip })')],
    locals=[('nvars', 'int')],
    hints={'decl:nvars': 'proof { lemma_put_vars(Map::empty(), 0, $graph.es.len() as int); assert($scip.vars =~= evars($cost_map, $graph.es.len() as int)); }',
       'return:7': '''proof { let n = $in_scip.conss.len() as int; let ne = $graph.es.len() as int; let m = put_vars(Map::empty(), 0, ne); let c = $scip.conss; lemma_put_vars(Map::empty(), 0, ne);
          let c3 = c.take(n + 2); let c2 = c3.take(n + 1); assert(c2.take(n) =~= c.take(n)); assert(c2.last() == c[n]); assert(c3.last() == c[n + 1]);
          let nw = choose|nw: Map<int, int>| #[trigger] weights_ok(nw, m, $weight_map) && lin(c2.last(), -scip_infinity(), (-$quota) as real, prize_co(nw, ne));
          assert forall|i: int| 0 <= i < ne implies mget(nw, var_name(i + 1), 0) == #[trigger] $weight_map[i] by { assert(m.dom().contains(i)); assert(m[i] == i + 1); assert($weight_map.dom().contains(i)); }
          assert(prize_co(nw, ne) =~= knap_co($weight_map, ne)); assert(has_edge($graph, $root_vertex, $root_vertex)); lemma_g_edge($graph, $root_vertex, $root_vertex); assert(mget(m, nloop($graph, $root_vertex), 0) == m[nloop($graph, $root_vertex)]); }'''})]
UNITS = [Unit('model', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in N + ['PCTSPmodelWithoutSECs']], prefetch=N + ['PCTSPmodelWithoutSECs'] + ['SCIP_Objsense', 'SCIP_Vartype', 'SCIP_OBJSENSE_MINIMIZE', 'SCIP_VARTYPE_BINARY'])]
from . import whole
UNITS.append(whole.unit('whole', whole.MODEL))
RUNTIME = [dict(kind='cxx', driver='c12.cpp', srcs=[s + '.cpp' for s in 'algorithms branching cost_cover cycle_cover data_structures event_handlers graph heuristic node_selection preprocessing sciputils separation solution stats subtour_elimination logger'.split()], libs=['-lyaml-cpp'], rule='random graphs on up to 8 vertices (with loops, without loops, with one loop missing; shuffled edge order; zero and negative prizes and costs), random quotas and roots: the model alone and the whole modelPrizeCollectingTSP; non-trivial: more edges than vertices')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['the graph is simple apart from one self loop per vertex, the solver holds no variables before the model is built and the edge variable map is empty',
   'names of variables are compared by address in the weight map: every variable keeps its name in storage of its own (what the solver does)', 'names of constraints are not specified',
   *whole.ASSUMPTIONS, 'the overload of modelPrizeCollectingTSP that takes lists of vertex pairs is checked at run time only (bounded)']
