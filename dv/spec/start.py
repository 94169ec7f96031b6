"""Starting solutions: shared by C29 and the whole model."""
from ..run import Unit
from ..ir import E
from ..cxx import LV
from .. import scip
STR = {k: list(v) for k, v in scip.STRUCTS.items()}
STR['HSol'] = [('val', 'Map<int, real>'), ('heur', 'int'), ('added', 'bool')]
STR['Scip'] = STR['Scip'] + [('sols', 'Seq<HSol>')]
EXTRA = r'''
// ---- starting solutions
pub open spec fn endp(g: Graph, e: int, v: int) -> bool { g.es[e].0 == v || g.es[e].1 == v }
pub open spec fn touch_in(g: Graph, w: Seq<int>, a: int, b: int, v: int) -> bool { exists|i: int| a <= i < b && endp(g, #[trigger] w[i], v) }
pub open spec fn edges_in(g: Graph, w: Seq<int>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> 0 <= #[trigger] w[i] < g.es.len() }
/// every variable of the list set to one
pub open spec fn ones(vs: Seq<int>, k: int) -> Map<int, real> decreases k { if k <= 0 { Map::empty() } else { ones(vs, k - 1).insert(vs[k - 1], 1real) } }
pub proof fn lemma_ones(vs: Seq<int>, k: int)
    requires 0 <= k <= vs.len()
    ensures forall|x: int| #[trigger] ones(vs, k).dom().contains(x) <==> (exists|i: int| 0 <= i < k && #[trigger] vs[i] == x), forall|x: int| ones(vs, k).dom().contains(x) ==> #[trigger] ones(vs, k)[x] == 1real
    decreases k
{ if k > 0 { lemma_ones(vs, k - 1);
    assert forall|x: int| #[trigger] ones(vs, k).dom().contains(x) <==> (exists|i: int| 0 <= i < k && #[trigger] vs[i] == x) by { if ones(vs, k - 1).dom().contains(x) { let i = choose|i: int| 0 <= i < k - 1 && #[trigger] vs[i] == x; assert(vs[i] == x); } if x == vs[k - 1] { } } } }
pub open spec fn is_ones(m: Map<int, real>, vs: Seq<int>) -> bool { (forall|x: int| #[trigger] m.dom().contains(x) <==> vs.contains(x)) && forall|x: int| m.dom().contains(x) ==> #[trigger] m[x] == 1real }
/// one more candidate solution, handed over
pub open spec fn one_more(a: Scip, b: Scip, heur: int, vs: Seq<int>) -> bool {
    &&& b == (Scip { sols: b.sols, ..a }) &&& b.sols.len() == a.sols.len() + 1 &&& b.sols.take(a.sols.len() as int) == a.sols &&& b.sols.last().added &&& b.sols.last().heur == heur &&& is_ones(b.sols.last().val, vs)
}
/// the variables that are one: those of the edges w[a..b] and of the vertices they touch
pub open spec fn in_start(g: Graph, m: Map<int, int>, w: Seq<int>, a: int, b: int, x: int) -> bool {
    (exists|i: int| a <= i < b && mget(m, #[trigger] w[i], 0) == x) || (exists|v: int| #[trigger] touch_in(g, w, a, b, v) && mget(m, g_edge(g, v, v).0, 0) == x)
}
pub open spec fn new_start(a: Seq<HSol>, b: Seq<HSol>, heur: int, g: Graph, m: Map<int, int>, w: Seq<int>, lo: int, hi: int) -> bool {
    &&& b.len() == a.len() + 1 &&& b.take(a.len() as int) == a &&& b.last().added &&& b.last().heur == heur
    &&& (forall|x: int| #[trigger] b.last().val.dom().contains(x) <==> in_start(g, m, w, lo, hi, x)) &&& (forall|x: int| b.last().val.dom().contains(x) ==> #[trigger] b.last().val[x] == 1real)
}
pub open spec fn is_start(a: Scip, b: Scip, heur: int, g: Graph, m: Map<int, int>, w: Seq<int>, lo: int, hi: int) -> bool { b == (Scip { sols: b.sols, ..a }) && new_start(a.sols, b.sols, heur, g, m, w, lo, hi) }
pub open spec fn loops_ok(g: Graph, w: Seq<int>, a: int, b: int) -> bool { forall|v: int| #[trigger] touch_in(g, w, a, b, v) ==> has_edge(g, v, v) }
pub open spec fn vars_ok(m: Map<int, int>, w: Seq<int>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> mget(m, #[trigger] w[i], 0) != 0 }
pub open spec fn loop_vars_ok(g: Graph, m: Map<int, int>, w: Seq<int>, a: int, b: int) -> bool { forall|v: int| #[trigger] touch_in(g, w, a, b, v) ==> mget(m, g_edge(g, v, v).0, 0) != 0 }
pub open spec fn pairs_ok(g: Graph, w: Seq<(int, int)>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> has_edge(g, (#[trigger] w[i]).0, w[i].1) }
/// the edge of every pair, in order
pub open spec fn is_edges_of(g: Graph, w: Seq<(int, int)>, es: Seq<int>) -> bool { es.len() == w.len() && forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] == g_edge(g, w[i].0, w[i].1).0 }
pub open spec fn ends_are(g: Graph, w: Seq<int>, a: int, b: int, vv: Seq<int>) -> bool { forall|v: int| #[trigger] vv.contains(v) <==> touch_in(g, w, a, b, v) }
pub proof fn lemma_loops(g: Graph, w: Seq<int>, a: int, b: int, vv: Seq<int>)
    requires ends_are(g, w, a, b, vv)
    ensures loops_ok(g, w, a, b) <==> (forall|i: int| 0 <= i < vv.len() ==> has_edge(g, #[trigger] vv[i], vv[i]))
{
    if loops_ok(g, w, a, b) { assert forall|i: int| 0 <= i < vv.len() implies has_edge(g, #[trigger] vv[i], vv[i]) by { assert(vv.contains(vv[i])); assert(touch_in(g, w, a, b, vv[i])); } }
    if forall|i: int| 0 <= i < vv.len() ==> has_edge(g, #[trigger] vv[i], vv[i]) { assert forall|v: int| #[trigger] touch_in(g, w, a, b, v) implies has_edge(g, v, v) by { assert(vv.contains(v)); let i = choose|i: int| 0 <= i < vv.len() && vv[i] == v; assert(has_edge(g, vv[i], vv[i])); } }
}
pub proof fn lemma_loop_vars(g: Graph, m: Map<int, int>, w: Seq<int>, a: int, b: int, vv: Seq<int>, sl: Seq<int>)
    requires ends_are(g, w, a, b, vv), sl.len() == vv.len(), forall|i: int| 0 <= i < sl.len() ==> #[trigger] sl[i] == g_edge(g, vv[i], vv[i]).0
    ensures loop_vars_ok(g, m, w, a, b) <==> vars_ok(m, sl, 0, sl.len() as int)
{
    if loop_vars_ok(g, m, w, a, b) { assert forall|i: int| 0 <= i < sl.len() implies mget(m, #[trigger] sl[i], 0) != 0 by { assert(vv.contains(vv[i])); assert(touch_in(g, w, a, b, vv[i])); } }
    if vars_ok(m, sl, 0, sl.len() as int) { assert forall|v: int| #[trigger] touch_in(g, w, a, b, v) implies mget(m, g_edge(g, v, v).0, 0) != 0 by { assert(vv.contains(v)); let i = choose|i: int| 0 <= i < vv.len() && vv[i] == v; assert(sl[i] == g_edge(g, vv[i], vv[i]).0); } }
}
pub proof fn lemma_start(g: Graph, m: Map<int, int>, w: Seq<int>, a: int, b: int, vv: Seq<int>, sl: Seq<int>, vs: Seq<int>, x: int)
    requires ends_are(g, w, a, b, vv), a <= b, sl.len() == vv.len(), forall|i: int| 0 <= i < sl.len() ==> #[trigger] sl[i] == g_edge(g, vv[i], vv[i]).0, vs.len() == b - a + sl.len(),
        forall|i: int| 0 <= i < b - a ==> #[trigger] vs[i] == mget(m, w[a + i], 0), forall|i: int| 0 <= i < sl.len() ==> vs[b - a + i] == mget(m, #[trigger] sl[i], 0)
    ensures vs.contains(x) <==> in_start(g, m, w, a, b, x)
{
    if vs.contains(x) { let q = choose|q: int| 0 <= q < vs.len() && vs[q] == x;
        if q < b - a { assert(mget(m, w[a + q], 0) == x); } else { let i = q - (b - a); assert(vs[b - a + i] == mget(m, sl[i], 0)); assert(sl[i] == g_edge(g, vv[i], vv[i]).0); assert(vv.contains(vv[i])); assert(touch_in(g, w, a, b, vv[i])); } }
    if in_start(g, m, w, a, b, x) {
        if exists|i: int| a <= i < b && mget(m, #[trigger] w[i], 0) == x { let i = choose|i: int| a <= i < b && mget(m, #[trigger] w[i], 0) == x; let q = i - a; assert(w[a + q] == w[i]); assert(vs[q] == x); }
        else { let v = choose|v: int| #[trigger] touch_in(g, w, a, b, v) && mget(m, g_edge(g, v, v).0, 0) == x; assert(vv.contains(v)); let i = choose|i: int| 0 <= i < vv.len() && vv[i] == v; assert(sl[i] == g_edge(g, vv[i], vv[i]).0); assert(vs[b - a + i] == x); }
    }
}
'''
PRELUDE = scip.PRELUDE + EXTRA
S, fld, entry, OK = scip.S, scip.fld, scip.entry, scip.OK
def sols(sc): return sc.sub(('fld', 'sols', 'Scip'), 'Seq<HSol>')
def create_sol(self, a, n):
    s = sols(S(self, a[0])); h = self.expr(a[2]).s
    self.write(s, f'{s.read()}.push(HSol {{ val: Map::<int, real>::empty(), heur: {h}, added: false }})'); scip.out(self, a[1], f'({s.read()}.len() as int)'); return OK()
def set_val(self, a, n):
    v = entry(self, sols(S(self, a[0])), self.expr(a[1]).s, 'solution').sub(('fld', 'val', 'HSol'), 'Map<int, real>')
    self.write(v, f'{v.read()}.insert({self.expr(a[2]).s}, {scip.real(self, a[3])})'); return OK()
def add_sol(self, a, n):
    s = entry(self, sols(S(self, a[0])), self.expr(a[1]).s, 'solution').sub(('fld', 'added', 'HSol'), 'bool')
    self.write(s, 'true'); scip.out(self, a[1], '0int'); scip.out(self, a[2], 'arbitrary::<bool>()', 'bool'); return OK()
def keep(*ps): return ' && '.join(f'$out({p}) == ${p}' for p in ps)
CALLS = {**scip.CALLS, 'SCIPcreateSol': create_sol, 'SCIPsetSolVal': set_val, 'SCIPaddSolFree': add_sol, 'SCIPaddSol': add_sol}
CON = {
 'getVerticesOfEdges': [dict(params=['graph', 'first', 'last'], requires=['0 <= $first <= $last <= $rng.len()', 'edges_in($graph, $rng, $first, $last)'],
    ensures=[('each end of the edges once', '$ret.no_duplicates() && forall|v: int| #[trigger] $ret.contains(v) <==> touch_in($graph, $rng, $first, $last, v)'), '$out(first) == $last', keep('graph')],
    locals=[('vertex_set', 'Set<int>'), ('vertex_vector', 'Seq<int>'), ('i', 'int')],
    loops=[dict(kind='while', inv=['$in_first <= $first <= $last', '$vertex_set.finite()', 'forall|v: int| #[trigger] $vertex_set.contains(v) <==> touch_in($graph, $rng, $in_first, $first, v)'], dec='$last - $first'),
           dict(kind='range', inv=['$i == $it', '$vertex_vector.len() == $vertex_set.len()', '$seq == sset_seq($vertex_set)', '$seq.len() == $vertex_set.len()', 'forall|j: int| 0 <= j < $it ==> #[trigger] $vertex_vector[j] == $seq[j]'])],
    hints={'loop1.end': '''proof { let f = $first - 1; assert forall|v: int| #[trigger] $vertex_set.contains(v) <==> touch_in($graph, $rng, $in_first, $first, v) by {
              if touch_in($graph, $rng, $in_first, f, v) { let i = choose|i: int| $in_first <= i < f && endp($graph, #[trigger] $rng[i], v); assert(endp($graph, $rng[i], v)); }
              if endp($graph, $rng[f], v) { assert(touch_in($graph, $rng, $in_first, $first, v)); } } }''',
       'loop2.before': 'proof { axiom_sset_seq($vertex_set); }',
       'return': '''proof { axiom_sset_seq($vertex_set); assert($retval =~= sset_seq($vertex_set)); assert forall|v: int| #[trigger] $retval.contains(v) <==> touch_in($graph, $rng, $in_first, $last, v) by { assert($vertex_set.contains(v) <==> $retval.contains(v)); } }'''})],
 'getSelfLoops': [dict(sig=['Graph', 'iter', 'iter'], params=['graph', 'first', 'last'], emit='self_loops_it', requires=['0 <= $first <= $last <= $rng.len()'],
    ensures=[('error exactly when a self loop is missing', '$exc == (if forall|i: int| $first <= i < $last ==> has_edge($graph, #[trigger] $rng[i], $rng[i]) { 0 } else { EXC_NoSelfLoopFoundException() })'),
             ('the self loop of every vertex, aligned', '$exc == 0 ==> $ret.len() == $last - $first && forall|i: int| 0 <= i < $ret.len() ==> #[trigger] $ret[i] == g_edge($graph, $rng[$first + i], $rng[$first + i]).0'), ('the range is consumed', '$exc == 0 ==> $out(first) == $last'), keep('graph')],
    locals=[('n_vertices', 'int'), ('edges', 'Seq<int>'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $n_vertices', '$n_vertices == $last - $in_first', '$first == $in_first + $i', '$edges.len() == $n_vertices', 'forall|j: int| 0 <= j < $i ==> #[trigger] $edges[j] == g_edge($graph, $rng[$in_first + j], $rng[$in_first + j]).0', 'forall|j: int| $in_first <= j < $first ==> has_edge($graph, #[trigger] $rng[j], $rng[j])'], dec='$n_vertices - $i')],
    hints={'loop1.body': 'proof { lemma_g_edge($graph, $rng[$first], $rng[$first]); }'})],
 'getEdgeVariables': [dict(sig=['Scip', 'Graph', 'Map<int, int>', 'iter', 'iter'], params=['scip', 'graph', 'edge_variable_map', 'first', 'last'], emit='edge_vars_it',
    requires=['0 <= $first <= $last <= $rng.len()'],
    ensures=[('error exactly when an edge has no variable', '$exc == (if vars_ok($edge_variable_map, $rng, $first, $last) { 0 } else { EXC_VariableIsNullException() })'),
             ('the variable of every edge, aligned', '$exc == 0 ==> $ret.len() == $last - $first && (forall|i: int| 0 <= i < $ret.len() ==> #[trigger] $ret[i] == mget($edge_variable_map, $rng[$first + i], 0)) && $out(edge_variable_map) == $edge_variable_map'), ('the range is consumed', '$exc == 0 ==> $out(first) == $last'), keep('graph', 'scip')],
    locals=[('n_edges', 'int'), ('variables', 'Seq<int>'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $n_edges', '$n_edges == $last - $in_first', '$first == $in_first + $i', '$variables.len() == $n_edges', '$edge_variable_map == $in_edge_variable_map', 'forall|j: int| 0 <= j < $i ==> #[trigger] $variables[j] == mget($edge_variable_map, $rng[$in_first + j], 0)', 'vars_ok($edge_variable_map, $rng, $in_first, $first)'], dec='$n_edges - $i')])],
 'addHeuristicVarsToSolver': [dict(params=['scip', 'heur', 'vars'],
    ensures=['$ret == 1', ('one solution handed over: exactly the given variables are one', 'one_more($scip, $out(scip), $heur, $vars)')],
    locals=[('sol', 'int')],
    loops=[dict(kind='range', inv=['$seq == $vars', '$sol == $in_scip.sols.len() + 1', '$scip == (Scip { sols: $in_scip.sols.push(HSol { val: ones($vars, $it as int), heur: $heur, added: false }), ..$in_scip })'])],
    hints={'loop1.end': 'proof { assert($scip.sols =~= $in_scip.sols.push(HSol { val: ones($vars, $it as int), heur: $heur, added: false })); }',
       'loop1.after': 'proof { lemma_ones($vars, $vars.len() as int); }',
       'return': 'proof { assert($scip.sols.take($in_scip.sols.len() as int) =~= $in_scip.sols); let o = $scip.sols.last().val; assert(o == ones($vars, $vars.len() as int)); assert forall|x: int| #[trigger] o.dom().contains(x) <==> $vars.contains(x) by { } }'})],
 'addHeuristicEdgesToSolver': [dict(params=['scip', 'graph', 'heur', 'edge_variable_map', 'first', 'last'],
    requires=['0 <= $first <= $last <= $rng.len()', 'edges_in($graph, $rng, $first, $last)', 'simple($graph)'],
    ensures=[('errors: a missing self loop or variable', '$exc == (if !loops_ok($graph, $rng, $first, $last) { EXC_NoSelfLoopFoundException() } else if !(loop_vars_ok($graph, $edge_variable_map, $rng, $first, $last) && vars_ok($edge_variable_map, $rng, $first, $last)) { EXC_VariableIsNullException() } else { 0 })'),
             ('on an error nothing is handed over', '$exc != 0 ==> $out(scip) == $scip'),
             ('one solution: exactly the edges and the vertices they touch are one', '$exc == 0 ==> $ret == 1 && is_start($scip, $out(scip), $heur, $graph, $edge_variable_map, $rng, $first, $last)'), ('the map of variables is not changed', '$exc == 0 ==> $out(edge_variable_map) == $edge_variable_map'), keep('graph')],
    locals=[('vertex_vector', 'Seq<int>'), ('self_loops', 'Seq<int>'), ('vars_of_self_loops', 'Seq<int>'), ('vars_of_edges', 'Seq<int>')],
    hints={'decl:vertex_vector': 'proof { lemma_loops($graph, $rng, $in_first, $last, $vertex_vector); }',
       'decl:self_loops': 'proof { lemma_loop_vars($graph, $edge_variable_map, $rng, $in_first, $last, $vertex_vector, $self_loops); }',
       'return': 'proof { assert forall|x: int| #[trigger] $scip.sols.last().val.dom().contains(x) <==> in_start($graph, $in_edge_variable_map, $rng, $in_first, $last, x) by { lemma_start($graph, $in_edge_variable_map, $rng, $in_first, $last, $vertex_vector, $self_loops, $vars_of_edges, x); assert($scip.sols.last().val.dom().contains(x) <==> $vars_of_edges.contains(x)); } }'})],
 'edgesFromVertexPairs': [
    dict(sig=['Graph', 'iter', 'iter'], params=['graph', 'first', 'last'], emit='pairs_to_edges_it', requires=['0 <= $first <= $last <= $rng.len()'],
     ensures=[('error exactly when a pair is not an edge', '$exc == (if pairs_ok($graph, $rng, $first, $last) { 0 } else { EXC_EdgeNotFoundException() })'),
             ('the edge of every pair, in order', '$exc == 0 ==> $ret.len() == $last - $first && forall|i: int| 0 <= i < $ret.len() ==> #[trigger] $ret[i] == g_edge($graph, $rng[$first + i].0, $rng[$first + i].1).0'), keep('graph')],
     locals=[('n_edges', 'int'), ('edge_vector', 'Seq<int>'), ('i', 'int')],
     loops=[dict(kind='for', inv=['0 <= $i <= $n_edges', '$n_edges == $last - $in_first', '$first == $in_first + $i', '$edge_vector.len() == $n_edges', 'forall|j: int| 0 <= j < $i ==> #[trigger] $edge_vector[j] == g_edge($graph, $rng[$in_first + j].0, $rng[$in_first + j].1).0', 'pairs_ok($graph, $rng, $in_first, $first)'], dec='$n_edges - $i')],
     hints={'loop1.body': 'proof { let p = $rng[$first]; lemma_g_edge($graph, p.0, p.1); }'}),
    dict(sig=['Graph', 'Seq<(int, int)>'], params=['graph', 'vertex_pairs'], emit='pairs_to_edges',
     ensures=[('error exactly when a pair is not an edge', '$exc == (if pairs_ok($graph, $vertex_pairs, 0, $vertex_pairs.len() as int) { 0 } else { EXC_EdgeNotFoundException() })'),
             ('the edge of every pair, in order', '$exc == 0 ==> is_edges_of($graph, $vertex_pairs, $ret)'), keep('graph', 'vertex_pairs')],
     locals=[('first', 'iter'), ('last', 'iter')])],
}
