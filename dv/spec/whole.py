"""modelPrizeCollectingTSP: the whole model, its settings and the starting solution (shared by C12 and C29)."""
from ..run import Unit
from ..ir import E, Unsupported
from ..cxx import str_const
from .. import scip
from . import c12, start
K = 'PCTSPconshdlrSubtour'
STR = {k: list(v) for k, v in start.STR.items()}
STR['SubtourCons'] = [('hdlr', 'int'), ('flags', 'Seq<bool>')]
STR['Scip'] = STR['Scip'] + [('objsense', 'int'), ('sechdlrs', f'Seq<{K}>'), ('probset', 'int'), ('presolve', 'int')]
PRELUDE = c12.PRELUDE + start.EXTRA + r'''
pub open spec fn no_loops(g: Graph) -> bool { forall|e: int| 0 <= e < g.es.len() ==> (#[trigger] g.es[e]).0 != g.es[e].1 }
/// the graph that is modelled: the given one, with one self loop per vertex added when they are missing
pub open spec fn looped(g: Graph) -> Graph { if all_loops(g, g.n) { g } else { with_loops(g, g.n) } }
pub proof fn lemma_with_loops(g: Graph)
    requires wf(g), simple(g), no_loops(g), g.n >= 0
    ensures wf(with_loops(g, g.n)), simple(with_loops(g, g.n)), all_loops(with_loops(g, g.n), g.n)
{
    let h = with_loops(g, g.n); let m = g.es.len() as int;
    assert forall|e: int| m <= e < h.es.len() implies #[trigger] h.es[e] == (e - m, e - m) by { }
    assert forall|e: int| 0 <= e < m implies #[trigger] h.es[e] == g.es[e] by { }
    assert forall|v: int| 0 <= v < g.n implies #[trigger] has_edge(h, v, v) by { assert(h.es[m + v] == (v, v)); assert(joins(h, m + v, v, v)); }
    assert forall|e: int, f: int, u: int, v: int| #[trigger] joins(h, e, u, v) && #[trigger] joins(h, f, u, v) implies e == f by {
        if e < m && f < m { assert(h.es[e] == g.es[e] && h.es[f] == g.es[f]); assert(joins(g, e, u, v)); assert(joins(g, f, u, v)); }
        else if e >= m && f >= m { assert(h.es[e] == (e - m, e - m) && h.es[f] == (f - m, f - m)); }
        else { let a = if e < m { e } else { f }; let b = if e < m { f } else { e }; assert(h.es[a] == g.es[a]); assert(h.es[b] == (b - m, b - m)); assert(g.es[a].0 != g.es[a].1); }
    }
}
/// the linear model of that graph, followed by one enforced and checked constraint of the subtour handler
pub open spec fn whole_model(a: Scip, b: Scip, g: Graph, cost: Map<int, int>, prize: Map<int, int>, quota: int, root: int) -> bool {
    exists|mid: Scip| #[trigger] is_model(a, mid, g, cost, put_weights(g, prize, Map::empty(), g.es.len() as int), quota, root) && b.vars == mid.vars && b.objsense == mid.objsense && b.conss.len() == mid.conss.len() + 1 && b.conss.take(mid.conss.len() as int) == mid.conss && is_subtour(b.conss.last())
}
pub open spec fn is_subtour(c: Cons) -> bool { c.added && c.rhs == 0real && c.lhs == subtour_mark() && model_flags(c.flags) }
/// constraints of the subtour handler are told from linear ones by this mark
pub uninterp spec fn subtour_mark() -> real;
/// every edge and loop of the modelled graph has a variable
pub proof fn lemma_heur(g: Graph, m: Map<int, int>, w: Seq<int>)
    requires edges_in(g, w, 0, w.len() as int), wf(g), all_loops(g, g.n), m == put_vars(Map::empty(), 0, g.es.len() as int)
    ensures loops_ok(g, w, 0, w.len() as int), vars_ok(m, w, 0, w.len() as int), loop_vars_ok(g, m, w, 0, w.len() as int)
{
    let n = w.len() as int; lemma_put_vars(Map::empty(), 0, g.es.len() as int);
    assert forall|v: int| #[trigger] touch_in(g, w, 0, n, v) implies has_edge(g, v, v) && mget(m, g_edge(g, v, v).0, 0) != 0 by {
        let i = choose|i: int| 0 <= i < n && endp(g, #[trigger] w[i], v); assert(0 <= w[i] < g.es.len()); assert(0 <= v < g.n); assert(has_edge(g, v, v)); lemma_g_edge(g, v, v); let f = g_edge(g, v, v).0; assert(joins(g, f, v, v)); assert(0 <= f < g.es.len()); assert(m.dom().contains(f));
    }
    assert forall|i: int| 0 <= i < n implies mget(m, #[trigger] w[i], 0) != 0 by { assert(m.dom().contains(w[i])); }
}
'''
def create_cons(self, a, n):
    """a constraint of a constraint handler: no linear part, its flags recorded"""
    cs = scip.fld(scip.S(self, a[0]), 'conss'); h = self.expr(a[3]).s
    self.ob(f'{h} != 0', 'the constraint handler exists')
    fl = 'seq![' + ', '.join(scip.boolean(self, x) for x in a[5:15]) + ']'
    self.write(cs, f'{cs.read()}.push(Cons {{ lhs: subtour_mark(), rhs: 0real, co: Seq::empty(), flags: {fl}, added: false }})'); scip.out(self, a[1], f'({cs.read()}.len() as int)'); return scip.OK()
def include_conshdlr(self, a, n):
    h = self.expr(a[1])
    if h.ty != K: raise Unsupported('constraint handler class ' + h.ty)
    f = scip.S(self, a[0]).sub(('fld', 'sechdlrs', 'Scip'), f'Seq<{K}>'); self.write(f, f'{f.read()}.push({h.s})'); return scip.OK()
def find_conshdlr(self, a, n):
    nm = self.expr(a[1]); f = scip.S(self, a[0]).sub(('fld', 'sechdlrs', 'Scip'), f'Seq<{K}>').read()
    return E(f'(if {f}.len() > 0 && {f}.last().hdlr_name == {nm.s} {{ {f}.len() as int }} else {{ 0int }})', 'int')
def create_prob(self, a, n):
    p = self.expr(a[2])
    if p.ty != 'ProbDataPCTSP': raise Unsupported('problem data of type ' + p.ty)
    sc = scip.S(self, a[0]); self.write(scip.fld(sc, 'probdata'), p.s); f = sc.sub(('fld', 'probset', 'Scip'), 'int'); self.write(f, f'{f.read()} + 1'); return scip.OK()
def base_init(self, this, args):
    if this.ty == 'ProbDataPCTSP': return
    if this.ty != K: raise Unsupported('base class of ' + this.ty)
    self.write(this.lv.sub(('fld', 'hdlr_name', K), 'Str'), self.expr(args[1]).s)
    self.write(this.lv.sub(('fld', 'sepafreq', K), 'int'), self.expr(args[6]).s)
def set_int(self, a, n):
    nm = self.expr(a[1])
    if nm.s != str_const('presolving/maxrounds'): raise Unsupported('integer parameter')
    f = scip.S(self, a[0]).sub(('fld', 'presolve', 'Scip'), 'int'); self.write(f, self.expr(a[2]).s); return scip.OK()
OPAQUE = ['includeBranchRules', 'includeNodeSelection', 'includeSeparation', 'includeHeuristics', 'SCIPincludeConshdlrLinear', 'SCIPincludeConshdlrIntegral', 'SCIPincludeConshdlrKnapsack', 'SCIPincludeConshdlrVarbound', 'SCIPincludeDefaultPlugins']
CALLS = {**start.CALLS, **c12.C['__calls__'], **{k: start.CALLS[k] for k in ('SCIPcreateSol', 'SCIPsetSolVal', 'SCIPaddSolFree', 'SCIPaddSol')}, **{k: scip.nothing for k in OPAQUE},
   'SCIPcreateCons': create_cons, 'SCIPincludeObjConshdlr': include_conshdlr, 'SCIPfindConshdlr': find_conshdlr, 'SCIPcreateObjProb': create_prob, 'SCIPsetIntParam': set_int}
G1 = 'looped($graph)'; C1 = '$out(cost_map)'
MODEL = [('self loops are added exactly when they are missing', f'$exc == 0 ==> $out(graph) == {G1}'),
  ('self loops that were added cost zero, given costs stay', f'$exc == 0 ==> forall|e: int| 0 <= e < {G1}.es.len() ==> #[trigger] {C1}[e] == (if {G1} != $graph && {G1}.es[e].0 == {G1}.es[e].1 {{ 0 }} else {{ $cost_map[e] }})'),
  ('the model of that graph and one subtour constraint', f'$exc == 0 ==> whole_model($scip, $out(scip), {G1}, {C1}, $prize_map, $quota, $root_vertex)'),
  ('one subtour handler with the given settings', '$exc == 0 ==> $out(scip).sechdlrs.len() == $scip.sechdlrs.len() + 1 && ({ let h = $out(scip).sechdlrs.last(); h.sec_disjoint_tour == $sec_disjoint_tour && h.sec_lp_gap_improvement_threshold == $sec_lp_gap_improvement_threshold && h.sec_maxflow_mincut == $sec_maxflow_mincut && h.sec_max_tailing_off_iterations == $sec_max_tailing_off_iterations && h.sepafreq == $sec_sepafreq && h.node_rolling_lp_gap.len() == 0 })'),
  ('presolving is off', '$exc == 0 ==> $out(scip).presolve == 0'),
  ('the problem data hold the graph, the root and the quota', f'$exc == 0 ==> $out(scip).probdata.graph_ == {G1} && $out(scip).probdata.root_vertex_ == $root_vertex && $out(scip).probdata.quota_ == $quota'),
  ('the variable of every edge is returned', f'$exc == 0 ==> $ret == put_vars(Map::empty(), 0, {G1}.es.len() as int)')]
HE = '$heuristic_edges'
START = [('without a start nothing is handed over', f'$exc == 0 && {HE}.len() == 0 ==> $out(scip).sols == $scip.sols'),
  ('the start is exactly the given edges and the vertices they touch', f'$exc == 0 && {HE}.len() > 0 ==> new_start($scip.sols, $out(scip).sols, 0, {G1}, $ret, {HE}, 0, {HE}.len() as int)')]
def unit(name, ensures):
    C = {**c12.C, **start.CON, '__structs__': STR, '__calls__': CALLS, '__base_init__': base_init, '__extra_fields__': {K: [('hdlr_name', 'Str'), ('sepafreq', 'int')]},
     'modelPrizeCollectingTSP': [dict(sig=lambda t: len(t) == 14, params=['scip', 'graph', 'heuristic_edges', 'cost_map', 'prize_map', 'quota', 'root_vertex', 'name', 'sec_disjoint_tour', 'sec_lp_gap_improvement_threshold', 'sec_maxflow_mincut', 'sec_max_tailing_off_iterations', 'sec_sepafreq', 'simple_rules_only'],
        requires=['wf($graph)', 'simple($graph)', '$graph.n >= 0', 'all_loops($graph, $graph.n) || no_loops($graph)', '$scip.vars.len() == 0', '0 <= $root_vertex < $graph.n', f'edges_in($graph, {HE}, 0, {HE}.len() as int)'],
        ensures=['$exc == 0'] + ensures,
        locals=[('edge_variable_map', 'Map<int, int>'), ('weight_map', 'Map<int, int>')],
        hints={'entry': 'proof { if !all_loops($graph, $graph.n) { lemma_with_loops($graph); } }',
          'decl:objprobdata': 'proof { lemma_put_weights($graph, $prize_map, Map::empty(), $graph.es.len() as int); lemma_put_vars(Map::empty(), 0, $graph.es.len() as int); }',
          'decl:conshdlr': 'let ghost mid = $scip;',
          'decl:first': 'proof { lemma_heur($graph, $edge_variable_map, $heuristic_edges); }',
          'return:3': 'proof { let gg = $in_graph; assert($scip.conss.take(mid.conss.len() as int) =~= mid.conss); assert(is_model($in_scip, mid, $graph, $cost_map, put_weights($graph, $prize_map, Map::empty(), $graph.es.len() as int), $quota, $root_vertex)); }'})]}
    return Unit(name, tu=TU, contracts=C, prelude=PRELUDE, roots=[('modelPrizeCollectingTSP', lambda n: len([p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == 14)], prefetch=c12.N + ['PCTSPmodelWithoutSECs', 'modelPrizeCollectingTSP', K, 'SCIP_Objsense', 'SCIP_Vartype', 'SCIP_OBJSENSE_MINIMIZE', 'SCIP_VARTYPE_BINARY'])
TU = '#include "../src/algorithms.cpp"\n#include "../src/preprocessing.cpp"\n#include "../src/subtour_elimination.cpp"\n'
ASSUMPTIONS = []
ASSUMPTIONS = ['including plug-ins of the solver (includeBranchRules, includeNodeSelection, includeSeparation, includeHeuristics, SCIPinclude*) changes neither variables, constraints nor candidate solutions',
   'the graph given to modelPrizeCollectingTSP has a self loop on every vertex or none at all, and the starting tour is made of its edges', 'the problem data keeps pointers to the caller\'s graph, root and quota; the values at the time of the call are recorded']
