from ..run import Unit
from ..ir import E, Unsupported, Hint
from ..cxx import LV
from .. import scip
from . import sec, sol
from .c09 import PRELUDE as P9, C as C9
SOLP = sol.PRELUDE[len(scip.PRELUDE):]
PRELUDE = sec.PRELUDE + SOLP + P9 + r'''
// ---- cost cover
pub open spec fn over_upto(d: Seq<int>, b: int, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if d[k - 1] > b { over_upto(d, b, k - 1).push(k - 1) } else { over_upto(d, b, k - 1) }
}
/// the vertices above the bound, each once
pub proof fn over_exact(d: Seq<int>, b: int, k: int)
    requires 0 <= k
    ensures forall|i: int| 0 <= i < over_upto(d, b, k).len() ==> 0 <= #[trigger] over_upto(d, b, k)[i] < k && d[over_upto(d, b, k)[i]] > b,
        forall|i: int, j: int| 0 <= i < j < over_upto(d, b, k).len() ==> over_upto(d, b, k)[i] < over_upto(d, b, k)[j],
        forall|v: int| 0 <= v < k && d[v] > b ==> #[trigger] over_upto(d, b, k).contains(v), over_upto(d, b, k).len() <= k
    decreases k
{
    if k > 0 {
        over_exact(d, b, k - 1); let p = over_upto(d, b, k - 1); let q = over_upto(d, b, k);
        assert forall|v: int| 0 <= v < k && d[v] > b implies #[trigger] q.contains(v) by { if v < k - 1 { assert(p.contains(v)); let i = choose|i: int| 0 <= i < p.len() && p[i] == v; assert(q[i] == v); } else { assert(q[p.len() as int] == v); } }
    }
}
pub open spec fn cover_flags() -> Seq<bool> { seq![true, true, true, true, true, false, false, false, true, false] }
/// sum of the variables at most their number minus one
pub open spec fn cover_cons(vs: Seq<int>) -> Cons { Cons { lhs: -scip_infinity(), rhs: (vs.len() - 1) as real, co: Seq::new(vs.len(), |i: int| (vs[i], 1real)), flags: cover_flags(), added: true } }
pub open spec fn with_cons(s: Scip, c: Cons) -> Scip { Scip { conss: s.conss.push(c), ..s } }
pub open spec fn cover_of(g: Graph, m: Map<int, int>, a: int, b: int) -> Cons { cover_cons(vars_of(m, loops_of(g, seq![a, b]))) }
/// the covers 'root + vertex <= 1' for the vertices, in order
pub open spec fn covers(g: Graph, m: Map<int, int>, root: int, vs: Seq<int>) -> Seq<Cons> { Seq::new(vs.len(), |i: int| cover_of(g, m, root, vs[i])) }
pub open spec fn with_covers(s: Scip, d: Seq<int>, b: int) -> Scip { Scip { conss: s.conss + covers(s.probdata.graph_, s.probdata.edge_variable_map_, s.probdata.root_vertex_, over_upto(d, b, s.probdata.graph_.n)), ..s } }
pub open spec fn n_over(s: Scip, d: Seq<int>, b: int) -> int { over_upto(d, b, s.probdata.graph_.n).len() as int }
pub open spec fn pd_ok(s: Scip) -> bool { model_ok(s.probdata.graph_, s.probdata.edge_variable_map_) && 0 <= s.probdata.root_vertex_ < s.probdata.graph_.n }
// ---- shortest paths (library): INT_MAX when there is no path
pub uninterp spec fn dijkstra(g: Graph, source: int) -> Seq<int>;
#[verifier::external_body] pub proof fn axiom_dijkstra(g: Graph, source: int) ensures dijkstra(g, source).len() == g.n {}
pub open spec fn doubled(d: Seq<int>) -> Seq<int> { Seq::new(d.len(), |i: int| if d[i] > 1073741823 { 2147483647 } else { 2 * d[i] }) }
// ---- components of the support (library)
pub open spec fn pos_pairs(g: Graph, m: Map<int, int>, s: int, k: int) -> Seq<(int, int)> decreases k { if k <= 0 { Seq::empty() } else if var_pos(s, m[k - 1]) { pos_pairs(g, m, s, k - 1).push(g.es[k - 1]) } else { pos_pairs(g, m, s, k - 1) } }
pub open spec fn support(g: Graph, m: Map<int, int>, s: int) -> Graph { Graph { n: g.n, es: pos_pairs(g, m, s, g.es.len() as int) } }
pub uninterp spec fn n_comps(g: Graph) -> int;
pub uninterp spec fn comp_of(g: Graph) -> Seq<int>;
#[verifier::external_body] pub proof fn axiom_components(g: Graph) ensures comp_of(g).len() == g.n, n_comps(g) >= 0, forall|v: int| 0 <= v < g.n ==> 0 <= #[trigger] comp_of(g)[v] < n_comps(g) {}
pub open spec fn root_comp(g: Graph, m: Map<int, int>, s: int, r: int) -> Seq<int> { let h = support(g, m, s); members(comp_of(h), comp_of(h)[r], g.n) }
pub open spec fn prize_of(p: Map<int, int>, vs: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { prize_of(p, vs, k - 1) + p[vs[k - 1]] } }
pub open spec fn cc_vars(g: Graph, m: Map<int, int>, vs: Seq<int>) -> Seq<int> { vars_of(m, induced(g, vs)) + vars_of(m, loops_of(g, vs)) }
/// inside edges - inside vertices <= -1
pub open spec fn cc_row(h: int, g: Graph, m: Map<int, int>, vs: Seq<int>) -> Row {
    new_row(h, -scip_infinity(), -1real, row_co(cc_vars(g, m, vs), Seq::new(induced(g, vs).len() + vs.len(), |i: int| if i < induced(g, vs).len() { 1real } else { -1real })))
}
pub open spec fn cc_violated(g: Graph, m: Map<int, int>, p: Map<int, int>, q: int, s: int, r: int) -> bool { prize_of(p, root_comp(g, m, s, r), root_comp(g, m, s, r).len() as int) < q }
pub proof fn root_comp_ok(g: Graph, m: Map<int, int>, s: int, r: int)
    requires wf(g), 0 <= r < g.n
    ensures set_ok(g, root_comp(g, m, s, r)), root_comp(g, m, s, r).len() > 0, support(g, m, s).n == g.n
{
    let h = support(g, m, s); axiom_components(h); let c = comp_of(h)[r]; members_partition(comp_of(h), c, g.n);
    let v = root_comp(g, m, s, r); assert(v.contains(r));
    assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] v[i] < g.n by { assert(v.contains(v[i])); }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { if i < j { assert(v[i] < v[j]); } else { assert(v[j] < v[i]); } }
}
'''
def support_graph(self, a, n):
    g, m = self.expr(a[1]), self.expr(a[3]); s = self.expr(a[2]).s
    return E(f'support({g.s}, {m.s}, {s})', 'Graph')
def components(self, a, n):
    g = self.expr(a[0]); dst = self.expr(a[1])
    base = dst.lv
    if base is None or not base.path or base.path[-1][0] != 'idx' or base.path[-1][1] not in ('0int', '0'): raise Unsupported('component array')
    seq = base.parent(); seq = LV(seq.base, 'Seq<int>', seq.path)
    self.emit(Hint(f'proof {{ axiom_components({g.s}); }}'))
    self.ob(f'{seq.read()}.len() >= {g.s}.n', 'the component array holds every vertex')
    self.write(seq, f'comp_of({g.s})')
    return E(f'n_comps({g.s})', 'int')
N = ['separateCostCoverPaths', 'addCoverInequality', 'addCoverInequalityFromVertices', 'separateThenAddCostCoverInequalities']
C = {**sec.C, **C9,
 'separateCostCoverPaths': [dict(params=['graph', 'path_distances', 'cost_upper_bound'], requires=['$graph.n >= 0', '$path_distances.len() >= $graph.n'],
    ensures=[('exactly the vertices above the bound in vertex order', '$ret == over_upto($path_distances, $cost_upper_bound, $graph.n)'), '$out(graph) == $graph', '$out(path_distances) == $path_distances'],
    locals=[('separated_vertices', 'Seq<int>')], loops=[dict(kind='range', inv=['$separated_vertices == over_upto($path_distances, $cost_upper_bound, $it as int)'])], hints={'loop1.body': 'proof { reveal_with_fuel(over_upto, 2); }'})],
 'addCoverInequality': [dict(params=['scip', 'variables'],
    ensures=['$ret == 1', ('one added constraint: sum of the variables at most their number minus one', '$out(scip) == with_cons($scip, cover_cons($variables))')],
    locals=[('var_coefs', 'Seq<real>'), ('i', 'int'), ('nvars', 'int'), ('cons', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $nvars', '$nvars == $variables.len()', '$var_coefs.len() == $nvars', 'forall|j: int| 0 <= j < $i ==> #[trigger] $var_coefs[j] == 1real'], dec='$nvars - $i')],
    hints={'return': 'assert($scip.conss[$scip.conss.len() - 1].co =~= cover_cons($variables).co); assert($scip.conss[$scip.conss.len() - 1].flags =~= cover_flags()); assert($scip.conss =~= with_cons($in_scip, cover_cons($variables)).conss);'})],
 'addCoverInequalityFromVertices': [dict(params=['scip', 'graph', 'cover_vertices', 'edge_variable_map'],
    requires=['model_ok($graph, $edge_variable_map)', 'forall|i: int| 0 <= i < $cover_vertices.len() ==> 0 <= #[trigger] $cover_vertices[i] < $graph.n'],
    ensures=['$exc == 0', '$ret == 1', ('one cover over the self-loop variables', '$out(scip) == with_cons($scip, cover_cons(vars_of($edge_variable_map, loops_of($graph, $cover_vertices))))')],
    locals=[('self_loop_edges', 'Seq<int>'), ('vars', 'Seq<int>'), ('edges', 'Seq<int>'), ('variables', 'Seq<int>'), ('vertices_start', 'iter'), ('vertices_last', 'iter'), ('edges_start', 'iter'), ('edges_last', 'iter'), ('i', 'int'), ('i_2', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $cover_vertices.len()', '$vertices_start == $i', '$vertices_last == $cover_vertices.len()', '$edges.len() == $cover_vertices.len()', 'forall|j: int| 0 <= j < $i ==> #[trigger] $edges[j] == g_edge($graph, $cover_vertices[j], $cover_vertices[j]).0'], dec='$cover_vertices.len() - $i'),
           dict(kind='for', inv=['0 <= $i_2 <= $self_loop_edges.len()', '$edges_start == $i_2', '$edges_last == $self_loop_edges.len()', '$variables.len() == $self_loop_edges.len()', 'forall|j: int| 0 <= j < $i_2 ==> #[trigger] $variables[j] == $edge_variable_map[$self_loop_edges[j]]'], dec='$self_loop_edges.len() - $i_2')],
    hints={'loop1.body': 'proof { assert(has_edge($graph, $cover_vertices[$i], $cover_vertices[$i])); lemma_g_edge($graph, $cover_vertices[$i], $cover_vertices[$i]); }', 'decl:self_loop_edges': 'assert($self_loop_edges =~= loops_of($graph, $cover_vertices));',
           'loop2.body': 'proof { assert(has_edge($graph, $cover_vertices[$i_2], $cover_vertices[$i_2])); lemma_g_edge($graph, $cover_vertices[$i_2], $cover_vertices[$i_2]); assert($edge_variable_map.dom().contains($self_loop_edges[$i_2])); }',
           'decl:vars': 'assert($vars =~= vars_of($edge_variable_map, loops_of($graph, $cover_vertices)));'})],
 'separateThenAddCostCoverInequalities': [dict(params=['scip', 'path_distances', 'cost_upper_bound'],
    requires=['pd_ok($scip)', '$path_distances.len() >= $scip.probdata.graph_.n'],
    ensures=['$exc == 0', ('exactly one cover per vertex above the bound', '$out(scip) == with_covers($scip, $path_distances, $cost_upper_bound)'), ('the number added is returned', '$ret == n_over($scip, $path_distances, $cost_upper_bound)')],
    locals=[('violated_vertices', 'Seq<int>'), ('num_conss_added', 'int')],
    loops=[dict(kind='range', inv=['$num_conss_added == $it', '$seq == over_upto($path_distances, $cost_upper_bound, $in_scip.probdata.graph_.n)', '$scip == (Scip { conss: $in_scip.conss + covers($in_scip.probdata.graph_, $in_scip.probdata.edge_variable_map_, $in_scip.probdata.root_vertex_, $seq.take($it as int)), ..$in_scip })'])],
    hints={'loop1.before': 'proof { assert($scip.conss + covers($in_scip.probdata.graph_, $in_scip.probdata.edge_variable_map_, $in_scip.probdata.root_vertex_, over_upto($path_distances, $cost_upper_bound, $scip.probdata.graph_.n).take(0)) =~= $scip.conss); }',
           'loop1.body': 'proof { over_exact($path_distances, $cost_upper_bound, $in_scip.probdata.graph_.n); assert(0 <= $seq[$it as int] < $in_scip.probdata.graph_.n); }',
           'decl:cover_vertices': 'assert($cover_vertices =~= seq![$in_scip.probdata.root_vertex_, $vertex]);',
           'loop1.end': 'proof { assert($scip.conss =~= $in_scip.conss + covers($in_scip.probdata.graph_, $in_scip.probdata.edge_variable_map_, $in_scip.probdata.root_vertex_, $seq.take($it as int))); }',
           'loop1.after': 'proof { assert($seq.take($seq.len() as int) =~= $seq); }'})],
}

H = 'CostCoverEventHandler'
def h_eq(f, v): return f'$out(this).{f} == {v}'
def keep(*fs): return ' && '.join(f'$out(this).{f} == $this.{f}' for f in fs)
D, A, I0 = '_path_distances', '_num_conss_added', '_num_conss_added_init_sol'
M = dict(this=H, cls=H)
HC = {
 'setNumConssAddedInitSol': [dict(M, params=['this', 'nconss'], requires=['$nconss >= 0'], ensures=[('the count of the initial solution is stored', h_eq(I0, '$nconss')), keep(D, A)])],
 'getNumConssAddedInitSol': [dict(M, params=['this'], ensures=[('the count of the initial solution', f'$ret == $this.{I0}'), '$out(this) == $this'])],
 'getNumConssAdded': [dict(M, params=['this'], emit='cost_cover_total', ensures=[('the total is the initial solution plus later ones', f'$ret == $this.{A} + $this.{I0}'), '$out(this) == $this'])],
 'increaseNumConssAdded': [dict(M, params=['this', 'num_conss'], requires=['$num_conss >= 0'], ensures=[('later additions accumulate', h_eq(A, f'$this.{A} + $num_conss')), keep(D, I0)])],
 'getPathDistances': [dict(M, params=['this'], ensures=[f'$ret == $this.{D}', '$out(this) == $this'])],
 'scip_exec': [dict(M, params=['this', 'scip', 'eventhdlr', 'event', 'eventdata'], ptypes={'eventhdlr': 'int', 'event': 'int', 'eventdata': 'int'},
    requires=['pd_ok($scip)', f'$this.{D}.len() >= $scip.probdata.graph_.n'],
    ensures=['$exc == 0', '$ret == 1', ('an improving solution adds exactly one cover per vertex above its cost', f'$out(scip) == with_covers($scip, $this.{D}, trunc($scip.upper))'),
             ('and counts them once', h_eq(A, f'$this.{A} + n_over($scip, $this.{D}, trunc($scip.upper))')), keep(D, I0)],
    locals=[('cost_upper_bound', 'int'), ('nconss', 'int')])],
}
C = {**C, **HC}
N2 = list(HC)

# ---- inclusion: distances handed to the event handler, which the solver stores under its name
STR = {k: list(v) for k, v in scip.STRUCTS.items()}
STR['Scip'] = STR['Scip'] + [('evhdlrs', 'Seq<CostCoverEventHandler>')]
def prop_arr(self, a, n):
    it = self.expr(a[0]); c = self.cont_of(it)
    if it.s not in ('0int', '0'): raise Unsupported('property map not at the start of its container')
    return E('0int', 'PropArr', meta={'arr': c})
def pred_map(self, a, n): return E('0int', 'Params', meta={'predecessor': self.expr(a[0])})
def dist_map(self, a, n): return E('0int', 'Params', meta={'distance': self.expr(a[0])})
def with_map(key): return lambda self, o, a, n: E('0int', 'Params', meta={**{k: v for k, v in (o.meta or {}).items() if k != 'var'}, key: self.expr(a[0])})
def dijkstra(self, a, n):
    g, src, ps = self.expr(a[0]), self.expr(a[1]), self.expr(a[2])
    m = {k: v for k, v in (ps.meta or {}).items() if k != 'var'}
    if ps.ty != 'Params' or set(m) - {'predecessor', 'distance'}: raise Unsupported('parameters of dijkstra_shortest_paths')
    self.ob(f'0 <= {src.s} < {g.s}.n', 'source is a vertex')
    for k, f in (('predecessor', 'dijkstra_pred'), ('distance', 'dijkstra')):
        if k in m:
            lv = m[k].meta['arr']; self.ob(f'{lv.read()}.len() == {g.s}.n', f'the {k} array has an entry for every vertex')
            self.write(lv, f'{f}({g.s}, {src.s})')
    return E('0int', 'unit')
def base_init(self, this, args):
    if this.ty != H: raise Unsupported('base class of ' + this.ty)
    nm = self.expr(args[1])
    self.write(this.lv.sub(('fld', 'hdlr_name', H), 'Str'), nm.s)
def include_hdlr(self, a, n):
    sc, h = self.expr(a[0]), self.expr(a[1])
    if h.ty != H: raise Unsupported('event handler class ' + h.ty)
    f = sc.lv.sub(('fld', 'evhdlrs', 'Scip'), 'Seq<CostCoverEventHandler>'); self.write(f, f'{f.read()}.push({h.s})'); return E('1int', 'int')
def find_hdlr(self, a, n):
    sc, nm = self.expr(a[0]), self.expr(a[1]); f = sc.lv.sub(('fld', 'evhdlrs', 'Scip'), 'Seq<CostCoverEventHandler>')
    t = self.tmp(f'find_hdlr({f.read()}, {nm.s}, 0)', 'int'); self.ob(f'0 <= {t} < {f.read()}.len()', 'the event handler is included')
    lv = f.sub(('idx', t), H); return E(lv.read(), H, lv=lv)
IC = {'__structs__': STR, '__extra_fields__': {H: [('hdlr_name', 'Str')]}, '__base_init__': base_init,
 '__calls__': {**C['__calls__'], 'make_iterator_property_map': prop_arr, 'predecessor_map': pred_map, 'distance_map': dist_map, 'dijkstra_shortest_paths': dijkstra, 'SCIPincludeObjEventhdlr': include_hdlr, 'SCIPfindObjEventhdlr': find_hdlr},
 '__members__': {**C['__members__'], 'distance_map': with_map('distance'), 'predecessor_map': with_map('predecessor')}}
INC = ('one handler is included: that name, those distances, both counts zero', '$ret == 1 && $out(scip) == with_hdlr($scip, new_hdlr(%s, %s))')
def n_added(name): return f'find_hdlr($scip.evhdlrs, {name}, 0)'
def getn(name): return [dict(params=['scip'], requires=[f'0 <= {n_added(name)} < $scip.evhdlrs.len()'], ensures=[('the number added is the total of that handler', f'$ret == hdlr_total($scip.evhdlrs[{n_added(name)}])'), '$out(scip) == $scip'])]
from ..cxx import str_const
SPN, DPN = str_const('Shortest path cost cover'), str_const('Disjoint paths cost cover')
PI = PRELUDE + r"""
pub uninterp spec fn dijkstra_pred(g: Graph, source: int) -> Seq<int>;
pub open spec fn new_hdlr(name: int, d: Seq<int>) -> CostCoverEventHandler { CostCoverEventHandler { hdlr_name: name, _path_distances: d, _num_conss_added: 0, _num_conss_added_init_sol: 0 } }
pub open spec fn with_hdlr(s: Scip, h: CostCoverEventHandler) -> Scip { Scip { evhdlrs: s.evhdlrs.push(h), ..s } }
pub open spec fn hdlr_total(h: CostCoverEventHandler) -> int { h._num_conss_added + h._num_conss_added_init_sol }
pub open spec fn find_hdlr(s: Seq<CostCoverEventHandler>, name: int, k: int) -> int decreases s.len() - k { if k < 0 || k >= s.len() { -1 } else if s[k].hdlr_name == name { k } else { find_hdlr(s, name, k + 1) } }
"""
IC = {**C, **IC,
 'includeCostCoverEventHandler': [dict(params=['scip', 'name', 'description', 'path_distances'], ensures=[(INC[0], INC[1] % ('$name', '$path_distances')), '$out(path_distances) == $path_distances'])],
 'includeShortestPathCostCover': [
    dict(sig=['Scip', 'Seq<int>'], params=['scip', 'path_distances'], emit='include_with_distances', ensures=[(INC[0], INC[1] % (SPN, '$path_distances')), '$out(path_distances) == $path_distances']),
    dict(sig=lambda t: len(t) == 4, params=['scip', 'graph', 'cost_map', 'source_vertex'], requires=['$graph.n >= 0', '0 <= $source_vertex < $graph.n', 'forall|v: int| 0 <= v < $graph.n ==> 0 <= #[trigger] dijkstra($graph, $source_vertex)[v] <= 2147483647'],
      ensures=[('the handler holds twice the shortest distances, unreachable staying infinite', '$ret == 1 && $out(scip) == with_hdlr($scip, new_hdlr(%s, doubled(dijkstra($graph, $source_vertex))))' % SPN)],
      locals=[('distances', 'Seq<int>'), ('pred', 'Seq<int>'), ('i', 'int'), ('max_distance', 'int')],
      loops=[dict(kind='for', inv=['0 <= $i <= $graph.n', '$distances.len() == $graph.n', '$max_distance == 2147483647', 'forall|v: int| 0 <= v < $i ==> #[trigger] $distances[v] == doubled(dijkstra($graph, $source_vertex))[v]', 'forall|v: int| $i <= v < $graph.n ==> #[trigger] $distances[v] == dijkstra($graph, $source_vertex)[v]'], dec='$distances.len() - $i')],
      hints={'loop1.before': 'proof { axiom_dijkstra($graph, $source_vertex); }', 'loop1.after': 'assert($distances =~= doubled(dijkstra($graph, $source_vertex)));'})],
 'includeDisjointPathsCostCover': [dict(params=['scip', 'path_distances'], ensures=[(INC[0], INC[1] % (DPN, '$path_distances')), '$out(path_distances) == $path_distances'])],
 'getNShortestPathCostCoverCutsAdded': getn(SPN), 'getNDisjointPathsCostCoverCutsAdded': getn(DPN)}
NI = ['includeCostCoverEventHandler', 'includeShortestPathCostCover', 'includeDisjointPathsCostCover', 'getNShortestPathCostCoverCutsAdded', 'getNDisjointPathsCostCoverCutsAdded']
# ---- cycle cover
def filtered(self, g, f):
    if f.ty != 'PositiveEdgeVarFilter': raise Unsupported('edge filter ' + f.ty)
    return E(f'support({g.s}, {f.s}.edge_var_map, {f.s}.sol)', 'Graph')
IT = "$rng == $in_rng"
CC = {**C, '__filtered__': filtered, '__calls__': {**C['__calls__'], 'connected_components': components},
 'operator()': [dict(this='PositiveEdgeVarFilter', cls='PositiveEdgeVarFilter', emit='filter_keeps', params=['this', 'e'], requires=['$this.edge_var_map.dom().contains($e)'], ensures=[('an edge is in the support exactly when its variable is positive', '$ret == var_pos($this.sol, $this.edge_var_map[$e])')])],
 'isVarPositive': sol.C['isVarPositive'],
 'isPrizeFeasible': [dict(sig=['PMap', 'int', 'Seq<int>'], params=['prize_map', 'quota', 'vertex_vector'], ensures=[('the prize is at least the quota', '$ret == (prize_of($prize_map, $vertex_vector, $vertex_vector.len() as int) >= $quota)'), '$out(vertex_vector) == $vertex_vector', '$out(prize_map) == $prize_map', '$out(quota) == $quota'],
    locals=[('prize', 'int'), ('first', 'iter'), ('last', 'iter')], loops=[dict(kind='for', inv=['0 <= $first <= $vertex_vector.len()', '$last == $vertex_vector.len()', '$prize == prize_of($prize_map, $vertex_vector, $first)'], dec='$last - $first')])],
 'getEdgesInducedByVertices': [dict(sig=['Graph', 'iter', 'iter'], params=['graph', 'first', 'last'], emit='induced_edges_it',
    requires=['0 <= $first <= $last', '$last == $rng.len()', '$first == 0', 'set_ok($graph, $rng)', 'simple($graph)'],
    ensures=[('edges of all pairs of the set', '$ret == induced($graph, $rng)'), '$ret.no_duplicates() && forall|e: int| #[trigger] $ret.contains(e) <==> inside($graph, $rng, e)', '$out(first) == $last', '$out(last) == $last', '$out(rng) == $rng', '$out(graph) == $graph'],
    locals=[('edges', 'Seq<int>'), ('it', 'iter')],
    loops=[dict(kind='for', inv=['0 <= $first <= $rng.len()', '$last == $rng.len()', '$edges == ind_upto($graph, $rng, $first)'], dec='$rng.len() - $first'),
           dict(kind='for', inv=['0 <= $first < $rng.len()', '$last == $rng.len()', '$first + 1 <= $it <= $rng.len()', '$edges == ind_upto($graph, $rng, $first) + ind_row($graph, $rng, $first, $it)'], dec='$rng.len() - $it')],
    hints={'loop2.before': 'proof { assert($edges =~= ind_upto($graph, $rng, $first) + ind_row($graph, $rng, $first, $first + 1)); }', 'loop2.body': 'proof { reveal_with_fuel(ind_row, 2); lemma_g_edge($graph, $rng[$first], $rng[$it]); }',
           'loop2.end': 'proof { assert($edges =~= ind_upto($graph, $rng, $first) + ind_row($graph, $rng, $first, $it)); }',
           'loop2.after': 'proof { reveal_with_fuel(ind_upto, 2); }', 'return': 'proof { induced_exact($graph, $rng); }'})],
 'getSelfLoops': [dict(sig=['Graph', 'iter', 'iter'], params=['graph', 'first', 'last'], emit='self_loops_it',
    requires=['$first == 0', '$last == $rng.len()'],
    ensures=['$exc == (if forall|i: int| 0 <= i < $rng.len() ==> #[trigger] has_edge($graph, $rng[i], $rng[i]) { 0 } else { EXC_NoSelfLoopFoundException() })', ('the self loop of every vertex, aligned', '$exc == 0 ==> $ret == loops_of($graph, $rng) && $out(first) == $last'), '$out(last) == $last', '$out(rng) == $rng', '$out(graph) == $graph'],
    locals=[('edges', 'Seq<int>'), ('n_vertices', 'int'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $rng.len()', '$first == $i', '$last == $rng.len()', '$edges.len() == $rng.len()', 'forall|j: int| 0 <= j < $i ==> #[trigger] $edges[j] == g_edge($graph, $rng[j], $rng[j]).0', 'forall|j: int| 0 <= j < $i ==> #[trigger] has_edge($graph, $rng[j], $rng[j])'], dec='$rng.len() - $i')],
    hints={'loop1.body': 'proof { lemma_g_edge($graph, $rng[$i], $rng[$i]); }', 'return': 'assert($retval =~= loops_of($graph, $rng));'})],
}
ROWN = ('at most one row: inside edges minus inside vertices at most -1', '$exc == 0 && $ret == 1 && (if %s { $out(scip) == with_row($scip, finish_row($sol, cc_row($conshdlr, $graph, $edge_variable_map, %s))) && $out(result) == row_result($sol, cc_row($conshdlr, $graph, $edge_variable_map, %s), $result) } else { $out(scip) == $scip && $out(result) == $result })')
def rown(c, v): return (ROWN[0], ROWN[1] % (c, v, v))
CC['addCycleCover'] = [
 dict(sig=lambda t: len(t) == 8, params=['scip', 'conshdlr', 'graph', 'first', 'last', 'edge_variable_map', 'sol', 'result'], emit='add_cycle_cover_it',
    requires=['$first == 0', '$last == $rng.len()', 'set_ok($graph, $rng)', 'model_ok($graph, $edge_variable_map)'],
    ensures=[rown('$rng.len() > 0', '$rng'), '$out(rng) == $rng', '$out(first) == $first', '$out(last) == $last', '$out(graph) == $graph', '$out(edge_variable_map) == $edge_variable_map'],
    locals=[('induced_edges', 'Seq<int>'), ('edge_var_vector', 'Seq<int>'), ('self_loops', 'Seq<int>'), ('vertex_var_vector', 'Seq<int>'), ('all_vars', 'Seq<int>'), ('var_coefs', 'Seq<real>')],
    hints={'decl:induced_edges': 'assert forall|j: int| 0 <= j < $induced_edges.len() implies $edge_variable_map.dom().contains(#[trigger] $induced_edges[j]) && $edge_variable_map[$induced_edges[j]] != 0 by { assert($induced_edges.contains($induced_edges[j])); assert(inside($graph, $rng, $induced_edges[j])); assert($edge_variable_map.dom().contains($induced_edges[j])); }',
       'decl:self_loops': 'assert forall|j: int| 0 <= j < $self_loops.len() implies $edge_variable_map.dom().contains(#[trigger] $self_loops[j]) && $edge_variable_map[$self_loops[j]] != 0 by { assert(has_edge($graph, $rng[j], $rng[j])); lemma_g_edge($graph, $rng[j], $rng[j]); }',
       'return': 'assert($all_vars =~= cc_vars($graph, $edge_variable_map, $rng)); assert($var_coefs =~= Seq::new(induced($graph, $rng).len() + $rng.len(), |i: int| if i < induced($graph, $rng).len() { 1real } else { -1real }));'}),
 dict(sig=lambda t: len(t) == 7, params=['scip', 'conshdlr', 'graph', 'vertices', 'edge_variable_map', 'sol', 'result'],
    requires=['set_ok($graph, $vertices)', 'model_ok($graph, $edge_variable_map)'], ensures=[rown('$vertices.len() > 0', '$vertices'), '$out(vertices) == $vertices', '$out(graph) == $graph', '$out(edge_variable_map) == $edge_variable_map'])]
CC['getRootComponent'] = [dict(params=['scip', 'graph', 'root_vertex', 'edge_var_map', 'sol'], requires=['model_ok($graph, $edge_var_map)', '0 <= $root_vertex < $graph.n'],
    ensures=[('the vertices connected to the root by positive edges', '$ret == root_comp($graph, $edge_var_map, $sol, $root_vertex)'), '$out(scip) == $scip', '$out(graph) == $graph', '$out(edge_var_map) == $edge_var_map'],
    locals=[('component', 'Seq<int>'), ('component_vectors', 'Seq<Seq<int>>')])]
VIOL = 'cc_violated(%s, %s, %s, %s, %s, %s)'
CC['isCycleCoverViolated'] = [
 dict(sig=lambda t: len(t) == 7, params=['scip', 'graph', 'prize_map', 'quota', 'root_vertex', 'edge_var_map', 'sol'], requires=['model_ok($graph, $edge_var_map)', '0 <= $root_vertex < $graph.n'], ensures=[('violated exactly when the prize of the component is below the quota', '$ret == ' + VIOL % ('$graph', '$edge_var_map', '$prize_map', '$quota', '$sol', '$root_vertex')), '$out(scip) == $scip']),
 dict(sig=lambda t: len(t) == 3, params=['scip', 'sol', 'pd'], requires=['model_ok($pd.graph_, $pd.edge_variable_map_)', '0 <= $pd.root_vertex_ < $pd.graph_.n'], ensures=[('violated exactly when the prize of the component is below the quota', '$ret == ' + VIOL % ('$pd.graph_', '$pd.edge_variable_map_', 'prop_map($pd.graph_)', '$pd.quota_', '$sol', '$pd.root_vertex_')), '$out(scip) == $scip'])]
SEP = '$exc == 0 && $ret == 1 && (if %s { $out(scip) == with_row($scip, finish_row($sol, cc_row($conshdlr, %s, %s, root_comp(%s, %s, $sol, %s)))) && $out(result) == row_result($sol, cc_row($conshdlr, %s, %s, root_comp(%s, %s, $sol, %s)), $result) } else { $out(scip) == $scip && $out(result) == $result })'
def sep(g, m, p, q, r): return ('exactly one row, over the component of the root, when its prize is below the quota', SEP % (VIOL % (g, m, p, q, '$sol', r), g, m, g, m, r, g, m, g, m, r))
P_ = '$scip.probdata.'
CC['separateCycleCover'] = [
 dict(sig=lambda t: len(t) == 9, params=['scip', 'conshdlr', 'sol', 'result', 'graph', 'prize_map', 'quota', 'root_vertex', 'edge_var_map'], requires=['model_ok($graph, $edge_var_map)', '0 <= $root_vertex < $graph.n'], ensures=[sep('$graph', '$edge_var_map', '$prize_map', '$quota', '$root_vertex')],
    locals=[('root_component', 'Seq<int>')], hints={'decl:root_component': 'proof { root_comp_ok($graph, $edge_var_map, $sol, $root_vertex); }'}),
 dict(sig=lambda t: len(t) == 4, params=['scip', 'conshdlr', 'sol', 'result'], requires=['pd_ok($scip)'], ensures=[sep(P_ + 'graph_', P_ + 'edge_variable_map_', f'prop_map({P_}graph_)', P_ + 'quota_', P_ + 'root_vertex_')])]
K = 'CycleCoverConshdlr'
CC['getNumConssAdded'] = [dict(this=K, cls=K, params=['this'], emit='cycle_cover_total', requires=['$this._num_conss_added >= 0'], ensures=['$ret == $this._num_conss_added', '$out(this) == $this'])]
PT = {'conss': 'int', 'conshdlr': 'int', 'nconss': 'int', 'nusefulconss': 'int'}
SP0 = sep(P_ + 'graph_', P_ + 'edge_variable_map_', f'prop_map({P_}graph_)', P_ + 'quota_', P_ + 'root_vertex_')
CC['scip_sepalp'] = [dict(this=K, cls=K, params=['this', 'scip', 'conshdlr', 'conss', 'nconss', 'nusefulconss', 'result'], ptypes=PT, requires=['pd_ok($scip)', '$result != res_cutoff() && $result != res_separated()'],
    ensures=[(SP0[0], SP0[1].replace('$sol', '0int')), ('separations are counted once', '$out(this)._num_conss_added == $this._num_conss_added + (if $out(result) == res_cutoff() || $out(result) == res_separated() { 1int } else { 0int })')])]
CC['scip_check'] = [dict(this=K, cls=K, params=['this', 'scip', 'conshdlr', 'conss', 'nconss', 'sol', 'checkintegrality', 'checklprows', 'printreason', 'completely', 'result'], ptypes={**PT, 'checkintegrality': 'int', 'checklprows': 'int', 'printreason': 'int', 'completely': 'int'}, requires=['pd_ok($scip)'],
    ensures=[('infeasible exactly when violated', f'$out(result) == (if {VIOL % (P_ + "graph_", P_ + "edge_variable_map_", "prop_map(" + P_ + "graph_)", P_ + "quota_", "$sol", P_ + "root_vertex_")} {{ res_infeasible() }} else {{ res_feasible() }})'), '$out(scip) == $scip'])]
PC = PRELUDE + 'pub open spec fn res_infeasible() -> int { 5 }\npub open spec fn res_feasible() -> int { 4 }\n'
NC = ['addCycleCover', 'getRootComponent', 'isCycleCoverViolated', 'separateCycleCover']
TU = '#include "../src/cost_cover.cpp"\n#include "../src/cycle_cover.cpp"\n#include "../src/sciputils.cpp"\n#include "../src/graph.cpp"\n'
TUI = TU + 'void use(SCIP* scip, PCTSPgraph& g, EdgeCostMap& m, PCTSPvertex& v) { includeShortestPathCostCover(scip, g, m, v); }\n'
TUC = TU + '#include "../src/solution.cpp"\n#include "../src/data_structures.cpp"\nvoid use(SCIP* s, SCIP_SOL* sol, PCTSPedgeVariableMap& m, PCTSPgraph& g) { PositiveEdgeVarFilter<PCTSPedgeVariableMap> f(s, sol, &m); PCTSPedge e; f(e); }\n'
UNITS = [Unit('cost_cover', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in N] + [(H + '::' + n,) for n in N2], prefetch=N + ['COST_COVER_CONS_PREFIX', H]),
         Unit('include', tu=TUI, contracts=IC, prelude=PI, roots=[(n,) for n in NI], prefetch=NI + [H, 'SHORTEST_PATH_COST_COVER_NAME', 'DISJOINT_PATHS_COST_COVER_NAME', 'COST_COVER_DESCRIPTION']),
         Unit('cycle_cover', tu=TUC, contracts=CC, prelude=PC, roots=[('PositiveEdgeVarFilter::operator()',)] + [(n,) for n in NC] + [(K + '::' + n,) for n in ('getNumConssAdded', 'scip_sepalp', 'scip_check')], prefetch=NC + [K, 'PositiveEdgeVarFilter', 'isVarPositive', 'isPrizeFeasible', 'getEdgesInducedByVertices', 'getSelfLoops', 'getEdgeVariables', 'fillPositiveNegativeVars', 'addRow', 'getConnectedComponentsVectors', 'filterGraphByPositiveEdgeVars', 'SCIP_Result'])]
RUNTIME = [dict(kind='cxx', driver='c13.cpp', srcs=['cost_cover.cpp', 'cycle_cover.cpp', 'separation.cpp', 'solution.cpp', 'graph.cpp', 'sciputils.cpp', 'data_structures.cpp'], rule='random graphs with self loops on up to 8 vertices (also disconnected, also very large costs), shortest-path and given distances, sequences of an initial and several improving solutions with bounds often equal to a distance; cycle covers over random solutions and quotas often equal to the prize of the component; non-trivial: more than one vertex / the component is below the quota')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['boost::dijkstra_shortest_paths delivers the shortest distances by the edge costs stored in the graph, the largest int where there is no path (compared at run time with Bellman-Ford); boost::connected_components delivers one label in 0..n-1 per vertex; boost::filtered_graph keeps exactly the edges its predicate accepts (the predicate operator() is proved)', 'the event handler and the constraint handler are stored and found by the solver under the name given to their base class', 'every vertex has a self loop and every edge a variable, the graph is simple and the stored distances cover every vertex', 'the names of rows and constraints are not specified']
