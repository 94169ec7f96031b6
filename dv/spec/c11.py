"""Separation of subtours: one cut per vertex of every other component; max-flow cuts."""
from ..run import Unit
from ..ir import E, Unsupported, Hint
from ..cxx import LV, unwrap
from .. import scip
from . import sec, sol, c01, c13, c14, c16
PRELUDE = c13.PRELUDE + r'''
// ---- several rows, one after the other
pub open spec fn fin(s: int, rs: Seq<Row>) -> Seq<Row> { Seq::new(rs.len(), |i: int| finish_row(s, rs[i])) }
pub open spec fn plus_rows(sc: Scip, s: int, rs: Seq<Row>) -> Scip { Scip { rows: sc.rows + fin(s, rs), ..sc } }
pub open spec fn results(s: int, rs: Seq<Row>, k: int, old: int) -> int decreases k { if k <= 0 { old } else { row_result(s, rs[k - 1], results(s, rs, k - 1, old)) } }
pub open spec fn result_of(s: int, rs: Seq<Row>, old: int) -> int { results(s, rs, rs.len() as int, old) }
pub proof fn results_prefix(s: int, a: Seq<Row>, b: Seq<Row>, k: int, old: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i]
    ensures results(s, a, k, old) == results(s, b, k, old)
    decreases k
{ if k > 0 { results_prefix(s, a, b, k - 1, old); } }
pub proof fn rows_push(sc: Scip, s: int, rs: Seq<Row>, x: Row, old: int)
    ensures plus_rows(sc, s, rs.push(x)) == with_row(plus_rows(sc, s, rs), finish_row(s, x)), result_of(s, rs.push(x), old) == row_result(s, x, result_of(s, rs, old))
{
    assert(plus_rows(sc, s, rs.push(x)).rows =~= with_row(plus_rows(sc, s, rs), finish_row(s, x)).rows);
    results_prefix(s, rs.push(x), rs, rs.len() as int, old);
}
pub proof fn rows_none(sc: Scip, s: int) ensures plus_rows(sc, s, Seq::empty()) == sc { assert(plus_rows(sc, s, Seq::empty()).rows =~= sc.rows); }
// ---- one cut per vertex of a component, over the whole component
pub open spec fn comp_rows(h: int, g: Graph, m: Map<int, int>, root: int, c: Seq<int>, k: int) -> Seq<Row> decreases k { if k <= 0 { Seq::empty() } else { comp_rows(h, g, m, root, c, k - 1).push(sec_row(h, g, m, c, root, c[k - 1])) } }
pub open spec fn disj_rows(h: int, g: Graph, m: Map<int, int>, root: int, cv: Seq<Seq<int>>, rc: int, k: int) -> Seq<Row> decreases k {
    if k <= 0 { Seq::empty() } else if k - 1 != rc && cv[k - 1].len() >= 2 { disj_rows(h, g, m, root, cv, rc, k - 1) + comp_rows(h, g, m, root, cv[k - 1], cv[k - 1].len() as int) } else { disj_rows(h, g, m, root, cv, rc, k - 1) }
}
/// the components are vertex sets, the root only in its own
pub open spec fn comps_ok(g: Graph, root: int, cv: Seq<Seq<int>>, rc: int) -> bool { 0 <= rc < cv.len() && (forall|c: int| 0 <= c < cv.len() ==> set_ok(g, #[trigger] cv[c])) && forall|c: int| 0 <= c < cv.len() && c != rc ==> !(#[trigger] cv[c]).contains(root) }
'''
def vertex_at(self, a, n):
    i, g = self.expr(a[0]), self.expr(a[1]); return E(i.s, 'int')
CALLS = {**sec.C['__calls__'], 'vertex': vertex_at}
DR = 'disj_rows($conshdlr, $input_graph, $edge_variable_map, $root_vertex, $component_vectors, $root_component_id, %s)'
ALL = DR % '$component_vectors.len() as int'
NOW = 'disj_rows($conshdlr, $in_input_graph, $in_edge_variable_map, $in_root_vertex, $in_component_vectors, $root_component_id, %s)'
PRE = NOW % '$component_id'
FIX = ['$input_graph == $in_input_graph', '$edge_variable_map == $in_edge_variable_map', '$root_vertex == $in_root_vertex', '$component_vectors == $in_component_vectors', '$n_components == $component_vectors.len()', '0 <= $component_id']
def st(rs): return [f'$scip == plus_rows($in_scip, $sol, {rs})', f'$result == result_of($sol, {rs}, $in_result)', f'$num_conss_added == $in_num_conss_added + ({rs}).len()']
CR = '(%s + comp_rows($conshdlr, $in_input_graph, $in_edge_variable_map, $in_root_vertex, $vertex_set, %%s))' % PRE
CD = {**sec.C, '__calls__': CALLS,
 'PCTSPseparateDisjointTour': [dict(params=['scip', 'conshdlr', 'input_graph', 'edge_variable_map', 'root_vertex', 'component_vectors', 'sol', 'result', 'root_component_id', 'num_conss_added'],
    requires=['model_ok($input_graph, $edge_variable_map)', 'comps_ok($input_graph, $root_vertex, $component_vectors, $root_component_id)'],
    ensures=['$exc == 0 && $ret == 1', ('one cut per vertex of every other component of two or more vertices, over the whole component', f'$out(scip) == plus_rows($scip, $sol, {ALL})'),
             ('the result reports the rows', f'$out(result) == result_of($sol, {ALL}, $result)'), ('the number of cuts is reported', f'$out(num_conss_added) == $num_conss_added + ({ALL}).len()'),
             '$out(input_graph) == $input_graph', '$out(edge_variable_map) == $edge_variable_map', '$out(root_vertex) == $root_vertex', '$out(component_vectors) == $component_vectors'],
    locals=[('n_components', 'int'), ('component_id', 'int'), ('support_vertex_set', 'Seq<int>'), ('vertex_set', 'Seq<int>'), ('i', 'int')],
    loops=[dict(kind='for', inv=FIX + ['$component_id <= $n_components'] + st(PRE), dec='$n_components - $component_id'),
           dict(kind='range', inv=FIX + ['$component_id < $n_components', '$seq == $support_vertex_set', '$i == $it', '$vertex_set.len() == $support_vertex_set.len()', 'forall|j: int| 0 <= j < $it ==> #[trigger] $vertex_set[j] == $support_vertex_set[j]'] + st(PRE)),
           dict(kind='range', inv=FIX + ['$component_id < $n_components', '$seq == $vertex_set', '$vertex_set == $component_vectors[$component_id]'] + st(CR % '$it as int'))],
    hints={'entry': 'proof { rows_none($scip, $sol); reveal_with_fuel(disj_rows, 2); }',
           'loop1.body': 'proof { assert(set_ok($input_graph, $component_vectors[$component_id])); reveal_with_fuel(disj_rows, 2); }',
           'loop2.after': 'proof { assert($vertex_set =~= $component_vectors[$component_id]); }',
           'loop3.before': 'proof { assert(%s =~= %s); }' % (CR % '0', PRE),
           'loop3.body': 'proof { assert($vertex_set.contains($vertex_set[$it as int])); reveal_with_fuel(comp_rows, 2); let a = %s; let x = sec_row($conshdlr, $in_input_graph, $in_edge_variable_map, $vertex_set, $in_root_vertex, $vertex_set[$it as int]); rows_push($in_scip, $sol, a, x, $in_result); assert(%s =~= a.push(x)); }' % (CR % '$it as int', CR % '$it + 1')})],
}

# ---- what the residual network reaches
PRELUDE_R = PRELUDE + r'''
/// arcs of positive weight
pub open spec fn pos_arcs(es: Seq<(int, int)>, w: Seq<int>, k: int) -> Seq<(int, int)> decreases k { if k <= 0 { Seq::empty() } else if w[k - 1] > 0 { pos_arcs(es, w, k - 1).push(es[k - 1]) } else { pos_arcs(es, w, k - 1) } }
pub open spec fn pos_part(d: DGraph, w: Seq<int>) -> Graph { Graph { n: d.n, es: pos_arcs(d.es, w, d.es.len() as int) } }
pub open spec fn arc_walk(es: Seq<(int, int)>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> es.contains((#[trigger] p[i], p[i + 1])) }
pub open spec fn is_route(es: Seq<(int, int)>, s: int, v: int, p: Seq<int>) -> bool { p.len() >= 1 && p[0] == s && p[p.len() - 1] == v && arc_walk(es, p) }
/// some sequence of arcs leads from s to v
pub open spec fn reaches(es: Seq<(int, int)>, s: int, v: int) -> bool { exists|p: Seq<int>| is_route(es, s, v, p) }
pub proof fn reaches_self(es: Seq<(int, int)>, s: int) ensures reaches(es, s, s) { assert(is_route(es, s, s, seq![s])); }
pub open spec fn all_white() -> Map<int, int> { Map::empty() }
/// depth-first search from a vertex of an uncoloured graph: what it reaches is black, the rest stays white
pub open spec fn dfs_color(g: Graph, s: int) -> Map<int, int> { Map::new(int_range(0, g.n).to_set(), |v: int| if reaches(g.es, s, v) { 4int } else { 0int }) }
pub proof fn colors_of(g: Graph, s: int, v: int)
    requires 0 <= v < g.n
    ensures dfs_color(g, s)[v] == (if reaches(g.es, s, v) { 4int } else { 0int })
{ let q = int_range(0, g.n); assert(q[v] == v); assert(q.contains(v)); assert(q.to_set().contains(v)); }
/// the vertices below k on one side, in order
pub open spec fn side(es: Seq<(int, int)>, s: int, reached: bool, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if reaches(es, s, k - 1) == reached { side(es, s, reached, k - 1).push(k - 1) } else { side(es, s, reached, k - 1) } }
'''
def positive_part(self, g, f):
    if g.ty != 'DGraph' or f.ty != 'positive_edge_weight': raise Unsupported('filter ' + f.ty + ' on ' + g.ty)
    self.ob(f'{f.s}.m_weight.len() == {g.s}.es.len()', 'every arc has a weight')
    return E(f'pos_part({g.s}, {f.s}.m_weight)', 'Graph')
def vector_map(self, a, n): self.expr(a[0]); return E('all_white()', 'PMap')
def dfs_visit(self, a, n):
    x = unwrap(a[3])
    while x.get('kind') == 'CXXConstructExpr' and len(x.get('inner', [])) == 1: x = unwrap(x['inner'][0])      # a property map is copied as a reference
    g, s, m = self.expr(a[0]), self.expr(a[1]), self.expr(x)
    if m.ty != 'PMap' or m.lv is None: raise Unsupported('colour map of depth_first_visit')
    self.ob(f'0 <= {s.s} < {g.s}.n', 'the search starts at a vertex'); self.ob(f'{m.s} == all_white()', 'no vertex is coloured before the search')
    self.write(m.lv, f'dfs_color({g.s}, {s.s})'); return E('0int', 'unit')
RR = {'__structs__': scip.STRUCTS, '__members__': scip.MEMBERS, '__filtered__': positive_part, '__calls__': {**CALLS, 'make_vector_property_map': vector_map, 'depth_first_visit': dfs_visit}}
def reach(loc, word):
    b = 'true' if word == 'reachable' else 'false'
    return [dict(params=['graph', 'source_vertex', 'weight'], requires=['$graph.n >= 0', '0 <= $source_vertex < $graph.n', '$weight.len() == $graph.es.len()'],
      ensures=[(f'exactly the vertices {word} over arcs of positive weight', f'$ret == side(pos_part($graph, $weight).es, $source_vertex, {b}, $graph.n)'), '$out(graph) == $graph', '$out(source_vertex) == $source_vertex', '$out(weight) == $weight'],
      locals=[(loc, 'Seq<int>')], loops=[dict(kind='range', inv=[f'${loc} == side(pos_part($in_graph, $in_weight).es, $in_source_vertex, {b}, $it as int)'])],
      hints={'entry': 'proof { reaches_self(pos_part($graph, $weight).es, $source_vertex); colors_of(pos_part($graph, $weight), $source_vertex, $source_vertex); }', 'loop1.body': 'proof { reveal_with_fuel(side, 2); assert($seq[$it as int] == $it as int); colors_of(pos_part($in_graph, $in_weight), $in_source_vertex, $it as int); }'})]
CR_ = {**RR, 'operator()': [dict(this='positive_edge_weight', cls='positive_edge_weight', emit='arc_kept', params=['this', 'e'], requires=['0 <= $e < $this.m_weight.len()'], ensures=[('an arc is kept exactly when its weight is positive', '$ret == ($this.m_weight[$e] > 0)')])],
 'getReachableVertices': reach('reachable_vertices', 'reachable'), 'getUnreachableVertices': reach('unreachable_vertices', 'not reachable')}
# ---- cuts of the support network
def opaque(text, names):
    """definitions the function body does not need are closed, and opened inside the lemmas"""
    import re
    for f in names:
        text, n = re.subn(r'pub open spec fn %s\(' % f, '#[verifier::opaque]\npub open spec fn %s(' % f, text); assert n == 1, f
    out = []
    for part in re.split(r'(?m)^(?=#\[verifier|pub )', text):
        m = part.startswith('pub proof fn') and (re.search(r'(?m)^\{ ?', part) or re.search(r'(?m) \{ ', part))
        out.append(part[:m.end()] + ' ' + ' '.join(f'reveal({f});' for f in names) + ' ' + part[m.end():] if m else part)
    return ''.join(out)
PRELUDE_M = PRELUDE_R + c14.PRELUDE[len(sol.PRELUDE):] + c01.PRELUDE + opaque(r'''
#[verifier::external_body] pub proof fn axiom_trunc(x: real) ensures x >= 0real ==> trunc(x) >= 0 {}
// edges of the solution inside the component of the root, with the value of each as its capacity
pub open spec fn in_comp(g: Graph, rc: Set<int>, e: int) -> bool { rc.contains(e_src(g, e)) && rc.contains(e_tgt(g, e)) }
pub open spec fn comp_edges(g: Graph, ue: Seq<int>, rc: Set<int>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if in_comp(g, rc, ue[k - 1]) { comp_edges(g, ue, rc, k - 1).push(ue[k - 1]) } else { comp_edges(g, ue, rc, k - 1) } }
pub open spec fn inner_edges(g: Graph, m: Map<int, int>, s: int, rc: Set<int>) -> Seq<int> { comp_edges(g, used_edges(g, m, s), rc, used_edges(g, m, s).len() as int) }
pub open spec fn pair_seq(g: Graph, es: Seq<int>) -> Seq<(int, int)> { Seq::new(es.len(), |i: int| (e_src(g, es[i]), e_tgt(g, es[i]))) }
pub open spec fn caps_seq(m: Map<int, int>, s: int, es: Seq<int>) -> Seq<int> { Seq::new(es.len(), |i: int| cap(sol_val(s, m[es[i]]))) }
pub open spec fn comp_pairs(g: Graph, m: Map<int, int>, s: int, rc: Set<int>) -> Seq<(int, int)> { pair_seq(g, inner_edges(g, m, s, rc)) }
pub open spec fn comp_caps(g: Graph, m: Map<int, int>, s: int, rc: Set<int>) -> Seq<int> { caps_seq(m, s, inner_edges(g, m, s, rc)) }
pub open spec fn touched(ps: Seq<(int, int)>, v: int) -> bool { exists|i: int| 0 <= i < ps.len() && ((#[trigger] ps[i]).0 == v || ps[i].1 == v) }
/// capacity of the edges with exactly one end in the set
pub open spec fn ucut(ps: Seq<(int, int)>, cs: Seq<int>, x: Set<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { ucut(ps, cs, x, k - 1) + (if x.contains(ps[k - 1].0) != x.contains(ps[k - 1].1) { cs[k - 1] } else { 0 }) } }
/// the set separates t from the root by a cut of capacity below two
pub open spec fn below_two(ps: Seq<(int, int)>, cs: Seq<int>, root: int, t: int, x: Set<int>) -> bool { x.contains(root) && !x.contains(t) && ucut(ps, cs, x, ps.len() as int) < 2000000 }
pub struct Cut { pub set: Seq<int>, pub t: int }
/// the set lists one whole side of the cut
pub open spec fn lists(ps: Seq<(int, int)>, set: Seq<int>, x: Set<int>) -> bool { (forall|v: int| #[trigger] set.contains(v) <==> touched(ps, v) && x.contains(v)) || (forall|v: int| #[trigger] set.contains(v) <==> touched(ps, v) && !x.contains(v)) }
pub open spec fn good_cut(ps: Seq<(int, int)>, cs: Seq<int>, root: int, c: Cut) -> bool { touched(ps, c.t) && exists|x: Set<int>| #[trigger] below_two(ps, cs, root, c.t, x) && lists(ps, c.set, x) }
pub open spec fn all_good(ps: Seq<(int, int)>, cs: Seq<int>, root: int, cuts: Seq<Cut>) -> bool { forall|i: int| 0 <= i < cuts.len() ==> good_cut(ps, cs, root, #[trigger] cuts[i]) }
pub open spec fn targeted(cuts: Seq<Cut>, v: int) -> bool { exists|i: int| 0 <= i < cuts.len() && (#[trigger] cuts[i]).t == v }
/// every vertex some cut below two separates from the root is the target of a row
pub open spec fn complete(ps: Seq<(int, int)>, cs: Seq<int>, root: int, cuts: Seq<Cut>) -> bool { forall|v: int, x: Set<int>| touched(ps, v) && #[trigger] below_two(ps, cs, root, v, x) ==> targeted(cuts, v) }
pub open spec fn rows_of(h: int, g: Graph, m: Map<int, int>, root: int, cuts: Seq<Cut>) -> Seq<Row> { Seq::new(cuts.len(), |i: int| sec_row(h, g, m, cuts[i].set, root, cuts[i].t)) }
pub open spec fn did_add(sc0: Scip, sc1: Scip, s: int, rs: Seq<Row>, r0: int, r1: int, n0: int, n1: int) -> bool { sc1 == plus_rows(sc0, s, rs) && r1 == result_of(s, rs, r0) && n1 == n0 + rs.len() }
pub open spec fn flow_step(h: int, g: Graph, m: Map<int, int>, root: int, s: int, rc: Set<int>, cuts: Seq<Cut>, sc0: Scip, sc1: Scip, r0: int, r1: int, n0: int, n1: int) -> bool {
    let ps = comp_pairs(g, m, s, rc); let cs = comp_caps(g, m, s, rc);
    all_good(ps, cs, root, cuts) && complete(ps, cs, root, cuts) && did_add(sc0, sc1, s, rows_of(h, g, m, root, cuts), r0, r1, n0, n1)
}
/// some list of such cuts was added, in order
pub open spec fn cuts_added(h: int, g: Graph, m: Map<int, int>, root: int, s: int, rc: Set<int>, sc0: Scip, sc1: Scip, r0: int, r1: int, n0: int, n1: int) -> bool { exists|cuts: Seq<Cut>| #[trigger] flow_step(h, g, m, root, s, rc, cuts, sc0, sc1, r0, r1, n0, n1) }
// ---- the directed network
pub open spec fn quad(d: DGraph, a: int, b: int, c: int) -> DGraph { let i = d.es.len() as int; let q = dg_add(dg_add(dg_add(dg_add(d, a, b, c), b, a, c), b, a, 0), a, b, 0); DGraph { rev: q.rev.update(i, i + 2).update(i + 2, i).update(i + 1, i + 3).update(i + 3, i + 1), ..q } }
pub open spec fn network(se: Seq<(int, int)>, cs: Seq<int>, k: int) -> DGraph decreases k { if k <= 0 { DGraph { n: 0, es: Seq::empty(), cap: Seq::empty(), rev: Seq::empty(), res: Seq::empty() } } else { quad(network(se, cs, k - 1), se[k - 1].0, se[k - 1].1, cs[k - 1]) } }
pub open spec fn arc_ok(d: DGraph, e: int) -> bool { d.cap[e] >= 0 && 0 <= d.rev[e] < d.es.len() && d.rev[d.rev[e]] == e && d.es[d.rev[e]] == (d.es[e].1, d.es[e].0) && 0 <= d.es[e].0 < d.n && 0 <= d.es[e].1 < d.n }
pub open spec fn net_ok(d: DGraph) -> bool { d.cap.len() == d.es.len() && d.rev.len() == d.es.len() && d.res.len() == d.es.len() && forall|e: int| 0 <= e < d.es.len() ==> #[trigger] arc_ok(d, e) }
pub open spec fn dcut(es: Seq<(int, int)>, c: Seq<int>, x: Set<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { dcut(es, c, x, k - 1) + (if x.contains(es[k - 1].0) && !x.contains(es[k - 1].1) { c[k - 1] } else { 0 }) } }
pub open spec fn same_net(d: DGraph, e: DGraph) -> bool { d.n == e.n && d.es == e.es && d.cap == e.cap && d.rev == e.rev && d.res.len() == d.es.len() }
// ---- maximum flow (library): flow value, residual capacities; the reachable side of the residual network is a minimum cut
pub uninterp spec fn max_flow(es: Seq<(int, int)>, c: Seq<int>, s: int, t: int) -> int;
pub uninterp spec fn flow_rest(es: Seq<(int, int)>, c: Seq<int>, rev: Seq<int>, s: int, t: int) -> Seq<int>;
pub uninterp spec fn scc(es: Seq<(int, int)>, n: int) -> Seq<int>;
pub open spec fn rest_arcs(d: DGraph, s: int, t: int) -> Seq<(int, int)> { pos_arcs(d.es, flow_rest(d.es, d.cap, d.rev, s, t), d.es.len() as int) }
#[verifier::external_body]
pub proof fn axiom_max_flow(d: DGraph, s: int, t: int)
    requires net_ok(d), 0 <= s < d.n, 0 <= t < d.n, s != t
    ensures flow_rest(d.es, d.cap, d.rev, s, t).len() == d.es.len(), !reaches(rest_arcs(d, s, t), s, t),
        dcut(d.es, d.cap, side(rest_arcs(d, s, t), s, true, d.n).to_set(), d.es.len() as int) == max_flow(d.es, d.cap, s, t),
        forall|x: Set<int>| x.contains(s) && !x.contains(t) ==> max_flow(d.es, d.cap, s, t) <= #[trigger] dcut(d.es, d.cap, x, d.es.len() as int)
{}
pub proof fn dcut_prefix(a: Seq<(int, int)>, c: Seq<int>, b: Seq<(int, int)>, e: Seq<int>, x: Set<int>, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i], forall|i: int| 0 <= i < k ==> #[trigger] c[i] == e[i]
    ensures dcut(a, c, x, k) == dcut(b, e, x, k)
    decreases k
{ if k > 0 { dcut_prefix(a, c, b, e, x, k - 1); } }
pub proof fn quad_shape(d: DGraph, a: int, b: int, c: int)
    requires net_ok(d), c >= 0, a >= 0, b >= 0, d.n >= 0
    ensures net_ok(quad(d, a, b, c)), quad(d, a, b, c).es.len() == d.es.len() + 4, forall|x: Set<int>| #[trigger] dcut(quad(d, a, b, c).es, quad(d, a, b, c).cap, x, d.es.len() as int + 4) == dcut(d.es, d.cap, x, d.es.len() as int) + (if x.contains(a) != x.contains(b) { c } else { 0 })
{
    let q = quad(d, a, b, c); let i = d.es.len() as int;
    assert(q.es =~= d.es.push((a, b)).push((b, a)).push((b, a)).push((a, b))); assert(q.cap =~= d.cap.push(c).push(c).push(0).push(0));
    assert(q.rev =~= d.rev.push(i + 2).push(i + 3).push(i).push(i + 1));
    assert forall|e: int| 0 <= e < q.es.len() implies #[trigger] arc_ok(q, e) by { if e < i { assert(arc_ok(d, e)); assert(q.rev[e] == d.rev[e]); assert(q.es[e] == d.es[e]); let r = d.rev[e]; assert(q.es[r] == d.es[r]); assert(q.rev[r] == d.rev[r]); } }
    assert forall|x: Set<int>| #[trigger] dcut(q.es, q.cap, x, i + 4) == dcut(d.es, d.cap, x, i) + (if x.contains(a) != x.contains(b) { c } else { 0 }) by {
        dcut_prefix(q.es, q.cap, d.es, d.cap, x, i);
        assert(dcut(q.es, q.cap, x, i + 4) == dcut(q.es, q.cap, x, i + 3) + (if x.contains(q.es[i + 3].0) && !x.contains(q.es[i + 3].1) { q.cap[i + 3] } else { 0 }));
        assert(dcut(q.es, q.cap, x, i + 3) == dcut(q.es, q.cap, x, i + 2) + (if x.contains(q.es[i + 2].0) && !x.contains(q.es[i + 2].1) { q.cap[i + 2] } else { 0 }));
        assert(dcut(q.es, q.cap, x, i + 2) == dcut(q.es, q.cap, x, i + 1) + (if x.contains(q.es[i + 1].0) && !x.contains(q.es[i + 1].1) { q.cap[i + 1] } else { 0 }));
        assert(dcut(q.es, q.cap, x, i + 1) == dcut(q.es, q.cap, x, i) + (if x.contains(q.es[i].0) && !x.contains(q.es[i].1) { q.cap[i] } else { 0 }));
    }
}
/// the network is well formed, every directed cut has the capacity of the undirected one, and its vertices are the ends of the edges
pub proof fn network_shape(se: Seq<(int, int)>, cs: Seq<int>, k: int)
    requires 0 <= k <= se.len(), se.len() == cs.len(), forall|i: int| 0 <= i < k ==> #[trigger] cs[i] >= 0, forall|i: int| 0 <= i < k ==> (#[trigger] se[i]).0 >= 0 && se[i].1 >= 0
    ensures net_ok(network(se, cs, k)), network(se, cs, k).es.len() == 4 * k, network(se, cs, k).n >= 0, forall|x: Set<int>| #[trigger] dcut(network(se, cs, k).es, network(se, cs, k).cap, x, 4 * k) == ucut(se, cs, x, k),
        forall|i: int| 0 <= i < k ==> (#[trigger] se[i]).0 < network(se, cs, k).n && se[i].1 < network(se, cs, k).n, k == 0 ==> network(se, cs, k).n == 0, k > 0 ==> exists|i: int| 0 <= i < k && ((#[trigger] se[i]).0 == network(se, cs, k).n - 1 || se[i].1 == network(se, cs, k).n - 1)
    decreases k
{
    if k > 0 {
        network_shape(se, cs, k - 1); let d = network(se, cs, k - 1); quad_shape(d, se[k - 1].0, se[k - 1].1, cs[k - 1]); let q = network(se, cs, k);
        assert(q.n == max3(d.n, se[k - 1].0 + 1, se[k - 1].1 + 1));
        if q.n == d.n && k - 1 > 0 { let i = choose|i: int| 0 <= i < k - 1 && ((#[trigger] se[i]).0 == d.n - 1 || se[i].1 == d.n - 1); assert(se[i].0 == q.n - 1 || se[i].1 == q.n - 1); } else { assert(se[k - 1].0 == q.n - 1 || se[k - 1].1 == q.n - 1); }
        assert forall|x: Set<int>| #[trigger] dcut(q.es, q.cap, x, 4 * k) == ucut(se, cs, x, k) by { assert(dcut(d.es, d.cap, x, 4 * (k - 1)) == ucut(se, cs, x, k - 1)); }
    }
}
pub proof fn side_prop(es: Seq<(int, int)>, s: int, b: bool, k: int)
    requires 0 <= k
    ensures forall|v: int| #[trigger] side(es, s, b, k).contains(v) <==> 0 <= v < k && reaches(es, s, v) == b, forall|i: int, j: int| 0 <= i < j < side(es, s, b, k).len() ==> side(es, s, b, k)[i] < side(es, s, b, k)[j]
    decreases k
{
    if k > 0 {
        side_prop(es, s, b, k - 1); let p = side(es, s, b, k - 1); let q = side(es, s, b, k);
        assert forall|v: int| #[trigger] q.contains(v) <==> 0 <= v < k && reaches(es, s, v) == b by {
            if q.contains(v) { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; if i < p.len() { assert(p[i] == v); assert(p.contains(v)); } }
            if 0 <= v < k && reaches(es, s, v) == b { if v < k - 1 { assert(p.contains(v)); let i = choose|i: int| 0 <= i < p.len() && p[i] == v; assert(q[i] == v); } else { assert(q[p.len() as int] == v); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] < q[j] by { if j == p.len() { assert(p.contains(p[i])); } }
    }
}
// ---- renaming between the network and the graph
pub open spec fn lk_ok(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, nb: int) -> bool {
    &&& wfb(lk) &&& se.len() == ps.len() &&& (forall|v: int| #[trigger] lk.l.dom().contains(v) <==> 0 <= v < nb) &&& (forall|x: int| #[trigger] lk.r.dom().contains(x) <==> touched(ps, x))
    &&& (forall|i: int| 0 <= i < ps.len() ==> #[trigger] se[i] == (lk.r[ps[i].0], lk.r[ps[i].1])) &&& nb >= 0
}
pub proof fn lk_intro(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>)
    requires one_to_one(lk), named(lk, flat(ps), 2 * (ps.len() as int)), se.len() == ps.len(), cs.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] se[i] == (lk.r[ps[i].0], lk.r[ps[i].1]), forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] >= 0
    ensures lk_ok(lk, ps, se, network(se, cs, ps.len() as int).n), net_ok(network(se, cs, ps.len() as int)), network(se, cs, ps.len() as int).es.len() == 4 * ps.len(), network(se, cs, ps.len() as int).n >= 0, forall|x: Set<int>| #[trigger] dcut(network(se, cs, ps.len() as int).es, network(se, cs, ps.len() as int).cap, x, 4 * (ps.len() as int)) == ucut(se, cs, x, ps.len() as int)
{
    reveal(dense); reveal(named); let nb = choose|n: int| dense(lk, n); let f = flat(ps); let m = ps.len() as int;
    assert forall|x: int| #[trigger] lk.r.dom().contains(x) <==> touched(ps, x) by {
        if seen(f, 2 * m, x) { let i = choose|i: int| 0 <= i < 2 * m && f[i] == x; let j = i / 2; assert(ps[j].0 == x || ps[j].1 == x); }
        if touched(ps, x) { let i = choose|i: int| 0 <= i < m && ((#[trigger] ps[i]).0 == x || ps[i].1 == x); assert(f[2 * i] == ps[i].0); assert(f[2 * i + 1] == ps[i].1); if ps[i].0 == x { assert(0 <= 2 * i < 2 * m && f[2 * i] == x); } else { assert(0 <= 2 * i + 1 < 2 * m && f[2 * i + 1] == x); } assert(seen(f, 2 * m, x)); }
    }
    assert forall|i: int| 0 <= i < m implies 0 <= (#[trigger] se[i]).0 < nb && 0 <= se[i].1 < nb by { let a = ps[i].0; let b = ps[i].1; assert(touched(ps, a)); assert(touched(ps, b)); assert(lk.r.dom().contains(a) && lk.r.dom().contains(b)); assert(lk.l.dom().contains(lk.r[a]) && lk.l.dom().contains(lk.r[b])); }
    network_shape(se, cs, m); let q = network(se, cs, m);
    if nb > 0 { let v = nb - 1; assert(lk.l.dom().contains(v)); let x = lk.l[v]; assert(lk.r.dom().contains(x)); let i = choose|i: int| 0 <= i < m && ((#[trigger] ps[i]).0 == x || ps[i].1 == x); assert(se[i].0 == v || se[i].1 == v); assert(q.n >= nb); }
    if m > 0 { let i = choose|i: int| 0 <= i < m && ((#[trigger] se[i]).0 == q.n - 1 || se[i].1 == q.n - 1); assert(q.n <= nb); }
    assert(q.n == nb);
}
pub open spec fn old_of(lk: Bimap, s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| lk.l[s[i]]) }
pub open spec fn agree(lk: Bimap, x: Set<int>, y: Set<int>, nb: int) -> bool { forall|v: int| 0 <= v < nb ==> (#[trigger] y.contains(v) <==> x.contains(lk.l[v])) }
pub proof fn ucut_agree(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, nb: int, x: Set<int>, y: Set<int>, k: int)
    requires lk_ok(lk, ps, se, nb), agree(lk, x, y, nb), 0 <= k <= ps.len()
    ensures ucut(ps, cs, x, k) == ucut(se, cs, y, k)
    decreases k
{
    if k > 0 {
        ucut_agree(lk, ps, se, cs, nb, x, y, k - 1); let a = ps[k - 1].0; let b = ps[k - 1].1; assert(touched(ps, a)); assert(touched(ps, b)); assert(lk.r.dom().contains(a) && lk.r.dom().contains(b));
        assert(se[k - 1] == (lk.r[a], lk.r[b])); assert(lk.l.dom().contains(lk.r[a]) && lk.l.dom().contains(lk.r[b])); assert(y.contains(lk.r[a]) <==> x.contains(lk.l[lk.r[a]])); assert(y.contains(lk.r[b]) <==> x.contains(lk.l[lk.r[b]]));
    }
}
pub proof fn old_of_prop(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, nb: int, es: Seq<(int, int)>, s: int, b: bool)
    requires lk_ok(lk, ps, se, nb)
    ensures old_of(lk, side(es, s, b, nb)).no_duplicates(), forall|v: int| 0 <= v < nb ==> (#[trigger] old_of(lk, side(es, s, b, nb)).contains(lk.l[v]) <==> reaches(es, s, v) == b), forall|x: int| #[trigger] old_of(lk, side(es, s, b, nb)).contains(x) ==> touched(ps, x) && reaches(es, s, lk.r[x]) == b
{
    side_prop(es, s, b, nb); let q = side(es, s, b, nb); let o = old_of(lk, q);
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by { assert(q.contains(q[i]) && q.contains(q[j])); assert(lk.l.dom().contains(q[i]) && lk.l.dom().contains(q[j])); if i < j { assert(q[i] < q[j]); } else { assert(q[j] < q[i]); } assert(lk.r[o[i]] == q[i] && lk.r[o[j]] == q[j]); }
    assert forall|v: int| 0 <= v < nb implies (#[trigger] o.contains(lk.l[v]) <==> reaches(es, s, v) == b) by {
        assert(lk.l.dom().contains(v));
        if o.contains(lk.l[v]) { let i = choose|i: int| 0 <= i < o.len() && o[i] == lk.l[v]; assert(q.contains(q[i])); assert(lk.l.dom().contains(q[i])); assert(lk.r[lk.l[v]] == v && lk.r[lk.l[q[i]]] == q[i]); }
        if reaches(es, s, v) == b { assert(q.contains(v)); let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(o[i] == lk.l[v]); }
    }
    assert forall|x: int| #[trigger] o.contains(x) implies touched(ps, x) && reaches(es, s, lk.r[x]) == b by { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(q.contains(q[i])); assert(lk.l.dom().contains(q[i])); assert(lk.r.dom().contains(x)); }
}
/// the two sides of the residual network are the two sides of a cut of the capacity of the flow
pub proof fn flow_cut(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, d: DGraph, root: int, t: int, u: int, far: bool)
    requires lk_ok(lk, ps, se, d.n), net_ok(d), cs.len() == ps.len(), d.es.len() == 4 * ps.len(), forall|x: Set<int>| #[trigger] dcut(d.es, d.cap, x, 4 * (ps.len() as int)) == ucut(se, cs, x, ps.len() as int), touched(ps, root), 0 <= t < d.n, t != lk.r[root],
        max_flow(d.es, d.cap, lk.r[root], t) < 2000000, 0 <= u < d.n, !reaches(rest_arcs(d, lk.r[root], t), lk.r[root], u)
    ensures good_cut(ps, cs, root, Cut { set: old_of(lk, side(rest_arcs(d, lk.r[root], t), lk.r[root], !far, d.n)), t: lk.l[u] }), old_of(lk, side(rest_arcs(d, lk.r[root], t), lk.r[root], !far, d.n)).no_duplicates(),
        old_of(lk, side(rest_arcs(d, lk.r[root], t), lk.r[root], !far, d.n)).contains(root) == !far, old_of(lk, side(rest_arcs(d, lk.r[root], t), lk.r[root], !far, d.n)).contains(lk.l[u]) == far
{
    let s = lk.r[root]; assert(lk.r.dom().contains(root)); assert(lk.l.dom().contains(s) && lk.l[s] == root); axiom_max_flow(d, s, t); let es = rest_arcs(d, s, t); reaches_self(es, s);
    old_of_prop(lk, ps, se, d.n, es, s, true); old_of_prop(lk, ps, se, d.n, es, s, !far); side_prop(es, s, true, d.n);
    let near = old_of(lk, side(es, s, true, d.n)); let x = near.to_set(); let y = side(es, s, true, d.n).to_set(); let set = old_of(lk, side(es, s, !far, d.n));
    assert forall|v: int| 0 <= v < d.n implies (#[trigger] y.contains(v) <==> x.contains(lk.l[v])) by { assert(near.contains(lk.l[v]) <==> reaches(es, s, v)); assert(side(es, s, true, d.n).contains(v) <==> reaches(es, s, v)); }
    ucut_agree(lk, ps, se, cs, d.n, x, y, ps.len() as int); assert(dcut(d.es, d.cap, y, 4 * (ps.len() as int)) == ucut(se, cs, y, ps.len() as int));
    assert(near.contains(lk.l[s])); assert(!near.contains(lk.l[u])); assert(lk.l.dom().contains(u)); assert(lk.r.dom().contains(lk.l[u])); assert(touched(ps, lk.l[u]));
    assert(below_two(ps, cs, root, lk.l[u], x));
    assert forall|v: int| #[trigger] set.contains(v) <==> touched(ps, v) && (x.contains(v) == !far) by {
        if touched(ps, v) { assert(lk.r.dom().contains(v)); let w = lk.r[v]; assert(lk.l.dom().contains(w) && lk.l[w] == v); assert(set.contains(lk.l[w]) <==> reaches(es, s, w) == !far); assert(near.contains(lk.l[w]) <==> reaches(es, s, w) == true); }
    }
    assert(lists(ps, set, x));
}
/// a vertex that some cut below two separates has a flow below two
pub proof fn cut_flow(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, d: DGraph, root: int, v: int, x: Set<int>)
    requires lk_ok(lk, ps, se, d.n), net_ok(d), cs.len() == ps.len(), d.es.len() == 4 * ps.len(), forall|y: Set<int>| #[trigger] dcut(d.es, d.cap, y, 4 * (ps.len() as int)) == ucut(se, cs, y, ps.len() as int), touched(ps, root), touched(ps, v), below_two(ps, cs, root, v, x)
    ensures 0 <= lk.r[v] < d.n, lk.l[lk.r[v]] == v, lk.r[v] != lk.r[root], max_flow(d.es, d.cap, lk.r[root], lk.r[v]) < 2000000
{
    let s = lk.r[root]; let t = lk.r[v]; assert(lk.r.dom().contains(root) && lk.r.dom().contains(v)); assert(lk.l.dom().contains(s) && lk.l.dom().contains(t)); assert(lk.l[s] == root && lk.l[t] == v);
    let base = int_range(0, d.n).to_set(); let y = base.filter(|w: int| x.contains(lk.l[w]));
    assert forall|w: int| 0 <= w < d.n implies (#[trigger] y.contains(w) <==> x.contains(lk.l[w])) by { assert(int_range(0, d.n)[w] == w); assert(int_range(0, d.n).contains(w)); }
    ucut_agree(lk, ps, se, cs, d.n, x, y, ps.len() as int); axiom_max_flow(d, s, t); assert(y.contains(s) && !y.contains(t));
    assert(dcut(d.es, d.cap, y, 4 * (ps.len() as int)) == ucut(se, cs, y, ps.len() as int));
}
pub proof fn caps_nonneg(g: Graph, m: Map<int, int>, s: int, rc: Set<int>)
    requires m.dom().finite()
    ensures forall|i: int| 0 <= i < comp_caps(g, m, s, rc).len() ==> #[trigger] comp_caps(g, m, s, rc)[i] >= 0
{
    used_edges_exact(g, m, s); let ue = used_edges(g, m, s); comp_sub(g, ue, rc, ue.len() as int);
    assert forall|i: int| 0 <= i < comp_caps(g, m, s, rc).len() implies #[trigger] comp_caps(g, m, s, rc)[i] >= 0 by { let e = inner_edges(g, m, s, rc)[i]; assert(ue.contains(e)); assert(is_used(g, m, s, e)); axiom_trunc(1000000real * sol_val(s, m[e])); assert(1000000real * sol_val(s, m[e]) >= 0real); }
}
pub proof fn comp_sub(g: Graph, ue: Seq<int>, rc: Set<int>, k: int)
    requires 0 <= k <= ue.len()
    ensures forall|i: int| 0 <= i < comp_edges(g, ue, rc, k).len() ==> ue.contains(#[trigger] comp_edges(g, ue, rc, k)[i])
    decreases k
{ if k > 0 { comp_sub(g, ue, rc, k - 1); let p = comp_edges(g, ue, rc, k - 1); let q = comp_edges(g, ue, rc, k); assert forall|i: int| 0 <= i < q.len() implies ue.contains(#[trigger] q[i]) by { if i < p.len() { assert(q[i] == p[i]); } else { assert(q[i] == ue[k - 1]); } } } }

pub proof fn same_ok(d: DGraph, e: DGraph)
    requires net_ok(e), same_net(d, e)
    ensures net_ok(d)
{ assert forall|i: int| 0 <= i < d.es.len() implies #[trigger] arc_ok(d, i) by { assert(arc_ok(e, i)); } }
pub open spec fn map_ok(g: Graph, m: Map<int, int>) -> bool { m.dom().finite() && forall|e: int| #[trigger] m.dom().contains(e) ==> 0 <= e < g.es.len() }
pub proof fn touched_range(g: Graph, m: Map<int, int>, s: int, rc: Set<int>)
    requires map_ok(g, m), wf(g)
    ensures forall|v: int| #[trigger] touched(comp_pairs(g, m, s, rc), v) ==> 0 <= v < g.n
{
    used_edges_exact(g, m, s); let ue = used_edges(g, m, s); comp_sub(g, ue, rc, ue.len() as int); let ps = comp_pairs(g, m, s, rc);
    assert forall|v: int| #[trigger] touched(ps, v) implies 0 <= v < g.n by { let i = choose|i: int| 0 <= i < ps.len() && ((#[trigger] ps[i]).0 == v || ps[i].1 == v); let e = inner_edges(g, m, s, rc)[i]; assert(ue.contains(e)); assert(is_used(g, m, s, e)); assert(m.dom().contains(e)); assert(g.es[e] == g.es[e]); }
}
// what stays fixed while the vertices are tried as targets
pub open spec fn ready(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, nt: DGraph, root: int) -> bool {
    &&& lk_ok(lk, ps, se, nt.n) &&& net_ok(nt) &&& cs.len() == ps.len() &&& nt.es.len() == 4 * ps.len() &&& touched(ps, root) &&& nt.n >= 0 &&& lk.r.dom().contains(root) &&& 0 <= lk.r[root] < nt.n &&& lk.l[lk.r[root]] == root
    &&& (forall|x: Set<int>| #[trigger] dcut(nt.es, nt.cap, x, 4 * (ps.len() as int)) == ucut(se, cs, x, ps.len() as int))
}
pub open spec fn covered(lk: Bimap, nt: DGraph, s: int, done: Seq<bool>, k: int) -> bool { forall|v: int| 0 <= v < k && v != s && max_flow(nt.es, nt.cap, s, v) < 2000000 ==> #[trigger] done[v] }
pub open spec fn marked(lk: Bimap, nt: DGraph, s: int, done: Seq<bool>, cuts: Seq<Cut>) -> bool { forall|v: int| 0 <= v < nt.n && #[trigger] done[v] && v != s ==> targeted(cuts, lk.l[v]) }
pub proof fn cuts_push(lk: Bimap, ps: Seq<(int, int)>, cs: Seq<int>, nt: DGraph, root: int, s: int, done: Seq<bool>, cuts: Seq<Cut>, c: Cut, u: int)
    requires all_good(ps, cs, root, cuts), good_cut(ps, cs, root, c), marked(lk, nt, s, done, cuts), done.len() == nt.n, 0 <= u < nt.n, c.t == lk.l[u]
    ensures all_good(ps, cs, root, cuts.push(c)), marked(lk, nt, s, done.update(u, true), cuts.push(c)), targeted(cuts.push(c), c.t)
{
    let n = cuts.push(c); assert(n[cuts.len() as int] == c); assert(targeted(n, c.t));
    assert forall|i: int| 0 <= i < n.len() implies good_cut(ps, cs, root, #[trigger] n[i]) by { if i < cuts.len() { assert(n[i] == cuts[i]); } }
    assert forall|v: int| 0 <= v < nt.n && #[trigger] done.update(u, true)[v] && v != s implies targeted(n, lk.l[v]) by { if v != u { assert(done[v]); let i = choose|i: int| 0 <= i < cuts.len() && (#[trigger] cuts[i]).t == lk.l[v]; assert(n[i].t == lk.l[v]); } }
}
pub proof fn rows_of_push(h: int, g: Graph, m: Map<int, int>, root: int, cuts: Seq<Cut>, c: Cut)
    ensures rows_of(h, g, m, root, cuts.push(c)) == rows_of(h, g, m, root, cuts).push(sec_row(h, g, m, c.set, root, c.t))
{ assert(rows_of(h, g, m, root, cuts.push(c)) =~= rows_of(h, g, m, root, cuts).push(sec_row(h, g, m, c.set, root, c.t))); }
pub proof fn side_members(es: Seq<(int, int)>, s: int, b: bool, n: int)
    requires 0 <= n
    ensures forall|i: int| 0 <= i < side(es, s, b, n).len() ==> 0 <= #[trigger] side(es, s, b, n)[i] < n && reaches(es, s, side(es, s, b, n)[i]) == b, forall|v: int| #[trigger] side(es, s, b, n).contains(v) <==> 0 <= v < n && reaches(es, s, v) == b
{ side_prop(es, s, b, n); assert forall|i: int| 0 <= i < side(es, s, b, n).len() implies 0 <= #[trigger] side(es, s, b, n)[i] < n && reaches(es, s, side(es, s, b, n)[i]) == b by { assert(side(es, s, b, n).contains(side(es, s, b, n)[i])); } }
pub proof fn all_covered(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, nt: DGraph, root: int, done: Seq<bool>, cuts: Seq<Cut>)
    requires ready(lk, ps, se, cs, nt, root), covered(lk, nt, lk.r[root], done, nt.n), marked(lk, nt, lk.r[root], done, cuts)
    ensures complete(ps, cs, root, cuts)
{
    assert forall|v: int, x: Set<int>| touched(ps, v) && #[trigger] below_two(ps, cs, root, v, x) implies targeted(cuts, v) by { cut_flow(lk, ps, se, cs, nt, root, v, x); assert(done[lk.r[v]]); }
}
pub proof fn ready_intro(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, root: int)
    requires one_to_one(lk), named(lk, flat(ps), 2 * (ps.len() as int)), se.len() == ps.len(), cs.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] se[i] == (lk.r[ps[i].0], lk.r[ps[i].1]), forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] >= 0, touched(ps, root)
    ensures ready(lk, ps, se, cs, network(se, cs, ps.len() as int), root)
{ lk_intro(lk, ps, se, cs); assert(lk.r.dom().contains(root)); assert(lk.l.dom().contains(lk.r[root])); }
pub proof fn ready_facts(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, nt: DGraph, root: int)
    requires ready(lk, ps, se, cs, nt, root)
    ensures nt.n >= 0, 0 <= lk.r[root] < nt.n, lk.r.dom().contains(root), lk.l[lk.r[root]] == root, net_ok(nt), wfb(lk), forall|v: int| 0 <= v < nt.n ==> #[trigger] lk.l.dom().contains(v) && lk.r.dom().contains(lk.l[v]) && lk.r[lk.l[v]] == v && touched(ps, lk.l[v]), nt.res.len() == nt.es.len(), nt.cap.len() == nt.es.len(), nt.rev.len() == nt.es.len()
{ assert forall|v: int| 0 <= v < nt.n implies #[trigger] lk.l.dom().contains(v) && lk.r.dom().contains(lk.l[v]) && lk.r[lk.l[v]] == v && touched(ps, lk.l[v]) by { assert(lk.l.dom().contains(v)); } }
pub proof fn start(h: int, g: Graph, m: Map<int, int>, root: int, sc: Scip, s: int, r0: int, n0: int, lk: Bimap, ps: Seq<(int, int)>, cs: Seq<int>, nt: DGraph, done: Seq<bool>)
    requires forall|v: int| 0 <= v < nt.n && v != lk.r[root] ==> !#[trigger] done[v]
    ensures did_add(sc, sc, s, rows_of(h, g, m, root, Seq::empty()), r0, r0, n0, n0), all_good(ps, cs, root, Seq::empty()), marked(lk, nt, lk.r[root], done, Seq::empty())
{ rows_none(sc, s); assert(rows_of(h, g, m, root, Seq::empty()) =~= Seq::empty()); }
/// the side used as the set: within the graph, one whole side, on the right side of root and target
pub proof fn side_set(lk: Bimap, ps: Seq<(int, int)>, se: Seq<(int, int)>, cs: Seq<int>, nt: DGraph, root: int, t: int, u: int, far: bool, g: Graph, set: Seq<int>)
    requires ready(lk, ps, se, cs, nt, root), 0 <= t < nt.n, t != lk.r[root], max_flow(nt.es, nt.cap, lk.r[root], t) < 2000000, side(rest_arcs(nt, lk.r[root], t), lk.r[root], false, nt.n).contains(u), forall|v: int| #[trigger] touched(ps, v) ==> 0 <= v < g.n,
        set == old_of(lk, side(rest_arcs(nt, lk.r[root], t), lk.r[root], !far, nt.n))
    ensures 0 <= u < nt.n, good_cut(ps, cs, root, Cut { set, t: lk.l[u] }), set_ok(g, set), set.contains(root) == !far, set.contains(lk.l[u]) == far, 0 <= lk.l[u] < g.n
{
    let es = rest_arcs(nt, lk.r[root], t); side_members(es, lk.r[root], false, nt.n); flow_cut(lk, ps, se, cs, nt, root, t, u, far); assert(lk.l.dom().contains(u)); assert(touched(ps, lk.l[u])); old_of_prop(lk, ps, se, nt.n, es, lk.r[root], !far);
    assert forall|j: int| 0 <= j < set.len() implies 0 <= #[trigger] set[j] < g.n by { assert(set.contains(set[j])); assert(touched(ps, set[j])); }
}
pub proof fn one_more(h: int, g: Graph, m: Map<int, int>, root: int, sc0: Scip, sc: Scip, s: int, r0: int, r1: int, n0: int, n1: int, lk: Bimap, ps: Seq<(int, int)>, cs: Seq<int>, nt: DGraph, done: Seq<bool>, cuts: Seq<Cut>, c: Cut, u: int)
    requires did_add(sc0, sc, s, rows_of(h, g, m, root, cuts), r0, r1, n0, n1), all_good(ps, cs, root, cuts), good_cut(ps, cs, root, c), marked(lk, nt, lk.r[root], done, cuts), done.len() == nt.n, 0 <= u < nt.n, c.t == lk.l[u]
    ensures did_add(sc0, with_row(sc, finish_row(s, sec_row(h, g, m, c.set, root, c.t))), s, rows_of(h, g, m, root, cuts.push(c)), r0, row_result(s, sec_row(h, g, m, c.set, root, c.t), r1), n0, n1 + 1), all_good(ps, cs, root, cuts.push(c)), marked(lk, nt, lk.r[root], done.update(u, true), cuts.push(c))
{ cuts_push(lk, ps, cs, nt, root, lk.r[root], done, cuts, c, u); rows_of_push(h, g, m, root, cuts, c); rows_push(sc0, s, rows_of(h, g, m, root, cuts), sec_row(h, g, m, c.set, root, c.t), r0); }
pub proof fn nothing_to_cut(h: int, g: Graph, m: Map<int, int>, root: int, s: int, rc: Set<int>, sc: Scip, r0: int, n0: int)
    requires comp_pairs(g, m, s, rc).len() == 0
    ensures cuts_added(h, g, m, root, s, rc, sc, sc, r0, r0, n0, n0)
{ rows_none(sc, s); let e = Seq::<Cut>::empty(); assert(rows_of(h, g, m, root, e) =~= Seq::empty()); assert(complete(comp_pairs(g, m, s, rc), comp_caps(g, m, s, rc), root, e)); assert(flow_step(h, g, m, root, s, rc, e, sc, sc, r0, r0, n0, n0)); }
pub proof fn finished(h: int, g: Graph, m: Map<int, int>, root: int, s: int, rc: Set<int>, sc0: Scip, sc: Scip, r0: int, r1: int, n0: int, n1: int, lk: Bimap, se: Seq<(int, int)>, nt: DGraph, done: Seq<bool>, cuts: Seq<Cut>)
    requires ready(lk, comp_pairs(g, m, s, rc), se, comp_caps(g, m, s, rc), nt, root), covered(lk, nt, lk.r[root], done, nt.n), marked(lk, nt, lk.r[root], done, cuts), all_good(comp_pairs(g, m, s, rc), comp_caps(g, m, s, rc), root, cuts), did_add(sc0, sc, s, rows_of(h, g, m, root, cuts), r0, r1, n0, n1)
    ensures cuts_added(h, g, m, root, s, rc, sc0, sc, r0, r1, n0, n1)
{ all_covered(lk, comp_pairs(g, m, s, rc), se, comp_caps(g, m, s, rc), nt, root, done, cuts); assert(flow_step(h, g, m, root, s, rc, cuts, sc0, sc, r0, r1, n0, n1)); }
''', ['net_ok', 'rows_of', 'all_good', 'good_cut', 'marked', 'complete', 'flow_step', 'did_add', 'ready', 'touched', 'old_of', 'agree', 'lk_ok'])
def strong(self, a, n):
    g, c = self.expr(a[0]), self.expr(a[1])
    if c.ty != 'PropArr': raise Unsupported('component map')
    lv = c.meta['arr']; self.ob(f'{lv.read()}.len() == {g.s}.n', 'the component array has an entry for every vertex')
    self.write(lv, f'scc({g.s}.es, {g.s}.n)'); return E('0int', 'int')
def push_relabel(self, a, n):
    def pm(x):
        x = unwrap(x)
        while x.get('kind') == 'CXXConstructExpr' and len(x.get('inner', [])) == 1: x = unwrap(x['inner'][0])
        e = self.expr(x)
        if e.ty != 'EProp' or e.lv is None: raise Unsupported('property map of push_relabel_max_flow')
        return e
    g, s, t = self.expr(a[0]), self.expr(a[1]), self.expr(a[2])
    cap, res, rev = pm(a[3]), pm(a[4]), pm(a[5])
    if g.ty != 'DGraph' or g.lv is None: raise Unsupported('graph of push_relabel_max_flow')
    for e, f in ((cap, 'cap'), (res, 'res'), (rev, 'rev')):
        if e.lv.base != g.lv.base or not e.lv.path or e.lv.path[-1][0] != 'fld' or list(e.lv.path[:-1]) != list(g.lv.path): raise Unsupported('property map of another graph')
    G = lambda: g.lv.read()
    d = self.tmp(f'DGraph {{ cap: {cap.lv.read()}, rev: {rev.lv.read()}, ..{G()} }}', 'DGraph')
    self.ob(f'0 <= {s.s} < {d}.n && 0 <= {t.s} < {d}.n && {s.s} != {t.s}', 'source and target are two vertices'); self.ob(f'net_ok({d})', 'every arc has its reverse arc and a capacity')
    s, t = self.tmp(s.s, 'int'), self.tmp(t.s, 'int')
    self.emit(Hint(f'proof {{ axiom_max_flow({d}, {s}, {t}); }}'))
    self.write(res.lv, f'flow_rest({d}.es, {d}.cap, {d}.rev, {s}, {t})')
    return E(f'max_flow({d}.es, {d}.cap, {s}, {t})', 'int')
PSF = 'comp_pairs($in_input_graph, $in_edge_variable_map, $sol, $in_root_component)'; CSF = 'comp_caps($in_input_graph, $in_edge_variable_map, $sol, $in_root_component)'
FIXM = ['$input_graph == $in_input_graph', '$edge_variable_map == $in_edge_variable_map', '$root_vertex == $in_root_vertex', '$root_component == $in_root_component']
NET = FIXM + [f'$root_edge_vector == {PSF}', f'$root_capacity_vector == {CSF}', 'ready($lookup, $root_edge_vector, $support_edges, $root_capacity_vector, nt, $root_vertex)', 'same_net($support_graph, nt)', '$support_root == $lookup.r[$root_vertex]', '$added_sec.len() == nt.n',
       'did_add($in_scip, $scip, $sol, rows_of($conshdlr, $in_input_graph, $in_edge_variable_map, $in_root_vertex, cs), $in_result, $result, $in_num_conss_added, $num_conss_added)',
       'all_good($root_edge_vector, $root_capacity_vector, $root_vertex, cs)', 'marked($lookup, nt, $support_root, $added_sec, cs)']
RA = 'rest_arcs(nt, $support_root, $target)'
SIDE = 'side(%s, $support_root, %%s, nt.n)' % RA
CM = {**CR_, **{k: v for k, v in c14.C.items() if not k.startswith('__')}, **{k: v for k, v in c01.C.items() if not k.startswith('__')}, **{k: v for k, v in sec.C.items() if not k.startswith('__')},
 '__calls__': {**RR['__calls__'], 'make_iterator_property_map': c13.prop_arr, 'strong_components': strong, 'push_relabel_max_flow': push_relabel},
 'PCTSPseparateMaxflowMincut': [dict(attrs='#[verifier::rlimit(40)]', params=['scip', 'conshdlr', 'input_graph', 'edge_variable_map', 'root_vertex', 'sol', 'result', 'root_component', 'num_conss_added'],
    requires=['model_ok($input_graph, $edge_variable_map)', 'map_ok($input_graph, $edge_variable_map)', '0 <= $root_vertex < $input_graph.n', 'comp_pairs($input_graph, $edge_variable_map, $sol, $root_component).len() > 0 ==> touched(comp_pairs($input_graph, $edge_variable_map, $sol, $root_component), $root_vertex)'],
    ensures=['$exc == 0 && $ret == 1', ('every row cuts along one side of a cut below two between the root and its target, and every vertex such a cut separates has a row', 'cuts_added($conshdlr, $input_graph, $edge_variable_map, $root_vertex, $sol, $root_component, $scip, $out(scip), $result, $out(result), $num_conss_added, $out(num_conss_added))')],
    locals=[('support_graph', 'DGraph'), ('solution_edges', 'Seq<int>'), ('capacity_vector', 'Seq<int>'), ('edge_vector', 'Seq<(int, int)>'), ('root_edge_vector', 'Seq<(int, int)>'), ('root_capacity_vector', 'Seq<int>'), ('i', 'int'), ('lookup', 'Bimap'), ('support_edges', 'Seq<(int, int)>'), ('i_2', 'int'), ('support_root', 'int'), ('component', 'Seq<int>'), ('added_sec', 'Seq<bool>'), ('i_3', 'int'), ('target', 'int'), ('flow', 'int'), ('input_vertices', 'Seq<int>'), ('unreachable', 'Seq<int>'), ('input_target_vertex', 'int')],
    loops=[dict(kind='for', inv=FIXM + ['0 <= $i <= $edge_vector.len()', '$root_edge_vector == pair_seq($input_graph, comp_edges($input_graph, $solution_edges, $root_component, $i))', '$root_capacity_vector == caps_seq($edge_variable_map, $sol, comp_edges($input_graph, $solution_edges, $root_component, $i))'], dec='$edge_vector.len() - $i'),
           dict(kind='for', inv=FIXM + ['0 <= $i_2 <= $support_edges.len()', '$support_graph == network($support_edges, $root_capacity_vector, $i_2)', '$support_graph.es.len() == 4 * $i_2', '$support_graph.rev.len() == 4 * $i_2'], dec='$support_edges.len() - $i_2'),
           dict(kind='for', inv=['0 <= $i_3 <= nt.n', '$added_sec.len() == nt.n', 'forall|j: int| 0 <= j < $i_3 ==> !#[trigger] $added_sec[j]'], dec='$added_sec.len() - $i_3'),
           dict(kind='range', inv=NET + ['$seq == int_range(0, nt.n)', 'covered($lookup, nt, $support_root, $added_sec, $it as int)', '$added_sec[$support_root]']),
           dict(kind='range', inv=NET),
           dict(kind='range', inv=NET + ['$seq == ' + SIDE % 'false', '$input_vertices == old_of($lookup, %s)' % (SIDE % '!far'), '0 <= $target < nt.n', '$target != $support_root', 'max_flow(nt.es, nt.cap, $support_root, $target) < 2000000', '$added_sec[$support_root]',
                'covered($lookup, nt, $support_root, $added_sec, $target)', 'forall|j: int| 0 <= j < $it ==> #[trigger] $added_sec[$seq[j]]'])],
    hints={'loop1.before': 'proof { used_edges_exact($input_graph, $edge_variable_map, $sol); assert($root_edge_vector =~= pair_seq($input_graph, comp_edges($input_graph, $solution_edges, $root_component, 0))); assert($root_capacity_vector =~= caps_seq($edge_variable_map, $sol, comp_edges($input_graph, $solution_edges, $root_component, 0))); }',
           'loop1.body': 'let ghost ce = comp_edges($input_graph, $solution_edges, $root_component, $i); proof { reveal_with_fuel(comp_edges, 2); }',
           'loop1.end': 'proof { let cn = comp_edges($input_graph, $solution_edges, $root_component, $i); assert($root_edge_vector =~= pair_seq($input_graph, cn)); assert($root_capacity_vector =~= caps_seq($edge_variable_map, $sol, cn)); }',
           'loop1.after': f'assert($root_edge_vector == {PSF}); assert($root_capacity_vector == {CSF});',
           'loop2.body': 'proof { reveal_with_fuel(network, 2); let a = $support_edges[$i_2].0; let b = $support_edges[$i_2].1; }',
           'loop2.end': 'proof { let q = network($support_edges, $root_capacity_vector, $i_2); assert($support_graph.rev =~= q.rev); assert($support_graph.es =~= q.es); assert($support_graph.cap =~= q.cap); assert($support_graph.res =~= q.res); }',
           'loop2.after': 'let ghost nt = $support_graph; proof { caps_nonneg($input_graph, $edge_variable_map, $sol, $root_component); ready_intro($lookup, $root_edge_vector, $support_edges, $root_capacity_vector, $root_vertex); ready_facts($lookup, $root_edge_vector, $support_edges, $root_capacity_vector, nt, $root_vertex); touched_range($input_graph, $edge_variable_map, $sol, $root_component); }',
           'loop4.before': 'let ghost mut cs: Seq<Cut> = Seq::empty(); proof { start($conshdlr, $in_input_graph, $in_edge_variable_map, $in_root_vertex, $in_scip, $sol, $in_result, $in_num_conss_added, $lookup, $root_edge_vector, $root_capacity_vector, nt, $added_sec); }',
           'loop5.before': 'proof { axiom_dg_edges($support_graph.es); }', 'loop5.body': 'proof { assert($seq.contains($seq[$it as int])); }',
           'loop5.after': 'proof { same_ok($support_graph, nt); }',
           'decl:unreachable': 'let ghost ra = rest_arcs(nt, $support_root, $target); proof { side_members(ra, $support_root, false, nt.n); side_members(ra, $support_root, true, nt.n); assert($unreachable == side(ra, $support_root, false, nt.n)); assert forall|j: int| 0 <= j < $unreachable.len() implies $lookup.l.dom().contains(#[trigger] $unreachable[j]) by { assert(0 <= side(ra, $support_root, false, nt.n)[j] < nt.n); } assert forall|j: int| 0 <= j < side(ra, $support_root, true, nt.n).len() implies $lookup.l.dom().contains(#[trigger] side(ra, $support_root, true, nt.n)[j]) by { assert(0 <= side(ra, $support_root, true, nt.n)[j] < nt.n); } }',
           'loop6.before': 'let ghost far = $unreachable.len() >= 3; proof { reveal(old_of); assert($input_vertices =~= old_of($lookup, side(ra, $support_root, !far, nt.n))); }',
           'loop6.body': 'let ghost u = $seq[$it as int]; let ghost done0 = $added_sec; let ghost cs0 = cs; let ghost sc0 = $scip; let ghost r0 = $result; let ghost n0 = $num_conss_added; let ghost cut = Cut { set: $input_vertices, t: $lookup.l[u] }; proof { assert($seq.contains(u)); side_set($lookup, $root_edge_vector, $support_edges, $root_capacity_vector, nt, $root_vertex, $target, u, far, $in_input_graph, $input_vertices); }',
           'loop6.end': 'proof { one_more($conshdlr, $in_input_graph, $in_edge_variable_map, $in_root_vertex, $in_scip, sc0, $sol, $in_result, r0, $in_num_conss_added, n0, $lookup, $root_edge_vector, $root_capacity_vector, nt, done0, cs0, cut, u); cs = cs0.push(cut); assert($added_sec == done0.update(u, true)); }',
           'loop6.after': 'proof { assert(side(ra, $support_root, false, nt.n).contains($target)); let j = choose|j: int| 0 <= j < $unreachable.len() && $unreachable[j] == $target; assert($added_sec[$unreachable[j]]); }',
           'return:1': 'proof { nothing_to_cut($conshdlr, $in_input_graph, $in_edge_variable_map, $in_root_vertex, $sol, $in_root_component, $in_scip, $in_result, $in_num_conss_added); }', 'return:4': 'proof { finished($conshdlr, $in_input_graph, $in_edge_variable_map, $in_root_vertex, $sol, $in_root_component, $in_scip, $scip, $in_result, $result, $in_num_conss_added, $num_conss_added, $lookup, $support_edges, nt, $added_sec, cs); }'})],
}

# ---- the separation as a whole
STR = {k: list(v) for k, v in scip.STRUCTS.items()}
STR['Scip'] = STR['Scip'] + [('nodehdlr', 'Seq<NodeEventhdlr>')]
PRELUDE_S = PRELUDE_M + r"""
pub open spec fn step_disjoint(rows: Seq<NodeStats>, id: int, c: int) -> Seq<NodeStats> { rows.update(id - 1, NodeStats { num_sec_disjoint_tour: rows[id - 1].num_sec_disjoint_tour + c, ..rows[id - 1] }) }
pub open spec fn step_flow(rows: Seq<NodeStats>, id: int, c: int) -> Seq<NodeStats> { rows.update(id - 1, NodeStats { num_sec_maxflow_mincut: rows[id - 1].num_sec_maxflow_mincut + c, ..rows[id - 1] }) }
/// at most one node event handler; it has a row for the current node
pub open spec fn nodes_ok(s: Scip) -> bool { s.nodehdlr.len() <= 1 && (s.nodehdlr.len() == 1 ==> { let st = s.nodehdlr[0].node_stats_; let i = node_number(s.current); 1 <= i <= st.len() && st[i - 1].num_sec_disjoint_tour >= 0 && st[i - 1].num_sec_maxflow_mincut >= 0 }) }
pub open spec fn note_disjoint(s: Scip, c: int) -> Scip { if s.nodehdlr.len() == 0 { s } else { Scip { nodehdlr: s.nodehdlr.update(0, NodeEventhdlr { node_stats_: step_disjoint(s.nodehdlr[0].node_stats_, node_number(s.current), c), ..s.nodehdlr[0] }), ..s } } }
pub open spec fn note_flow(s: Scip, c: int) -> Scip { if s.nodehdlr.len() == 0 { s } else { Scip { nodehdlr: s.nodehdlr.update(0, NodeEventhdlr { node_stats_: step_flow(s.nodehdlr[0].node_stats_, node_number(s.current), c), ..s.nodehdlr[0] }), ..s } } }
// ---- components of the support: same label exactly when connected
pub open spec fn walk_in(h: Graph, p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> has_edge(h, #[trigger] p[i], p[i + 1]) }
pub open spec fn links(h: Graph, u: int, v: int, p: Seq<int>) -> bool { p.len() >= 1 && p[0] == u && p[p.len() - 1] == v && walk_in(h, p) && forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < h.n }
pub open spec fn connected(h: Graph, u: int, v: int) -> bool { exists|p: Seq<int>| links(h, u, v, p) }
#[verifier::external_body] pub proof fn axiom_labels(h: Graph, u: int, v: int)
    requires wf(h), 0 <= u < h.n, 0 <= v < h.n
    ensures comp_of(h)[u] == comp_of(h)[v] <==> connected(h, u, v)
{}
pub proof fn leaves(h: Graph, p: Seq<int>, u: int, k: int) -> (j: int)
    requires 0 < k < p.len(), p[0] == u, p[k] != u
    ensures 0 <= j < k, p[j] == u, p[j + 1] != u
    decreases k
{ if p[k - 1] == u { k - 1 } else { leaves(h, p, u, k - 1) } }
pub proof fn pos_pair_of(g: Graph, m: Map<int, int>, s: int, k: int, i: int) -> (e: int)
    requires 0 <= k <= g.es.len(), 0 <= i < pos_pairs(g, m, s, k).len()
    ensures 0 <= e < k, var_pos(s, m[e]), g.es[e] == pos_pairs(g, m, s, k)[i]
    decreases k
{ let p = pos_pairs(g, m, s, k - 1); if var_pos(s, m[k - 1]) && i == p.len() { k - 1 } else { pos_pair_of(g, m, s, k - 1, i) } }
pub proof fn support_wf(g: Graph, m: Map<int, int>, s: int)
    requires wf(g)
    ensures wf(support(g, m, s))
{ let h = support(g, m, s); assert forall|i: int| 0 <= i < h.es.len() implies 0 <= (#[trigger] h.es[i]).0 < h.n && 0 <= h.es[i].1 < h.n by { let e = pos_pair_of(g, m, s, g.es.len() as int, i); assert(g.es[e] == h.es[i]); } }
pub proof fn comp_has(g: Graph, ue: Seq<int>, rc: Set<int>, k: int, j: int)
    requires 0 <= j < k <= ue.len(), in_comp(g, rc, ue[j])
    ensures comp_edges(g, ue, rc, k).contains(ue[j])
    decreases k
{ let p = comp_edges(g, ue, rc, k - 1); let q = comp_edges(g, ue, rc, k); if j < k - 1 { comp_has(g, ue, rc, k - 1, j); let i = choose|i: int| 0 <= i < p.len() && p[i] == ue[j]; assert(q[i] == ue[j]); } else { assert(q[p.len() as int] == ue[j]); } }
pub proof fn comp_in(g: Graph, ue: Seq<int>, rc: Set<int>, k: int)
    requires 0 <= k <= ue.len()
    ensures forall|i: int| 0 <= i < comp_edges(g, ue, rc, k).len() ==> in_comp(g, rc, #[trigger] comp_edges(g, ue, rc, k)[i])
    decreases k
{ if k > 0 { comp_in(g, ue, rc, k - 1); let p = comp_edges(g, ue, rc, k - 1); let q = comp_edges(g, ue, rc, k); assert forall|i: int| 0 <= i < q.len() implies in_comp(g, rc, #[trigger] q[i]) by { if i < p.len() { assert(q[i] == p[i]); } } } }
pub open spec fn root_set(g: Graph, m: Map<int, int>, s: int, r: int) -> Set<int> { root_comp(g, m, s, r).to_set() }
/// if the component of the root has an edge, the root has one
pub proof fn root_touched(g: Graph, m: Map<int, int>, s: int, r: int)
    requires model_ok(g, m), map_ok(g, m), 0 <= r < g.n
    ensures comp_pairs(g, m, s, root_set(g, m, s, r)).len() > 0 ==> touched(comp_pairs(g, m, s, root_set(g, m, s, r)), r)
{
    let h = support(g, m, s); let ids = comp_of(h); let rc = root_set(g, m, s, r); let ps = comp_pairs(g, m, s, rc); let ue = used_edges(g, m, s); reveal(touched);
    axiom_components(h); members_partition(ids, ids[r], g.n); support_wf(g, m, s); used_edges_exact(g, m, s);
    if ps.len() > 0 && !touched(ps, r) {
        let e = inner_edges(g, m, s, rc)[0]; comp_sub(g, ue, rc, ue.len() as int); comp_in(g, ue, rc, ue.len() as int); assert(in_comp(g, rc, e)); let a = e_src(g, e);
        assert(ps[0].0 == a); assert(a != r); assert(rc.contains(a)); assert(root_comp(g, m, s, r).contains(a)); assert(ids[a] == ids[r]);
        axiom_labels(h, r, a); let p = choose|p: Seq<int>| links(h, r, a, p); let j = leaves(h, p, r, p.len() - 1); let y = p[j + 1]; assert(has_edge(h, p[j], p[j + 1])); assert(0 <= p[j + 1] < h.n);
        let i = choose|i: int| 0 <= i < h.es.len() && #[trigger] joins(h, i, r, y); let f = pos_pair_of(g, m, s, g.es.len() as int, i);
        assert(g.es[f] == h.es[i]); assert(m.dom().contains(f)); assert(e_src(g, f) != e_tgt(g, f)); assert(is_used(g, m, s, f)); assert(ue.contains(f)); let q = choose|q: int| 0 <= q < ue.len() && ue[q] == f;
        assert(links(h, r, y, seq![r, y])); axiom_labels(h, r, y); assert(root_comp(g, m, s, r).contains(y)); assert(root_comp(g, m, s, r).contains(r)); assert(rc.contains(y) && rc.contains(r)); assert(in_comp(g, rc, f));
        comp_has(g, ue, rc, ue.len() as int, q); let z = choose|z: int| 0 <= z < inner_edges(g, m, s, rc).len() && inner_edges(g, m, s, rc)[z] == f; assert(ps[z].0 == r || ps[z].1 == r);
    }
}
/// the components of the support as lists
pub open spec fn comp_lists(g: Graph, m: Map<int, int>, s: int) -> Seq<Seq<int>> { Seq::new(n_comps(support(g, m, s)) as nat, |c: int| members(comp_of(support(g, m, s)), c, g.n)) }
pub open spec fn root_id(g: Graph, m: Map<int, int>, s: int, r: int) -> int { comp_of(support(g, m, s))[r] }
pub proof fn lists_ok(g: Graph, m: Map<int, int>, s: int, r: int)
    requires 0 <= r < g.n
    ensures comps_ok(g, r, comp_lists(g, m, s), root_id(g, m, s, r)), comp_lists(g, m, s)[root_id(g, m, s, r)] == root_comp(g, m, s, r)
{
    let h = support(g, m, s); let ids = comp_of(h); axiom_components(h); let cv = comp_lists(g, m, s);
    assert forall|c: int| 0 <= c < cv.len() implies set_ok(g, #[trigger] cv[c]) && (c != root_id(g, m, s, r) ==> !cv[c].contains(r)) by { members_partition(ids, c, g.n); let q = cv[c]; assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < g.n by { assert(q.contains(q[i])); } assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { assert(q[i] < q[j]); } else { assert(q[j] < q[i]); } } }
}
pub open spec fn disj_of(h: int, sc: Scip, s: int) -> Seq<Row> { let p = sc.probdata; let cv = comp_lists(p.graph_, p.edge_variable_map_, s); disj_rows(h, p.graph_, p.edge_variable_map_, p.root_vertex_, cv, root_id(p.graph_, p.edge_variable_map_, s, p.root_vertex_), cv.len() as int) }
/// the disjoint-tour step, if it is switched on: its rows, the result, and the count at the current node
pub open spec fn disjoint_part(on: bool, h: int, sc: Scip, s: int, r0: int) -> (Scip, int) { if on { let rs = disj_of(h, sc, s); (note_disjoint(plus_rows(sc, s, rs), rs.len() as int), result_of(s, rs, r0)) } else { (sc, r0) } }
pub open spec fn flow_part(h: int, sc: Scip, s: int, mid: Scip, c: int, r0: int, r1: int) -> bool { let p = sc.probdata; cuts_added(h, p.graph_, p.edge_variable_map_, p.root_vertex_, s, root_set(p.graph_, p.edge_variable_map_, s, p.root_vertex_), sc, mid, r0, r1, 0, c) }
/// the max-flow step, if it is switched on: its cuts, the result, and the count at the current node
pub open spec fn flow_done(on: bool, h: int, sc: Scip, s: int, r0: int, sc2: Scip, r2: int) -> bool { if on { exists|mid: Scip, c: int| #[trigger] flow_part(h, sc, s, mid, c, r0, r2) && sc2 == note_flow(mid, c) } else { sc2 == sc && r2 == r0 } }
pub open spec fn separated(dj: bool, mf: bool, h: int, sc: Scip, s: int, r0: int, sc2: Scip, r2: int) -> bool { let a = disjoint_part(dj, h, sc, s, r0); flow_done(mf, h, a.0, s, a.1, sc2, r2) }
pub proof fn flow_kept(h: int, sc: Scip, s: int, mid: Scip, c: int, r0: int, r1: int)
    requires flow_part(h, sc, s, mid, c, r0, r1)
    ensures mid.nodehdlr == sc.nodehdlr, mid.current == sc.current, c >= 0, mid.probdata == sc.probdata
{ reveal(flow_step); reveal(did_add); }
pub proof fn plus_keeps(sc: Scip, s: int, rs: Seq<Row>) ensures plus_rows(sc, s, rs).nodehdlr == sc.nodehdlr, plus_rows(sc, s, rs).current == sc.current, plus_rows(sc, s, rs).probdata == sc.probdata {}
"""
def find_node(self, a, n):
    sc, nm = self.expr(a[0]), self.expr(a[1]); from ..cxx import str_const
    self.ob(f"{nm.s} == {str_const('pctsp_node_handler')}", 'the node event handler is looked up under its name')
    f = sc.lv.sub(('fld', 'nodehdlr', 'Scip'), 'Seq<NodeEventhdlr>'); return E(f'(if {f.read()}.len() > 0 {{ 1int }} else {{ 0int }})', 'int')
def node_cast(self, e, want):
    if want != 'NodeEventhdlr': raise Unsupported('dynamic_cast to ' + str(want))
    f = scip.scip_of(self).sub(('fld', 'nodehdlr', 'Scip'), 'Seq<NodeEventhdlr>'); self.ob(f'{e.s} == 1 && {f.read()}.len() > 0', 'the event handler exists')
    lv = f.sub(('idx', '0int'), 'NodeEventhdlr'); return E(lv.read(), 'NodeEventhdlr', lv=lv)
K = 'PCTSPconshdlrSubtour'
PD = '$scip.probdata'
SREQ = [f'model_ok({PD}.graph_, {PD}.edge_variable_map_)', f'map_ok({PD}.graph_, {PD}.edge_variable_map_)', f'0 <= {PD}.root_vertex_ < {PD}.graph_.n', 'nodes_ok($scip)']
DONE = 'separated(%s, %s, $conshdlr, $scip, %s, %s, $out(scip), $out(result))'
PT = {'conss': 'int', 'conshdlr': 'int', 'nconss': 'int', 'nusefulconss': 'int'}
CS = {**{k: v for k, v in CM.items() if not k.startswith('__')}, **{k: v for k, v in CD.items() if not k.startswith('__')}, 'getConnectedComponentsVectors': c13.C9['getConnectedComponentsVectors'], 'incrementNumSecDisjointTour': c16.C['incrementNumSecDisjointTour'], 'incrementNumSecMaxflowMincut': c16.C['incrementNumSecMaxflowMincut'], 'currentNodeId': c16.C['currentNodeId'],
 'scip_sepalp': [dict(this=K, cls=K, params=['this', 'scip', 'conshdlr', 'conss', 'nconss', 'nusefulconss', 'result'], ptypes=PT, requires=SREQ,
   ensures=['$exc == 0 && $ret == 1', ('the LP solution is separated with the steps that are switched on', DONE % ('$this.sec_disjoint_tour', '$this.sec_maxflow_mincut', '0', '3'))])],
 'scip_sepasol': [dict(this=K, cls=K, params=['this', 'scip', 'conshdlr', 'conss', 'nconss', 'nusefulconss', 'sol', 'result'], ptypes=PT, requires=SREQ,
   ensures=['$exc == 0 && $ret == 1', ('the given solution is separated with the steps that are switched on', DONE % ('$this.sec_disjoint_tour', '$this.sec_maxflow_mincut', '$sol', '$result'))])],
 '__structs__': STR, '__members__': scip.MEMBERS, '__filtered__': lambda self, g, f: (c13.filtered if f.ty == 'PositiveEdgeVarFilter' else positive_part)(self, g, f), '__dyncast__': node_cast,
 '__calls__': {**CM['__calls__'], 'connected_components': c13.components, 'SCIPfindObjEventhdlr': find_node},
 'PCTSPseparateSubtour': [dict(params=['scip', 'conshdlr', 'conss', 'nconss', 'nusefulconss', 'sol', 'result', 'sec_disjoint_tour', 'sec_maxflow_mincut'], ptypes=PT, requires=SREQ,
   ensures=['$exc == 0 && $ret == 1', ('each enabled step adds its cuts and books their number at the current node', DONE % ('$sec_disjoint_tour', '$sec_maxflow_mincut', '$sol', '$result'))],
   locals=[('component', 'Seq<int>'), ('component_vectors', 'Seq<Seq<int>>'), ('root_component', 'Set<int>')],
   hints={'decl:component_vectors': 'proof { lists_ok($scip.probdata.graph_, $scip.probdata.edge_variable_map_, $sol, $scip.probdata.root_vertex_); assert($component_vectors =~= comp_lists($scip.probdata.graph_, $scip.probdata.edge_variable_map_, $sol)); root_touched($scip.probdata.graph_, $scip.probdata.edge_variable_map_, $sol, $scip.probdata.root_vertex_); }',
     'entry': 'let ghost mut mid: Scip = $scip; let ghost mut sc1: Scip = $scip; let ghost mut r1: int = 0; let ghost mut cc: int = 0;',
     'decl:num_maxflow_mincut_secs_added': 'proof { sc1 = $scip; r1 = $result; assert(sc1.probdata == $in_scip.probdata); assert(sc1.current == $in_scip.current); assert($root_component =~= root_set($scip.probdata.graph_, $scip.probdata.edge_variable_map_, $sol, $scip.probdata.root_vertex_)); if $sec_disjoint_tour { plus_keeps($in_scip, $sol, disj_of($conshdlr, $in_scip, $sol)); } assert(nodes_ok(sc1)); }',
     'set:num_maxflow_mincut_secs_added': 'proof { mid = $scip; cc = $num_maxflow_mincut_secs_added; assert(flow_part($conshdlr, sc1, $sol, mid, cc, r1, $result)); flow_kept($conshdlr, sc1, $sol, mid, cc, r1, $result); }',
     'return:3': 'proof { if $sec_maxflow_mincut { assert(flow_part($conshdlr, sc1, $sol, mid, cc, r1, $result)); assert($scip =~= note_flow(mid, cc)); } }'})],
}
TU = '#include "../src/subtour_elimination.cpp"\n#include "../src/sciputils.cpp"\n#include "../src/graph.cpp"\n#include "../src/solution.cpp"\n#include "../src/separation.cpp"\n#include "../src/event_handlers.cpp"\n#include "../src/data_structures.cpp"\n'
ND = ['getEdgesInducedByVertices', 'getSelfLoops', 'getEdgeVariables', 'fillPositiveNegativeVars', 'addRow', 'addSubtourEliminationConstraint', 'SCIP_CUTOFF', 'SCIP_SEPARATED', 'PCTSPseparateDisjointTour']
UNITS = [Unit('disjoint', tu=TU, contracts=CD, prelude=PRELUDE, roots=[('PCTSPseparateDisjointTour',)], prefetch=ND)]
UNITS += [Unit('reach', tu=TU, contracts=CR_, prelude=PRELUDE_R, roots=[('positive_edge_weight::operator()',), ('getReachableVertices',), ('getUnreachableVertices',)], prefetch=['positive_edge_weight', 'getReachableVertices', 'getUnreachableVertices'])]
NM = ND + ['getReachableVertices', 'getUnreachableVertices', 'PCTSPseparateMaxflowMincut', 'getSolutionEdges', 'isVarPositive', 'getCapacityVectorFromSol', 'getVertexPairVectorFromEdgeSubset', 'renameEdges', 'findOrInsertVertex', 'getOldVertices', 'getOldVertex', 'getNewVertex', 'FLOW_FLOAT_MULTIPLIER']
NS = NM + [K, 'NodeEventhdlr', 'NodeStats', 'PCTSPseparateSubtour', 'filterGraphByPositiveEdgeVars', 'PositiveEdgeVarFilter', 'getConnectedComponentsVectors', 'currentNodeId', 'incrementNumSecDisjointTour', 'incrementNumSecMaxflowMincut', 'NODE_EVENTHDLR_NAME']
UNITS += [Unit('separate', tu=TU, contracts=CS, prelude=PRELUDE_S, roots=[('PCTSPseparateSubtour',), (K + '::scip_sepalp',), (K + '::scip_sepasol',)], prefetch=NS)]
RUNTIME = [dict(kind='cxx', driver='c11.cpp', srcs=['subtour_elimination.cpp', 'separation.cpp', 'solution.cpp', 'graph.cpp', 'sciputils.cpp', 'event_handlers.cpp', 'data_structures.cpp', 'stats.cpp'], libs=['-lyaml-cpp'], rule='random graphs with self loops on up to 8 vertices, random solutions with one to several components and values 0, tiny, fractional, 1 and 2, all four on/off settings of the two steps, the separation function and both callbacks, with and without a node event handler; every cut below two is enumerated independently; non-trivial: a component without the root has two vertices, or only part of the root component is separated by a cut below two')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['boost::push_relabel_max_flow returns the value of a maximum flow and leaves residual capacities whose positive arcs reach, from the source, exactly one side of a minimum cut (axiom_max_flow); boost depth-first search visits exactly what is reachable; connected_components gives equal labels exactly to connected vertices', 'capacities do not overflow a long; the cast of a non-negative value to an integer is non-negative (otherwise uninterpreted)', 'every edge of the graph has a variable, every vertex a self loop, and the graph is simple (what the problem data provides)', 'a node event handler is registered at most once and has a row for the current node (C16)']
