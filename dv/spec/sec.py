"""Shared: rows, subtour elimination rows and the helpers they are built with."""
from .. import scip
from ..ir import E
PRELUDE = scip.PRELUDE + r'''
// ---- edges inside a vertex set
pub open spec fn ind_row(g: Graph, vs: Seq<int>, i: int, j: int) -> Seq<int> decreases j - i {
    if j <= i + 1 { Seq::empty() } else if g_edge(g, vs[i], vs[j - 1]).1 { ind_row(g, vs, i, j - 1).push(g_edge(g, vs[i], vs[j - 1]).0) } else { ind_row(g, vs, i, j - 1) }
}
pub open spec fn ind_upto(g: Graph, vs: Seq<int>, i: int) -> Seq<int> decreases i {
    if i <= 0 { Seq::empty() } else { ind_upto(g, vs, i - 1) + ind_row(g, vs, i - 1, vs.len() as int) }
}
pub open spec fn induced(g: Graph, vs: Seq<int>) -> Seq<int> { ind_upto(g, vs, vs.len() as int) }
/// edge e joins two different members of the set
pub open spec fn inside(g: Graph, vs: Seq<int>, e: int) -> bool { 0 <= e < g.es.len() && g.es[e].0 != g.es[e].1 && vs.contains(g.es[e].0) && vs.contains(g.es[e].1) }
pub open spec fn pos_pair(g: Graph, vs: Seq<int>, e: int, i: int, j: int) -> bool { 0 <= i < j < vs.len() && joins(g, e, vs[i], vs[j]) }
pub open spec fn wit1(g: Graph, vs: Seq<int>, e: int, i: int, j: int) -> bool { exists|b: int| b < j && pos_pair(g, vs, e, i, b) }
pub open spec fn wit2(g: Graph, vs: Seq<int>, e: int, i: int) -> bool { exists|a: int, b: int| a < i && pos_pair(g, vs, e, a, b) }
pub proof fn ind_row_prop(g: Graph, vs: Seq<int>, i: int, j: int)
    requires 0 <= i < vs.len(), j <= vs.len(), vs.no_duplicates(), simple(g)
    ensures ind_row(g, vs, i, j).no_duplicates(), forall|q: int| 0 <= q < ind_row(g, vs, i, j).len() ==> wit1(g, vs, #[trigger] ind_row(g, vs, i, j)[q], i, j),
        forall|e: int, b: int| b < j && #[trigger] pos_pair(g, vs, e, i, b) ==> ind_row(g, vs, i, j).contains(e)
    decreases j - i
{
    if j > i + 1 {
        ind_row_prop(g, vs, i, j - 1); lemma_g_edge(g, vs[i], vs[j - 1]);
        let p = ind_row(g, vs, i, j - 1); let s = ind_row(g, vs, i, j); let x = g_edge(g, vs[i], vs[j - 1]).0;
        if g_edge(g, vs[i], vs[j - 1]).1 {
            assert(s =~= p.push(x)); assert(s[p.len() as int] == x); assert(pos_pair(g, vs, x, i, j - 1));
            assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
                if a < p.len() && b < p.len() { assert(s[a] == p[a] && s[b] == p[b]); } else { let c = if a < p.len() { a } else { b }; assert(s[c] == p[c]);
                    assert(wit1(g, vs, p[c], i, j - 1)); let q = choose|q: int| q < j - 1 && pos_pair(g, vs, p[c], i, q); assert(vs[q] != vs[j - 1]); assert(p[c] != x); }
            }
            assert forall|q: int| 0 <= q < s.len() implies wit1(g, vs, #[trigger] s[q], i, j) by {
                if q < p.len() { assert(s[q] == p[q]); let b = choose|b: int| b < j - 1 && pos_pair(g, vs, p[q], i, b); assert(pos_pair(g, vs, s[q], i, b)); }
            }
        }
        assert forall|e: int, b: int| b < j && #[trigger] pos_pair(g, vs, e, i, b) implies s.contains(e) by {
            if b < j - 1 { assert(p.contains(e)); let q = choose|q: int| 0 <= q < p.len() && p[q] == e; assert(s[q] == e); }
            else { assert(joins(g, e, vs[i], vs[j - 1])); assert(has_edge(g, vs[i], vs[j - 1])); assert(e == x); assert(s[p.len() as int] == e); }
        }
    }
}
pub proof fn ind_upto_prop(g: Graph, vs: Seq<int>, i: int)
    requires 0 <= i <= vs.len(), vs.no_duplicates(), simple(g)
    ensures ind_upto(g, vs, i).no_duplicates(), forall|q: int| 0 <= q < ind_upto(g, vs, i).len() ==> wit2(g, vs, #[trigger] ind_upto(g, vs, i)[q], i),
        forall|e: int, a: int, b: int| a < i && #[trigger] pos_pair(g, vs, e, a, b) ==> ind_upto(g, vs, i).contains(e)
    decreases i
{
    if i > 0 {
        let n = vs.len() as int; ind_upto_prop(g, vs, i - 1); ind_row_prop(g, vs, i - 1, n);
        let p = ind_upto(g, vs, i - 1); let t = ind_row(g, vs, i - 1, n); let s = ind_upto(g, vs, i); assert(s =~= p + t);
        assert forall|q: int| 0 <= q < s.len() implies wit2(g, vs, #[trigger] s[q], i) by {
            if q < p.len() { assert(s[q] == p[q]); let (a, b) = choose|a: int, b: int| a < i - 1 && pos_pair(g, vs, p[q], a, b); assert(pos_pair(g, vs, s[q], a, b)); }
            else { let x = t[q - p.len()]; let im = i - 1; assert(s[q] == x); let b = choose|b: int| b < n && pos_pair(g, vs, x, im, b); assert(pos_pair(g, vs, s[q], im, b)); }
        }
        assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
            if a < p.len() && b < p.len() { assert(s[a] == p[a] && s[b] == p[b]); } else if a >= p.len() && b >= p.len() { assert(s[a] == t[a - p.len()] && s[b] == t[b - p.len()]); }
            else { let (c, d) = if a < p.len() { (a, b) } else { (b, a) }; assert(s[c] == p[c] && s[d] == t[d - p.len()]);
                let (x, y) = choose|x: int, y: int| x < i - 1 && pos_pair(g, vs, p[c], x, y); let w = t[d - p.len()]; let im = i - 1; let z = choose|z: int| z < n && pos_pair(g, vs, w, im, z);
                if s[c] == s[d] { assert(vs[x] == vs[i - 1] || vs[x] == vs[z]); assert(z > x); assert(false); } }
        }
        assert forall|e: int, a: int, b: int| a < i && #[trigger] pos_pair(g, vs, e, a, b) implies s.contains(e) by {
            if a < i - 1 { assert(p.contains(e)); let q = choose|q: int| 0 <= q < p.len() && p[q] == e; assert(s[q] == e); }
            else { assert(t.contains(e)); let q = choose|q: int| 0 <= q < t.len() && t[q] == e; assert(s[p.len() + q] == e); }
        }
    }
}
/// exactly the edges inside the set, each once
pub proof fn induced_exact(g: Graph, vs: Seq<int>)
    requires vs.no_duplicates(), simple(g)
    ensures induced(g, vs).no_duplicates(), forall|e: int| #[trigger] induced(g, vs).contains(e) <==> inside(g, vs, e)
{
    ind_upto_prop(g, vs, vs.len() as int); let s = induced(g, vs);
    assert forall|e: int| #[trigger] s.contains(e) <==> inside(g, vs, e) by {
        if s.contains(e) { let q = choose|q: int| 0 <= q < s.len() && s[q] == e; let (a, b) = choose|a: int, b: int| a < vs.len() && pos_pair(g, vs, s[q], a, b); assert(vs[a] != vs[b]); assert(joins(g, e, vs[a], vs[b])); }
        if inside(g, vs, e) { let a = choose|a: int| 0 <= a < vs.len() && vs[a] == g.es[e].0; let b = choose|b: int| 0 <= b < vs.len() && vs[b] == g.es[e].1;
            if a < b { assert(pos_pair(g, vs, e, a, b)); } else { assert(pos_pair(g, vs, e, b, a)); } }
    }
}
// ---- variables and rows
pub open spec fn vars_of(m: Map<int, int>, es: Seq<int>) -> Seq<int> { Seq::new(es.len(), |i: int| m[es[i]]) }
pub open spec fn loops_of(g: Graph, vs: Seq<int>) -> Seq<int> { Seq::new(vs.len(), |i: int| g_edge(g, vs[i], vs[i]).0) }
pub open spec fn row_co(vars: Seq<int>, co: Seq<real>) -> Seq<(int, real)> { Seq::new(vars.len(), |i: int| (trans_var(vars[i]), co[i])) }
pub open spec fn new_row(h: int, lhs: real, rhs: real, co: Seq<(int, real)>) -> Row { Row { hdlr: h, lhs, rhs, co, local: false, modifiable: false, removable: true, added: false } }
pub open spec fn finish_row(sol: int, r: Row) -> Row { Row { added: efficacious(sol, r), ..r } }
pub open spec fn row_result(sol: int, r: Row, old: int) -> int { if !efficacious(sol, r) { old } else if row_infeasible(r) { res_cutoff() } else { res_separated() } }
pub open spec fn with_row(s: Scip, r: Row) -> Scip { Scip { rows: s.rows.push(r), ..s } }
/// no repeated vertices, all in the graph, every self loop present and every edge with a variable
pub open spec fn model_ok(g: Graph, m: Map<int, int>) -> bool {
    &&& wf(g) &&& simple(g) &&& (forall|v: int| 0 <= v < g.n ==> #[trigger] has_edge(g, v, v)) &&& (forall|e: int| 0 <= e < g.es.len() ==> #[trigger] m.dom().contains(e) && m[e] != 0)
}
pub open spec fn set_ok(g: Graph, vs: Seq<int>) -> bool { vs.no_duplicates() && forall|i: int| 0 <= i < vs.len() ==> 0 <= #[trigger] vs[i] < g.n }
// ---- subtour elimination
pub open spec fn without(vs: Seq<int>, t: int) -> Seq<int> { without_upto(vs, t, vs.len() as int) }
pub open spec fn without_upto(vs: Seq<int>, t: int, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if vs[k - 1] != t { without_upto(vs, t, k - 1).push(vs[k - 1]) } else { without_upto(vs, t, k - 1) } }
pub proof fn without_range(vs: Seq<int>, t: int, k: int)
    requires 0 <= k <= vs.len()
    ensures forall|i: int| 0 <= i < without_upto(vs, t, k).len() ==> #[trigger] without_upto(vs, t, k)[i] != t && vs.contains(without_upto(vs, t, k)[i]),
        forall|i: int| 0 <= i < k && vs[i] != t ==> without_upto(vs, t, k).contains(#[trigger] vs[i])
    decreases k
{
    if k > 0 { without_range(vs, t, k - 1); let p = without_upto(vs, t, k - 1); let q = without_upto(vs, t, k);
        assert forall|i: int| 0 <= i < k && vs[i] != t implies q.contains(#[trigger] vs[i]) by { if i < k - 1 { assert(p.contains(vs[i])); let j = choose|j: int| 0 <= j < p.len() && p[j] == vs[i]; assert(q[j] == vs[i]); } else { assert(q[p.len() as int] == vs[i]); } } }
}
pub open spec fn sec_vertices(vs: Seq<int>, root: int, t: int) -> Seq<int> { if vs.contains(root) { vs.push(t) } else { without(vs, t) } }
pub open spec fn sec_vars(g: Graph, m: Map<int, int>, vs: Seq<int>, root: int, t: int) -> Seq<int> { vars_of(m, induced(g, vs)) + vars_of(m, loops_of(g, sec_vertices(vs, root, t))) }
/// +1 for the edges inside, -1 for the vertices, except +1 for the target outside a set holding the root
pub open spec fn sec_coefs(g: Graph, vs: Seq<int>, root: int, t: int) -> Seq<real> {
    let a = induced(g, vs).len(); let n = a + sec_vertices(vs, root, t).len();
    Seq::new(n, |i: int| if i < a || (vs.contains(root) && i == n - 1) { 1real } else { -1real })
}
pub open spec fn sec_row(h: int, g: Graph, m: Map<int, int>, vs: Seq<int>, root: int, t: int) -> Row { new_row(h, -scip_infinity(), 0real, row_co(sec_vars(g, m, vs, root, t), sec_coefs(g, vs, root, t))) }
'''
def join_names(self, a, n): self.expr(a[0]); return E('arbitrary::<int>()', 'Str')
def const(n): return n
CALLS = {**scip.CALLS, 'joinVariableNames': join_names}
C = {**scip.BASE, '__calls__': CALLS,
 'getEdgesInducedByVertices': [dict(sig=['Graph', 'Seq<int>'], params=['graph', 'vertices'], emit='induced_edges',
    requires=['set_ok($graph, $vertices)', 'simple($graph)'],
    ensures=[('edges of all pairs of the set', '$ret == induced($graph, $vertices)'), ('exactly the edges inside the set, each once', '$ret.no_duplicates() && forall|e: int| #[trigger] $ret.contains(e) <==> inside($graph, $vertices, e)'), '$out(vertices) == $vertices', '$out(graph) == $graph'],
    locals=[('edges', 'Seq<int>'), ('first', 'iter'), ('last', 'iter'), ('it', 'iter')],
    loops=[dict(kind='for', inv=['0 <= $first <= $vertices.len()', '$last == $vertices.len()', '$edges == ind_upto($graph, $vertices, $first)'], dec='$vertices.len() - $first'),
           dict(kind='for', inv=['0 <= $first < $vertices.len()', '$last == $vertices.len()', '$first + 1 <= $it <= $vertices.len()', '$edges == ind_upto($graph, $vertices, $first) + ind_row($graph, $vertices, $first, $it)'], dec='$vertices.len() - $it')],
    hints={'loop2.before': 'proof { assert($edges =~= ind_upto($graph, $vertices, $first) + ind_row($graph, $vertices, $first, $first + 1)); }', 'loop2.body': 'proof { reveal_with_fuel(ind_row, 2); lemma_g_edge($graph, $vertices[$first], $vertices[$it]); }',
           'loop2.end': 'proof { assert($edges =~= ind_upto($graph, $vertices, $first) + ind_row($graph, $vertices, $first, $it)); }',
           'loop2.after': 'proof { reveal_with_fuel(ind_upto, 2); }', 'return': 'proof { induced_exact($graph, $vertices); }'})],
 'getSelfLoops': [dict(sig=['Graph', 'Seq<int>'], params=['graph', 'vertices'], emit='self_loops',
    ensures=[('error exactly when a self loop is missing', '$exc == (if forall|i: int| 0 <= i < $vertices.len() ==> #[trigger] has_edge($graph, $vertices[i], $vertices[i]) { 0 } else { EXC_NoSelfLoopFoundException() })'),
             ('the self loop of every vertex, aligned', '$exc == 0 ==> $ret == loops_of($graph, $vertices)'), '$out(vertices) == $vertices', '$out(graph) == $graph'],
    locals=[('edges', 'Seq<int>'), ('first', 'iter'), ('last', 'iter'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $vertices.len()', '$first == $i', '$last == $vertices.len()', '$edges.len() == $vertices.len()', 'forall|j: int| 0 <= j < $i ==> #[trigger] $edges[j] == g_edge($graph, $vertices[j], $vertices[j]).0', 'forall|j: int| 0 <= j < $i ==> #[trigger] has_edge($graph, $vertices[j], $vertices[j])'], dec='$vertices.len() - $i')],
    hints={'loop1.body': 'proof { lemma_g_edge($graph, $vertices[$i], $vertices[$i]); }', 'return': 'assert($retval =~= loops_of($graph, $vertices));'})],
 'getEdgeVariables': [dict(sig=['Scip', 'Graph', 'Map<int, int>', 'Seq<int>'], params=['scip', 'graph', 'edge_variable_map', 'edges'], emit='edge_vars',
    requires=['forall|i: int| 0 <= i < $edges.len() ==> $edge_variable_map.dom().contains(#[trigger] $edges[i])'],
    ensures=[('error exactly when a variable is NULL', '$exc == (if forall|i: int| 0 <= i < $edges.len() ==> $edge_variable_map[#[trigger] $edges[i]] != 0 { 0 } else { EXC_VariableIsNullException() })'),
             ('the variable of every edge, aligned', '$exc == 0 ==> $ret == vars_of($edge_variable_map, $edges)'), '$out(edges) == $edges', '$out(graph) == $graph', '$out(edge_variable_map) == $edge_variable_map', '$out(scip) == $scip'],
    locals=[('variables', 'Seq<int>'), ('first', 'iter'), ('last', 'iter'), ('i', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $edges.len()', '$first == $i', '$last == $edges.len()', '$variables.len() == $edges.len()', 'forall|j: int| 0 <= j < $i ==> #[trigger] $variables[j] == $edge_variable_map[$edges[j]]', 'forall|j: int| 0 <= j < $i ==> $edge_variable_map[#[trigger] $edges[j]] != 0'], dec='$edges.len() - $i')],
    hints={'return': 'assert($retval =~= vars_of($edge_variable_map, $edges));'})],
 'fillPositiveNegativeVars': [dict(params=['positive_vars', 'negative_vars', 'all_vars', 'var_coefs'],
    requires=['$positive_vars.len() + $negative_vars.len() == $all_vars.len()', '$all_vars.len() == $var_coefs.len()'],
    ensures=[('positive variables first, then the negative ones', '$out(all_vars) == $positive_vars + $negative_vars'), ('+1 and -1 in the same order', '$out(var_coefs) == Seq::new($all_vars.len(), |i: int| if i < $positive_vars.len() { 1real } else { -1real })')],
    locals=[('i', 'int'), ('i_2', 'int'), ('coef_it', 'iter')],
    loops=[dict(kind='for', inv=['0 <= $i <= $positive_vars.len()', '$all_vars.len() == $in_all_vars.len()', 'forall|j: int| 0 <= j < $i ==> #[trigger] $all_vars[j] == $positive_vars[j]'], dec='$positive_vars.len() - $i'),
           dict(kind='for', inv=['$positive_vars.len() <= $i_2 <= $all_vars.len()', '$all_vars.len() == $in_all_vars.len()', 'forall|j: int| 0 <= j < $positive_vars.len() ==> #[trigger] $all_vars[j] == $positive_vars[j]', 'forall|j: int| $positive_vars.len() <= j < $i_2 ==> #[trigger] $all_vars[j] == $negative_vars[j - $positive_vars.len()]'], dec='$all_vars.len() - $i_2')],
    hints={'loop2.after': 'assert($all_vars =~= $positive_vars + $negative_vars);', 'return': 'assert($var_coefs =~= Seq::new($all_vars.len(), |i: int| if i < $positive_vars.len() { 1real } else { -1real }));'})],
 'addRow': [dict(params=['scip', 'conshdlr', 'result', 'sol', 'var_vector', 'var_coefs', 'lhs', 'rhs', 'name'],
    requires=['$var_vector.len() == $var_coefs.len()'],
    ensures=['$ret == 1', ('one row with exactly the given variables and coefficients', '$out(scip) == with_row($scip, finish_row($sol, new_row($conshdlr, $lhs, $rhs, row_co($var_vector, $var_coefs))))'),
             ('the result says separated or cut off exactly when the row was added', '$out(result) == row_result($sol, new_row($conshdlr, $lhs, $rhs, row_co($var_vector, $var_coefs)), $result)')],
    locals=[('transvars', 'Seq<int>'), ('row', 'int'), ('i', 'int'), ('i_2', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $var_vector.len()', '$transvars.len() == $var_vector.len()', 'forall|j: int| 0 <= j < $i ==> #[trigger] $transvars[j] == trans_var($var_vector[j])'], dec='$var_vector.len() - $i'),
           dict(kind='for', inv=['0 <= $i_2 <= $var_vector.len()', '$transvars.len() == $var_vector.len()', 'forall|j: int| 0 <= j < $var_vector.len() ==> #[trigger] $transvars[j] == trans_var($var_vector[j])',
                '$row == $in_scip.rows.len() + 1', '$scip == with_row($in_scip, new_row($conshdlr, $lhs, $rhs, row_co($var_vector.take($i_2), $var_coefs)))'], dec='$var_vector.len() - $i_2')],
    hints={'loop2.before': 'assert(row_co($var_vector.take(0), $var_coefs) =~= Seq::<(int, real)>::empty()); assert($scip.rows =~= with_row($in_scip, new_row($conshdlr, $lhs, $rhs, row_co($var_vector.take(0), $var_coefs))).rows);',
           'loop2.end': 'assert(row_co($var_vector.take($i_2 - 1), $var_coefs).push((trans_var($var_vector[$i_2 - 1]), $var_coefs[$i_2 - 1])) =~= row_co($var_vector.take($i_2), $var_coefs)); assert($scip.rows =~= with_row($in_scip, new_row($conshdlr, $lhs, $rhs, row_co($var_vector.take($i_2), $var_coefs))).rows);',
           'loop2.after': 'assert($var_vector.take($var_vector.len() as int) =~= $var_vector);',
           'return': 'assert($scip.rows =~= with_row($in_scip, finish_row($sol, new_row($conshdlr, $lhs, $rhs, row_co($var_vector, $var_coefs)))).rows);'})],
 'addSubtourEliminationConstraint': [dict(params=['scip', 'conshdlr', 'graph', 'vertex_set', 'edge_variable_map', 'root_vertex', 'target_vertex', 'sol', 'result'],
    requires=['model_ok($graph, $edge_variable_map)', 'set_ok($graph, $vertex_set)', '0 <= $target_vertex < $graph.n'],
    ensures=[('a set with both or neither of root and target is rejected', '$exc == (if !$vertex_set.contains($root_vertex) && !$vertex_set.contains($target_vertex) { EXC_VertexNotFoundException() } else if $vertex_set.contains($root_vertex) && $vertex_set.contains($target_vertex) { EXC_VertexInWrongSetException() } else { 0 })'),
             ('nothing is added on rejection', '$exc != 0 ==> $out(scip) == $scip && $out(result) == $result'),
             ('exactly the prescribed row', '$exc == 0 ==> $ret == 1 && $out(scip) == with_row($scip, finish_row($sol, sec_row($conshdlr, $graph, $edge_variable_map, $vertex_set, $root_vertex, $target_vertex)))'),
             ('the result says separated or cut off exactly when the row was added', '$exc == 0 ==> $out(result) == row_result($sol, sec_row($conshdlr, $graph, $edge_variable_map, $vertex_set, $root_vertex, $target_vertex), $result)'),
             '$out(graph) == $graph', '$out(edge_variable_map) == $edge_variable_map', '$out(vertex_set) == $vertex_set'],
    locals=[('root_found', 'bool'), ('target_found', 'bool'), ('vertices_to_find', 'Seq<int>'), ('edge_vector', 'Seq<int>'), ('edge_variables', 'Seq<int>'), ('self_loops', 'Seq<int>'), ('vertex_variables', 'Seq<int>'), ('all_vars', 'Seq<int>'), ('var_coefs', 'Seq<real>')],
    loops=[dict(kind='range', inv=['$seq == $vertex_set', '$root_found == exists|j: int| 0 <= j < $it && #[trigger] $vertex_set[j] == $root_vertex', '$target_found == exists|j: int| 0 <= j < $it && #[trigger] $vertex_set[j] == $target_vertex']),
           dict(kind='range', inv=['$seq == $vertex_set', '$vertices_to_find == (if $root_found { $vertex_set.take($it as int) } else { without_upto($vertex_set, $target_vertex, $it as int) })'])],
    hints={'loop2.before': 'assert($vertex_set.take(0) =~= Seq::<int>::empty());', 'loop2.body': 'proof { reveal_with_fuel(without_upto, 2); }', 'loop2.end': 'assert($vertex_set.take($it as int) =~= $vertex_set.take($it - 1).push($vertex_set[$it - 1]));',
           'loop2.after': 'proof { without_range($vertex_set, $target_vertex, $vertex_set.len() as int); assert($vertex_set.take($vertex_set.len() as int) =~= $vertex_set); }',
           'decl:edge_vector': 'assert forall|j: int| 0 <= j < $edge_vector.len() implies $edge_variable_map.dom().contains(#[trigger] $edge_vector[j]) && $edge_variable_map[$edge_vector[j]] != 0 by { assert($edge_vector.contains($edge_vector[j])); assert(inside($graph, $vertex_set, $edge_vector[j])); assert($edge_variable_map.dom().contains($edge_vector[j])); }',
           'decl:self_loops': '''assert($vertices_to_find == sec_vertices($vertex_set, $root_vertex, $target_vertex));
             assert forall|j: int| 0 <= j < $vertices_to_find.len() implies 0 <= #[trigger] $vertices_to_find[j] < $graph.n by { }
             assert forall|j: int| 0 <= j < $self_loops.len() implies $edge_variable_map.dom().contains(#[trigger] $self_loops[j]) && $edge_variable_map[$self_loops[j]] != 0 by { let v = $vertices_to_find[j]; assert(0 <= v < $graph.n); assert(has_edge($graph, v, v)); lemma_g_edge($graph, v, v); let e = g_edge($graph, v, v).0; assert(joins($graph, e, v, v)); assert(0 <= e < $graph.es.len()); assert($self_loops[j] == e); assert($edge_variable_map.dom().contains(e)); }''',
           'return': 'assert($all_vars =~= sec_vars($graph, $edge_variable_map, $vertex_set, $root_vertex, $target_vertex)); assert($var_coefs =~= sec_coefs($graph, $vertex_set, $root_vertex, $target_vertex)); assert(-1real * 0real == 0real);'})],
}
