from ..run import Unit
PRELUDE = r'''
pub open spec fn wfb(b: Bimap) -> bool {
    &&& forall|k: int| #[trigger] b.l.dom().contains(k) ==> b.r.dom().contains(b.l[k]) && b.r[b.l[k]] == k
    &&& forall|x: int| #[trigger] b.r.dom().contains(x) ==> b.l.dom().contains(b.r[x]) && b.l[b.r[x]] == x
}
// one-to-one, and the new ids in use are exactly 0..n-1
#[verifier::opaque]
pub open spec fn dense(b: Bimap, n: int) -> bool { wfb(b) && n >= 0 && forall|k: int| #[trigger] b.l.dom().contains(k) <==> 0 <= k < n }
pub open spec fn one_to_one(b: Bimap) -> bool { exists|n: int| #[trigger] dense(b, n) }
pub open spec fn nothing(b: Bimap) -> bool { (forall|k: int| !#[trigger] b.l.dom().contains(k)) && (forall|k: int| !#[trigger] b.r.dom().contains(k)) }
pub open spec fn seen(s: Seq<int>, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && s[i] == x }
// exactly the first k entries of s have an id, in order of first appearance
#[verifier::opaque]
pub open spec fn named(b: Bimap, s: Seq<int>, k: int) -> bool {
    &&& forall|x: int| #[trigger] b.r.dom().contains(x) <==> seen(s, k, x)
    &&& forall|i: int, j: int| 0 <= i < j < k && !seen(s, j, s[j]) ==> #[trigger] b.r[s[i]] < #[trigger] b.r[s[j]]
}
pub open spec fn flat(e: Seq<(int, int)>) -> Seq<int> { Seq::new(2 * e.len(), |i: int| if i % 2 == 0 { e[i / 2].0 } else { e[i / 2].1 }) }
pub open spec fn extends(a: Bimap, b: Bimap) -> bool {
    (forall|k: int| #[trigger] a.l.dom().contains(k) ==> b.l.dom().contains(k) && b.l[k] == a.l[k])
    && (forall|k: int| #[trigger] a.r.dom().contains(k) ==> b.r.dom().contains(k) && b.r[k] == a.r[k])
}
pub proof fn lemma_seen_step(s: Seq<int>, k: int)
    requires 0 <= k < s.len()
    ensures forall|x: int| #[trigger] seen(s, k + 1, x) <==> seen(s, k, x) || x == s[k]
{
    assert forall|x: int| #[trigger] seen(s, k + 1, x) implies seen(s, k, x) || x == s[k] by { let i = choose|i: int| 0 <= i < k + 1 && s[i] == x; if i < k { assert(0 <= i < k && s[i] == x); } };
    assert forall|x: int| seen(s, k, x) || x == s[k] implies #[trigger] seen(s, k + 1, x) by { if seen(s, k, x) { let i = choose|i: int| 0 <= i < k && s[i] == x; assert(0 <= i < k + 1 && s[i] == x); } else { assert(0 <= k < k + 1 && s[k] == x); } };
}
pub open spec fn assigned(b: Bimap, n: int, x: int) -> (Bimap, int) {
    if b.r.dom().contains(x) { (b, n) } else { (Bimap { l: b.l.insert(n, x), r: b.r.insert(x, n) }, n + 1) }
}
pub proof fn lemma_assign(b: Bimap, n: int, s: Seq<int>, k: int)
    requires dense(b, n), named(b, s, k), 0 <= k < s.len()
    ensures dense(assigned(b, n, s[k]).0, assigned(b, n, s[k]).1), named(assigned(b, n, s[k]).0, s, k + 1), extends(b, assigned(b, n, s[k]).0), assigned(b, n, s[k]).0.r.dom().contains(s[k])
{
    reveal(dense); reveal(named); assert(wfb(b));
    lemma_seen_step(s, k);
    let b2 = assigned(b, n, s[k]).0;
    assert forall|i: int, j: int| 0 <= i < j < k + 1 && !seen(s, j, s[j]) implies #[trigger] b2.r[s[i]] < #[trigger] b2.r[s[j]] by {
        assert(seen(s, k, s[i])) by { assert(0 <= i < k && s[i] == s[i]); }
        assert(b.r.dom().contains(s[i]));
        if j < k { assert(seen(s, k, s[j])) by { assert(0 <= j < k && s[j] == s[j]); } assert(b.r[s[i]] < b.r[s[j]]); }
        else { assert(!b.r.dom().contains(s[k])); assert(b.l.dom().contains(b.r[s[i]])); }
    }
}
pub proof fn lemma_named_empty(b: Bimap, s: Seq<int>)
    requires nothing(b)
    ensures dense(b, 0), named(b, s, 0)
{ reveal(dense); reveal(named); assert forall|x: int| #[trigger] b.r.dom().contains(x) <==> seen(s, 0, x) by {} }
// translating there and back is the identity
pub proof fn round_trip(b: Bimap, n: int, s: Seq<int>, t: Seq<int>, u: Seq<int>)
    requires dense(b, n), forall|i: int| 0 <= i < s.len() ==> b.r.dom().contains(#[trigger] s[i]), t.len() == s.len(), u.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == b.r[s[i]], forall|i: int| 0 <= i < s.len() ==> #[trigger] u[i] == b.l[t[i]],
    ensures u == s, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] t[i] < n,
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] t[i] == #[trigger] t[j] <==> s[i] == s[j])
{
    reveal(dense);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] t[i] < n && u[i] == s[i] by { assert(b.r.dom().contains(s[i])); assert(b.l.dom().contains(b.r[s[i]])); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (#[trigger] t[i] == #[trigger] t[j] <==> s[i] == s[j]) by { assert(b.l[b.r[s[i]]] == s[i]); assert(b.l[b.r[s[j]]] == s[j]); }
    assert(u =~= s);
}
pub open spec fn keys_ok(m: Map<(int, int), int>, b: Bimap) -> bool { m.dom().finite() && forall|k: (int, int)| #[trigger] m.dom().contains(k) ==> b.r.dom().contains(k.0) && b.r.dom().contains(k.1) }
pub open spec fn symm(m: Map<(int, int), int>) -> bool { forall|x: int, y: int| m.dom().contains((x, y)) && m.dom().contains((y, x)) ==> #[trigger] m[(x, y)] == #[trigger] m[(y, x)] }
pub open spec fn ren_edge(g: Graph, b: Bimap, k: (int, int)) -> int { g_edge(g, b.r[k.0], b.r[k.1]).0 }
pub proof fn lemma_same_edge(g: Graph, b: Bimap, n: int, k: (int, int), h: (int, int))
    requires dense(b, n), b.r.dom().contains(k.0), b.r.dom().contains(k.1), b.r.dom().contains(h.0), b.r.dom().contains(h.1),
        has_edge(g, b.r[k.0], b.r[k.1]), has_edge(g, b.r[h.0], b.r[h.1]), ren_edge(g, b, k) == ren_edge(g, b, h)
    ensures k == h || k == (h.1, h.0)
{
    reveal(dense);
    lemma_g_edge(g, b.r[k.0], b.r[k.1]); lemma_g_edge(g, b.r[h.0], b.r[h.1]);
    assert(b.l[b.r[k.0]] == k.0); assert(b.l[b.r[k.1]] == k.1); assert(b.l[b.r[h.0]] == h.0); assert(b.l[b.r[h.1]] == h.1);
}
'''
B = '$vertex_bimap'
def container(name, params, ens_one, local, dom, n_locals=()):
    return [dict(params=params, requires=['wfb($bm)', f'forall|i: int| 0 <= i < $xs.len() ==> {dom}'],
        ensures=[('one result per entry', '$ret.len() == $xs.len()'), ('each entry translated', f'forall|i: int| 0 <= i < $xs.len() ==> #[trigger] $ret[i] == {ens_one}'), ('ids unchanged', '$out(bm) == $bm')],
        locals=[(local, None), ('i', 'int'), ('it', 'iter')],
        loops=[dict(kind='for', inv=['0 <= $it <= $xs.len()', '$i == $it', f'${local}.len() == $xs.len()', f'forall|j: int| 0 <= j < $it ==> #[trigger] ${local}[j] == {ens_one.replace("[i]", "[j]")}'], dec='$xs.len() - $it')])]
C = {}
C['findOrInsertVertex'] = [dict(params=['bm', 'old', 'new'], requires=['dense($bm, $new)'],
    ensures=[('known vertex keeps its id, an unknown one gets the next id', '($out(bm), $out(new)) == assigned($bm, $new, $old)'),
             ('returns the id of the vertex', '$ret == $out(bm).r[$old] && $out(bm).r.dom().contains($old)')],
    locals=[('graph_vertex', 'int')], hints={'entry': 'proof { reveal(dense); }'})]
C['renameVertices'] = [dict(params=['bm', 'xs'], requires=['nothing($bm)'],
    ensures=[('ids are exactly 0..k-1, one-to-one', 'one_to_one($out(bm))'), ('ids in order of first appearance', 'named($out(bm), $xs, $xs.len() as int)')],
    locals=[('new_vertex', 'int'), ('it', 'iter'), ('old_vertex', 'int')],
    loops=[dict(kind='for', inv=['0 <= $it <= $xs.len()', 'dense($bm, $new_vertex)', 'named($bm, $xs, $it)'], dec='$xs.len() - $it')],
    hints={'entry': 'proof { lemma_named_empty($bm, $xs); }', 'loop1.body': 'proof { lemma_assign($bm, $new_vertex, $xs, $it); }', 'return': 'proof { assert(dense($bm, $new_vertex)); assert(one_to_one($bm)); }'})]
C['renameEdges'] = [dict(params=['bm', 'xs'], requires=['nothing($bm)'],
    ensures=[('ids are exactly 0..k-1, one-to-one', 'one_to_one($out(bm))'), ('ids in order of first appearance', 'named($out(bm), flat($xs), 2 * ($xs.len() as int))'),
             ('one new edge per edge', '$ret.len() == $xs.len()'),
             ('orientation and order kept', 'forall|i: int| 0 <= i < $xs.len() ==> #[trigger] $ret[i] == ($out(bm).r[$xs[i].0], $out(bm).r[$xs[i].1])')],
    locals=[('new_edges', 'Seq<(int, int)>'), ('new_vertex', 'int'), ('i', 'int'), ('it', 'iter')],
    loops=[dict(kind='for', inv=['0 <= $it <= $xs.len()', '$i == $it', '$new_edges.len() == $xs.len()', 'dense($bm, $new_vertex)', 'named($bm, flat($xs), 2 * $it)',
        'forall|j: int| 0 <= j < $it ==> $bm.r.dom().contains((#[trigger] $xs[j]).0) && $bm.r.dom().contains($xs[j].1) && $new_edges[j] == ($bm.r[$xs[j].0], $bm.r[$xs[j].1])'], dec='$xs.len() - $it')],
    hints={'entry': 'proof { lemma_named_empty($bm, flat($xs)); }',
           'loop1.end': '''assert($bm == g2.0); assert($it == it0 + 1);
assert forall|j: int| 0 <= j < $it implies $bm.r.dom().contains((#[trigger] $xs[j]).0) && $bm.r.dom().contains($xs[j].1) && $new_edges[j] == ($bm.r[$xs[j].0], $bm.r[$xs[j].1]) by {
  if j < it0 { assert($new_edges[j] == ne0[j]); assert(b0.r.dom().contains($xs[j].0) && b0.r.dom().contains($xs[j].1)); assert(g1.0.r.dom().contains($xs[j].0) && g1.0.r.dom().contains($xs[j].1)); } else { assert(g1.0.r.dom().contains($xs[j].0)); }
}''',
           'loop1.body': '''let ghost ne0 = $new_edges; let ghost b0 = $bm; let ghost it0 = $it; let ghost g1 = assigned($bm, $new_vertex, $xs[$it].0); let ghost g2 = assigned(g1.0, g1.1, $xs[$it].1);
proof { assert(flat($xs)[2 * $it] == $xs[$it].0); assert(flat($xs)[2 * $it + 1] == $xs[$it].1); lemma_assign($bm, $new_vertex, flat($xs), 2 * $it); lemma_assign(g1.0, g1.1, flat($xs), 2 * $it + 1); }''',
           'return': 'proof { assert(dense($bm, $new_vertex)); assert(one_to_one($bm)); }'})]
C['getOldVertex'] = [dict(params=['bm', 'v'], requires=['$bm.l.dom().contains($v)'], ensures=[('stored vertex', '$ret == $bm.l[$v]')])]
C['getNewVertex'] = [dict(params=['bm', 'v'], requires=['$bm.r.dom().contains($v)'], ensures=[('stored id', '$ret == $bm.r[$v]')])]
C['getOldEdge'] = [dict(params=['bm', 'e'], requires=['$bm.l.dom().contains($e.0)', '$bm.l.dom().contains($e.1)'], ensures=[('same orientation', '$ret == ($bm.l[$e.0], $bm.l[$e.1])')], locals=[('old_edge', '(int, int)')])]
C['getNewEdge'] = [dict(params=['bm', 'e'], requires=['$bm.r.dom().contains($e.0)', '$bm.r.dom().contains($e.1)'], ensures=[('same orientation', '$ret == ($bm.r[$e.0], $bm.r[$e.1])')], locals=[('new_edge', '(int, int)')])]
C['getOldVertices'] = container('getOldVertices', ['bm', 'xs'], '$bm.l[$xs[i]]', 'old_vertices', '$bm.l.dom().contains(#[trigger] $xs[i])')
C['getNewVertices'] = container('getNewVertices', ['bm', 'xs'], '$bm.r[$xs[i]]', 'new_vertices', '$bm.r.dom().contains(#[trigger] $xs[i])')
C['getOldEdges'] = container('getOldEdges', ['bm', 'xs'], '($bm.l[$xs[i].0], $bm.l[$xs[i].1])', 'old_edges', '$bm.l.dom().contains((#[trigger] $xs[i]).0) && $bm.l.dom().contains($xs[i].1)')
C['getNewEdges'] = container('getNewEdges', ['bm', 'xs'], '($bm.r[$xs[i].0], $bm.r[$xs[i].1])', 'new_edges', '$bm.r.dom().contains((#[trigger] $xs[i]).0) && $bm.r.dom().contains($xs[i].1)')
ALLEDGE = 'forall|k: (int, int)| #[trigger] $old.dom().contains(k) ==> has_edge($graph, $bm.r[k.0], $bm.r[k.1])'
C['fillCostMapFromRenamedMap'] = [dict(params=['graph', 'new', 'old', 'bm'], requires=['keys_ok($old, $bm)', 'symm($old)', 'one_to_one($bm)', 'simple($graph)'],
    ensures=[('edge-not-found error exactly when some pair is no edge', f'$exc == (if {ALLEDGE} {{ 0 }} else {{ EXC_EdgeNotFoundException() }})'),
             ('every cost is the stored one', '$exc == 0 ==> forall|k: (int, int)| #[trigger] $old.dom().contains(k) ==> $out(new)[ren_edge($graph, $bm, k)] == $old[k]'),
             ('old costs unchanged', '$out(old) == $old')],
    loops=[dict(kind='range', inv=[
        'forall|j: int| 0 <= j < $it ==> has_edge($graph, $bm.r[(#[trigger] $seq[j]).0.0], $bm.r[$seq[j].0.1])',
        'forall|j: int| 0 <= j < $it ==> $new[ren_edge($graph, $bm, (#[trigger] $seq[j]).0)] == $seq[j].1'])],
    hints={'entry': 'proof { axiom_map_entries($old); let n = choose|n: int| dense($bm, n); reveal(dense); assert forall|k: (int, int), h: (int, int)| $old.dom().contains(k) && $old.dom().contains(h) && has_edge($graph, $bm.r[k.0], $bm.r[k.1]) && has_edge($graph, $bm.r[h.0], $bm.r[h.1]) && #[trigger] ren_edge($graph, $bm, k) == #[trigger] ren_edge($graph, $bm, h) implies $old[k] == $old[h] by { lemma_same_edge($graph, $bm, n, k, h); assert($old[(k.0, k.1)] == $old[k]); if k != h { assert($old[(k.0, k.1)] == $old[(k.1, k.0)]); } } }',
           'loop1.body': 'assert($old.dom().contains($seq[$it].0)); assert($old[$seq[$it].0] == $seq[$it].1);'})]
C['fillRenamedVertexMap'] = [dict(params=['new', 'old', 'bm'], requires=['$old.dom().finite()', 'forall|k: int| #[trigger] $old.dom().contains(k) ==> $bm.r.dom().contains(k)', 'one_to_one($bm)'],
    ensures=[('every prize is the stored one', 'forall|k: int| #[trigger] $old.dom().contains(k) ==> $out(new)[$bm.r[k]] == $old[k]'), ('old prizes unchanged', '$out(old) == $old')],
    loops=[dict(kind='range', inv=['forall|j: int| 0 <= j < $it ==> $new[$bm.r[(#[trigger] $seq[j]).0]] == $seq[j].1'])],
    hints={'entry': 'proof { axiom_map_entries($old); let n = choose|n: int| dense($bm, n); reveal(dense); assert(wfb($bm)); assert forall|k: int, h: int| $bm.r.dom().contains(k) && $bm.r.dom().contains(h) && #[trigger] $bm.r[k] == #[trigger] $bm.r[h] implies k == h by { assert($bm.l[$bm.r[k]] == k); assert($bm.l[$bm.r[h]] == h); } }',
           'loop1.body': 'assert($old.dom().contains($seq[$it].0)); assert($old[$seq[$it].0] == $seq[$it].1);'})]
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/exception.hh"
#include "pctsp/renaming.hh"
typedef boost::bimap<PCTSPvertex, int> BM;
void use(BM& b, std::vector<int>& v, std::list<int>& l, std::vector<std::pair<int,int>>& e, std::vector<PCTSPvertex>& nv, std::list<PCTSPvertex>& nl, std::vector<std::pair<PCTSPvertex,PCTSPvertex>>& ne,
   PCTSPgraph& g, EdgeCostMap& cm, VertexPrizeMap& pm, std::map<std::pair<int,int>, int>& oc, std::map<int,int>& op) {
  renameVertices(b, v); renameVertices(b, l); renameEdges(b, e); getOldVertices(b, nv); getOldVertices(b, nl); getNewVertices(b, v); getNewVertices(b, l);
  getOldEdges(b, ne); getNewEdges(b, e); fillCostMapFromRenamedMap(g, cm, oc, b); fillRenamedVertexMap(pm, op, b);
}'''
NAMES = ['findOrInsertVertex', 'renameVertices', 'renameEdges', 'getOldVertex', 'getNewVertex', 'getOldEdge', 'getNewEdge', 'getOldVertices', 'getNewVertices', 'getOldEdges', 'getNewEdges', 'fillCostMapFromRenamedMap', 'fillRenamedVertexMap']
UNITS = [Unit('renaming', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in NAMES], prefetch=NAMES)]
RUNTIME = [dict(kind='cxx', driver='c01.cpp', rule='random vertex and edge lists over arbitrary integers, random order and orientation; non-trivial: at least one repeated and two distinct vertices')]
ASSUMPTIONS = ['renaming starts from an empty map (every caller in /repo does)', 'a cost map that stores both orientations of an edge stores the same cost']
