from ..run import Unit
PRELUDE = r'''
/// the vertices below k with label c, in vertex order
pub open spec fn members(ids: Seq<int>, c: int, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if ids[k - 1] == c { members(ids, c, k - 1).push(k - 1) } else { members(ids, c, k - 1) }
}
pub proof fn members_mono(ids: Seq<int>, c: int, a: int, b: int)
    requires 0 <= a <= b
    ensures members(ids, c, a).len() <= members(ids, c, b).len(), a < b && ids[a] == c ==> members(ids, c, a).len() < members(ids, c, b).len()
    decreases b - a
{ if a < b { members_mono(ids, c, a + 1, b); reveal_with_fuel(members, 2); } }
/// every vertex below k is in the list of its own label exactly once, and nowhere else; lists are in vertex order
pub proof fn members_partition(ids: Seq<int>, c: int, k: int)
    requires 0 <= k
    ensures forall|v: int| #[trigger] members(ids, c, k).contains(v) <==> (0 <= v < k && ids[v] == c),
        forall|i: int, j: int| 0 <= i < j < members(ids, c, k).len() ==> members(ids, c, k)[i] < members(ids, c, k)[j],
    decreases k
{
    if k > 0 {
        members_partition(ids, c, k - 1);
        let p = members(ids, c, k - 1); let q = members(ids, c, k);
        assert forall|v: int| #[trigger] q.contains(v) <==> (0 <= v < k && ids[v] == c) by {
            if q.contains(v) { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; if i < p.len() { assert(p[i] == v); assert(p.contains(v)); } }
            if 0 <= v < k && ids[v] == c { if v < k - 1 { assert(p.contains(v)); let i = choose|i: int| 0 <= i < p.len() && p[i] == v; assert(q[i] == v); } else { assert(q[p.len() as int] == v); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] < q[j] by {
            if j == p.len() && ids[k - 1] == c { assert(p.contains(p[i])); }
        }
    }
}
pub open spec fn labelled(cv: Seq<Seq<int>>, ids: Seq<int>, n: int) -> bool { forall|c: int| 0 <= c < cv.len() ==> #[trigger] cv[c] == members(ids, c, n) }
/// indices below k of the lists with more than one entry
pub open spec fn multi(cv: Seq<Seq<int>>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if cv[k - 1].len() > 1 { multi(cv, k - 1).push(k - 1) } else { multi(cv, k - 1) }
}
pub proof fn multi_range(cv: Seq<Seq<int>>, k: int)
    requires 0 <= k
    ensures forall|i: int| 0 <= i < multi(cv, k).len() ==> 0 <= #[trigger] multi(cv, k)[i] < k && cv[multi(cv, k)[i]].len() > 1,
        forall|i: int, j: int| 0 <= i < j < multi(cv, k).len() ==> multi(cv, k)[i] < multi(cv, k)[j],
        forall|c: int| 0 <= c < k && #[trigger] cv[c].len() > 1 ==> multi(cv, k).contains(c)
    decreases k
{
    if k > 0 {
        multi_range(cv, k - 1);
        let p = multi(cv, k - 1); let q = multi(cv, k);
        assert forall|c: int| 0 <= c < k && #[trigger] cv[c].len() > 1 implies q.contains(c) by {
            if c < k - 1 { assert(p.contains(c)); let i = choose|i: int| 0 <= i < p.len() && p[i] == c; assert(q[i] == c); } else { assert(q[p.len() as int] == c); }
        }
    }
}
pub open spec fn kept(cv: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(multi(cv, cv.len() as int).len(), |i: int| cv[multi(cv, cv.len() as int)[i]]) }
'''
C = {
 'getConnectedComponentsVectors': [dict(params=['graph', 'n_components', 'vertex_component_ids'],
    requires=['$graph.n >= 0', '$n_components >= 0', '$vertex_component_ids.len() >= $graph.n', 'forall|v: int| 0 <= v < $graph.n ==> 0 <= #[trigger] $vertex_component_ids[v] < $n_components'],
    ensures=[('one list per label', '$ret.len() == $n_components'),
             ('list c holds exactly the vertices labelled c in vertex order', 'labelled($ret, $vertex_component_ids, $graph.n)'),
             ('every vertex is in the list of its own label', 'forall|v: int| 0 <= v < $graph.n ==> #[trigger] $ret[$vertex_component_ids[v]].contains(v)'),
             ('no vertex is in another list or twice in one', 'forall|c: int, i: int| 0 <= c < $ret.len() && 0 <= i < $ret[c].len() ==> 0 <= #[trigger] $ret[c][i] < $graph.n && $vertex_component_ids[$ret[c][i]] == c && (forall|j: int| 0 <= j < i ==> $ret[c][j] < $ret[c][i])')],
    locals=[('component_vectors', 'Seq<Seq<int>>'), ('component_size', 'Seq<int>'), ('num_vertices_added', 'Seq<int>'), ('i', 'int')],
    loops=[dict(kind='range', inv=['$component_size.len() == $n_components', '$component_vectors.len() == $n_components', '$num_vertices_added == fill_seq::<int>($n_components, 0int)', 'forall|c: int| 0 <= c < $n_components ==> #[trigger] $component_size[c] == members($vertex_component_ids, c, $it).len()']),
           dict(kind='for', inv=['0 <= $i <= $n_components', '$component_vectors.len() == $n_components', '$num_vertices_added == fill_seq::<int>($n_components, 0int)', '$component_size.len() == $n_components',
                'forall|c: int| 0 <= c < $n_components ==> #[trigger] $component_size[c] == members($vertex_component_ids, c, $graph.n).len()',
                'forall|c: int| 0 <= c < $i ==> (#[trigger] $component_vectors[c]).len() == members($vertex_component_ids, c, $graph.n).len()'], dec='$n_components - $i'),
           dict(kind='range', inv=['$component_vectors.len() == $n_components', '$num_vertices_added.len() == $n_components',
                'forall|c: int| 0 <= c < $n_components ==> (#[trigger] $component_vectors[c]).len() == members($vertex_component_ids, c, $graph.n).len()',
                'forall|c: int| 0 <= c < $n_components ==> #[trigger] $num_vertices_added[c] == members($vertex_component_ids, c, $it).len()',
                'forall|c: int, j: int| 0 <= c < $n_components && 0 <= j < members($vertex_component_ids, c, $it).len() ==> (#[trigger] $component_vectors[c][j]) == members($vertex_component_ids, c, $it)[j]'])],
    hints={'loop1.body': 'proof { reveal_with_fuel(members, 2); }', 'loop3.body': 'proof { members_mono($vertex_component_ids, $vertex_component_ids[$it as int], $it as int, $graph.n); reveal_with_fuel(members, 2); }',
           'return': '''assert forall|c: int| 0 <= c < $retval.len() implies #[trigger] $retval[c] == members($vertex_component_ids, c, $graph.n) by { assert($retval[c] =~= members($vertex_component_ids, c, $graph.n)); }
              assert forall|v: int| 0 <= v < $graph.n implies #[trigger] $retval[$vertex_component_ids[v]].contains(v) by { members_partition($vertex_component_ids, $vertex_component_ids[v], $graph.n); }
              assert forall|c: int, i: int| 0 <= c < $retval.len() && 0 <= i < $retval[c].len() implies 0 <= #[trigger] $retval[c][i] < $graph.n && $vertex_component_ids[$retval[c][i]] == c && (forall|j: int| 0 <= j < i ==> $retval[c][j] < $retval[c][i]) by { members_partition($vertex_component_ids, c, $graph.n); assert($retval[c].contains($retval[c][i])); }'''})],
 'getNonSingularConnectedComponentVectors': [dict(sig=['Seq<Seq<int>>'], params=['component_vectors'],
    ensures=[('exactly the lists with more than one vertex, complete and in order', '$ret == kept($component_vectors)')],
    locals=[('non_singular_component_ids', 'Seq<int>'), ('n_non_singular_components', 'int'), ('i', 'int'), ('non_singular_components', 'Seq<Seq<int>>'), ('i_2', 'int')],
    loops=[dict(kind='for', inv=['0 <= $i <= $component_vectors.len()', '$non_singular_component_ids == multi($component_vectors, $i)', '$n_non_singular_components == $non_singular_component_ids.len()'], dec='$component_vectors.len() - $i'),
           dict(kind='range', inv=['$i_2 == $it', '$seq == multi($component_vectors, $component_vectors.len() as int)', '$non_singular_components.len() == $seq.len()',
                'forall|q: int| 0 <= q < $it ==> #[trigger] $non_singular_components[q] == $component_vectors[$seq[q]]'])],
    hints={'loop1.body': 'proof { reveal_with_fuel(multi, 2); }', 'loop2.before': 'proof { multi_range($component_vectors, $component_vectors.len() as int); }',
           'loop2.body': 'proof { multi_range($component_vectors, $component_vectors.len() as int); }',
           'loop2.end': 'proof { assert($non_singular_components[$it - 1] =~= $component_vectors[$seq[$it - 1]]); }',
           'return': 'assert($retval =~= kept($component_vectors));'}),
  dict(sig=['Graph', 'int', 'Seq<int>'], emit='getNonSingular_of_graph', params=['graph', 'n_components', 'vertex_component_ids'],
    requires=['$graph.n >= 0', '$n_components >= 0', '$vertex_component_ids.len() >= $graph.n', 'forall|v: int| 0 <= v < $graph.n ==> 0 <= #[trigger] $vertex_component_ids[v] < $n_components'],
    ensures=[('exactly the components with more than one vertex', 'exists|all: Seq<Seq<int>>| #[trigger] labelled(all, $vertex_component_ids, $graph.n) && all.len() == $n_components && $ret == kept(all)')],
    locals=[('component_vectors', 'Seq<Seq<int>>')])],
}
TU = r'''
#include "pctsp/graph.hh"
#include "pctsp/data_structures.hh"
void use(PCTSPgraph& g, int& n, std::vector<int>& ids) { auto v = getConnectedComponentsVectors(g, n, ids); getNonSingularConnectedComponentVectors(v); getNonSingularConnectedComponentVectors(g, n, ids); }
'''
N = ['getConnectedComponentsVectors', 'getNonSingularConnectedComponentVectors']
UNITS = [Unit('components', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in N] + [(N[1], lambda node: sum(1 for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl') == 3)], prefetch=N)]
RUNTIME = [dict(kind='cxx', driver='c09.cpp', srcs=['data_structures.cpp'], rule='random labellings of up to 14 vertices (any labels, so also labels nobody has), and boost::connected_components on random graphs and on filtered graphs; non-trivial: at least one vertex and at least one singleton list before a longer one')]
ASSUMPTIONS = ['labels are in 0..n_components-1 and there is one per vertex (what boost::connected_components delivers)']
