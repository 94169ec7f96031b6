from ..run import Unit
from ..ir import E, Unsupported
from ..pyfe import h_choice, h_nothing
from . import c21
PRELUDE = c21.PRELUDE + r'''
pub open spec fn psum(pm: Map<int, int>, t: Seq<int>) -> int decreases t.len() { if t.len() == 0 { 0 } else { psum(pm, t.drop_last()) + pm[t.last()] } }
pub proof fn lemma_psum_push(pm: Map<int, int>, t: Seq<int>, v: int) ensures psum(pm, t.push(v)) == psum(pm, t) + pm[v] { assert(t.push(v).drop_last() =~= t); }
pub open spec fn eligible(paths: PM, root: int, v: int) -> bool { paths.dom().contains(v) && v != root && paths[v].0.len() + paths[v].1.len() >= 5 }
'''
def h_attrs(self, n, want):
    import ast
    if len(n.args) != 2 or ast.unparse(n.args[1]) != 'VertexFunctionName.prize.value': raise Unsupported('get_node_attributes of another attribute')
    g = self.ex(n.args[0]); return E(f'{g.s}.prize', 'Map<int, int>')
C = dict(c21.C)
C['__py__'] = dict(c21.C['__py__'])
C['__py__'].update({('call', 'random.seed'): h_nothing, ('call', 'random.choice'): h_choice, ('call', 'nx.get_node_attributes'): h_attrs,
   ('method', ('NxGraph', 'nodes')): lambda self, o, n: E(f'{o.s}.nodes', 'Seq<int>')})
C['random_tour_complete_graph'] = dict(types=['NxGraph', 'int', 'int', 'int'], params=['g', 'root', 'quota', 'seed'], returns='Seq<int>',
    requires=['$g.nodes.no_duplicates()', '$g.nodes.contains($root)', 'forall|v: int| $g.nodes.contains(v) ==> #[trigger] $g.prize.dom().contains(v)'],
    locals=[('prize_dict', 'Map<int, int>'), ('prize', 'int'), ('tour', 'Seq<int>'), ('vertices_not_in_tour', 'Seq<int>'), ('vertex', 'int')],
    ensures=[('starts and ends at the root', '$ret.len() >= 2 && $ret[0] == $root && $ret.last() == $root'),
             ('repeats no other vertex', '$ret.drop_last().no_duplicates()'),
             ('uses only graph vertices', 'forall|i: int| 0 <= i < $ret.len() ==> $g.nodes.contains(#[trigger] $ret[i])'),
             ('at least three distinct vertices unless the graph has fewer', '$ret.len() - 1 >= 3 || (forall|v: int| $g.nodes.contains(v) ==> $ret.drop_last().contains(v))'),
             ('meets the quota unless every vertex is used', 'psum($g.prize, $ret.drop_last()) >= $quota || (forall|v: int| $g.nodes.contains(v) ==> $ret.drop_last().contains(v))'),
             ('graph unchanged', '$out(g) == $g')],
    loops=[dict(kind='while', inv=['$tour.len() >= 1 && $tour[0] == $root && $tour.no_duplicates()', '$vertices_not_in_tour.no_duplicates()', '$prize == psum($g.prize, $tour)',
        'forall|v: int| $g.nodes.contains(v) <==> (#[trigger] $tour.contains(v) || $vertices_not_in_tour.contains(v))',
        'forall|v: int| !(#[trigger] $tour.contains(v) && $vertices_not_in_tour.contains(v))'], dec='$vertices_not_in_tour.len()')],
    hints={'loop1.before': '''proof { lemma_remove_nodup($g.nodes, $root); assert(seq![$root].drop_last() =~= Seq::<int>::empty()); assert(psum($g.prize, Seq::<int>::empty()) == 0); assert(psum($g.prize, seq![$root]) == psum($g.prize, seq![$root].drop_last()) + $g.prize[seq![$root].last()]);
        assert forall|v: int| #[trigger] $tour.contains(v) <==> v == $root by { if v == $root { assert($tour[0] == v); } } }''',
        'loop1.body': 'let ghost t0 = $tour; let ghost r0 = $vertices_not_in_tour;',
        'decl:vertex': 'proof { assert(r0.contains($vertex)); assert(!(t0.contains($vertex) && r0.contains($vertex))); assert(!t0.contains($vertex)); assert(t0.contains($vertex) || r0.contains($vertex)); assert($g.nodes.contains($vertex)); lemma_remove_nodup(r0, $vertex); lemma_psum_push($g.prize, t0, $vertex); assert(t0.push($vertex).no_duplicates()) by { assert forall|i: int| 0 <= i < t0.len() implies t0[i] != $vertex by { assert(t0.contains(t0[i])); } } }',
        'loop1.end': '''proof { let nt = t0.push($vertex); assert($tour =~= nt);
          assert forall|v: int| #[trigger] $tour.contains(v) <==> (t0.contains(v) || v == $vertex) by {
             if t0.contains(v) { let i = choose|i: int| 0 <= i < t0.len() && t0[i] == v; assert(nt[i] == v); } if v == $vertex { assert(nt[nt.len() - 1] == v); } if nt.contains(v) { let i = choose|i: int| 0 <= i < nt.len() && nt[i] == v; if i < t0.len() { assert(t0[i] == v); } } } }''',
        'loop1.after': '''let ghost t1 = $tour; proof { assert forall|i: int| 0 <= i < t1.len() implies $g.nodes.contains(#[trigger] t1[i]) by { assert(t1.contains(t1[i])); }
          if $vertices_not_in_tour.len() == 0 { assert forall|v: int| $g.nodes.contains(v) implies t1.contains(v) by { assert(t1.contains(v) || $vertices_not_in_tour.contains(v)); } } }''',
        'return': 'proof { assert($tour.drop_last() =~= t1); assert forall|i: int| 0 <= i < $tour.len() implies $g.nodes.contains(#[trigger] $tour[i]) by { if i < t1.len() { assert($tour[i] == t1[i]); } } }'})
C['random_tour_from_disjoint_paths_map'] = dict(types=[f'Map<int, {c21.PATHS}>', 'int', 'int'], params=['paths', 'root', 'seed'], returns='Seq<int>', raises=True,
    requires=['$paths.dom().finite()', 'all_ok($paths)'],
    locals=[('vertex_choices', 'Seq<int>'), ('vertex', 'int'), ('first_path', 'Seq<int>'), ('second_path', 'Seq<int>')],
    ensures=['$exc == 0 || $exc == EXC_ValueError()',
             ('value error exactly when no pair is eligible', '($exc != 0) <==> (forall|v: int| $paths.dom().contains(v) ==> !#[trigger] eligible($paths, $root, v))'),
             ('the tour of an eligible pair', '$exc == 0 ==> exists|v: int| #[trigger] eligible($paths, $root, v) && $ret == joined($paths[v])'),
             ('map unchanged', '$out(paths) == $paths')],
    loops=[dict(kind='while', inv=['$vertex_choices.no_duplicates()', 'forall|v: int| #[trigger] $vertex_choices.contains(v) ==> $paths.dom().contains(v) && v != $root',
        'forall|v: int| $paths.dom().contains(v) && #[trigger] eligible($paths, $root, v) ==> $vertex_choices.contains(v)'], dec='$vertex_choices.len()')],
    hints={'set:vertex_choices': 'proof { assert($vertex_choices.no_duplicates()); }' ,
           'decl:vertex_choices': '''let ghost all = map_keys($paths); proof { axiom_map_entries($paths); assert(all.no_duplicates());
             assert forall|v: int| #[trigger] all.contains(v) <==> $paths.dom().contains(v) by {
                if $paths.dom().contains(v) { let i = choose|i: int| 0 <= i < map_entries($paths).len() && #[trigger] map_entries($paths)[i] == (v, $paths[v]); assert(all[i] == v); }
                if all.contains(v) { let i = choose|i: int| 0 <= i < all.len() && all[i] == v; assert($paths.dom().contains(map_entries($paths)[i].0)); } }
             if all.contains($root) { lemma_remove_nodup(all, $root); } }''',
           'decl:vertex': 'let ghost c0 = $vertex_choices; proof { assert(c0.contains($vertex)); lemma_remove_nodup(c0, $vertex); if pair_ok($paths[$vertex]) { lemma_joined_closed($paths[$vertex]); } }',
           'return': 'proof { assert(eligible($paths, $root, $vertex)); }'})
UNITS = [Unit('random_tours', kind='py', files=['pctsp/algorithms/heuristic.py', 'pctsp/constants/constants.py'], contracts=C, prelude=PRELUDE, structs={'NxGraph': [('nodes', 'Seq<int>'), ('prize', 'Map<int, int>')]},
              roots=['random_tour_complete_graph', 'random_tour_from_disjoint_paths_map'])]
RUNTIME = [dict(kind='py', driver='c22.py', rule='complete graphs up to 8 vertices and maps of up to 6 path pairs, random prizes and quotas, random seeds; non-trivial: at least two vertices or one pair')]
ASSUMPTIONS = ['random.choice returns some element of its argument', 'networkx node lists have no repetitions; every node has a prize', 'the given path pairs share both ends and have at least two vertices']
