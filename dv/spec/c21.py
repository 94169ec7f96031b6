from ..run import Unit
from ..ir import E
PRELUDE = r'''
pub open spec fn joined(p: (Seq<int>, Seq<int>)) -> Seq<int> { p.0 + p.1.reverse().subrange(1, p.1.len() as int) }
pub open spec fn pair_ok(p: (Seq<int>, Seq<int>)) -> bool { p.0.len() >= 2 && p.1.len() >= 2 && p.0[0] == p.1[0] && p.0.last() == p.1.last() }
// tspwplib.total_prize_of_tour (library): the prize of the distinct vertices of the tour
pub uninterp spec fn prize_of(pm: Map<int, int>, t: Seq<int>) -> int;
pub open spec fn simple_tour(t: Seq<int>) -> bool { t.len() >= 2 && t[0] == t.last() && t.drop_last().no_duplicates() }
pub open spec fn usable(pm: Map<int, int>, quota: int, p: (Seq<int>, Seq<int>)) -> bool { simple_tour(joined(p)) && prize_of(pm, joined(p)) >= quota }
pub type PM = Map<int, (Seq<int>, Seq<int>)>;
pub open spec fn least(pm: Map<int, int>, quota: int, cost: Map<int, int>, paths: PM, v: int) -> bool {
    paths.dom().contains(v) && usable(pm, quota, paths[v]) && forall|w: int| #[trigger] paths.dom().contains(w) && usable(pm, quota, paths[w]) ==> cost[v] <= cost[w] }
pub open spec fn is_best(pm: Map<int, int>, quota: int, cost: Map<int, int>, paths: PM, r: Seq<int>) -> bool { exists|v: int| #[trigger] least(pm, quota, cost, paths, v) && r == joined(paths[v]) }
pub open spec fn none_usable(pm: Map<int, int>, quota: int, paths: PM) -> bool { forall|v: int| #[trigger] paths.dom().contains(v) ==> !usable(pm, quota, paths[v]) }
pub open spec fn most(pm: Map<int, int>, paths: PM, v: int) -> bool {
    paths.dom().contains(v) && prize_of(pm, joined(paths[v])) > 0 && forall|w: int| #[trigger] paths.dom().contains(w) ==> prize_of(pm, joined(paths[w])) <= prize_of(pm, joined(paths[v])) }
pub open spec fn is_most(pm: Map<int, int>, paths: PM, r: Seq<int>) -> bool { exists|v: int| #[trigger] most(pm, paths, v) && r == joined(paths[v]) }
pub open spec fn no_prize(pm: Map<int, int>, paths: PM) -> bool { forall|v: int| #[trigger] paths.dom().contains(v) ==> prize_of(pm, joined(paths[v])) <= 0 }
pub open spec fn all_ok(paths: PM) -> bool { forall|v: int| #[trigger] paths.dom().contains(v) ==> pair_ok(paths[v]) }

pub proof fn lemma_joined_closed(p: (Seq<int>, Seq<int>))
    requires pair_ok(p)
    ensures joined(p).len() == p.0.len() + p.1.len() - 1, joined(p)[0] == p.0[0], joined(p).last() == p.0[0],
        forall|i: int| 0 <= i < p.0.len() ==> joined(p)[i] == p.0[i],
        forall|i: int| 0 <= i < p.1.len() - 1 ==> joined(p)[p.0.len() + i] == #[trigger] p.1[p.1.len() - 2 - i],
{}
pub proof fn lemma_simple_iff(t: Seq<int>)
    requires t.len() >= 2, t[0] == t.last()
    ensures simple_tour(t) <==> t.to_set().len() == t.len() - 1
{
    let s = t.drop_last();
    assert(s.to_set() =~= t.to_set()) by {
        assert forall|x: int| t.to_set().contains(x) implies s.to_set().contains(x) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            if i == t.len() - 1 { assert(s[0] == x); } else { assert(s[i] == x); }
        }
        assert forall|x: int| s.to_set().contains(x) implies t.to_set().contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
    }
    if s.no_duplicates() { s.unique_seq_to_set(); }
    if s.to_set().len() == s.len() { s.lemma_no_dup_set_cardinality(); }
}
'''
def h_total_prize(self, n, want):
    pm, t = self.args(n)
    return E(f'prize_of({pm.s}, {t.s})', 'int')
PATHS = '(Seq<int>, Seq<int>)'
C = {
 '__py__': {('call', 'total_prize_of_tour'): h_total_prize},
 'tour_from_vertex_disjoint_paths': dict(types=[PATHS], params=['paths'], returns='Seq<int>', raises=True,
    ensures=[('a value error exactly when a path is too short or an end differs', '($exc == 0) == pair_ok($paths)'), '$exc == 0 || $exc == EXC_ValueError()',
             ('first path followed by the reversed second one without its first vertex', '$exc == 0 ==> $ret == joined($paths)'),
             ('closed at the common start', '$exc == 0 ==> $ret.len() >= 3 && $ret[0] == $paths.0[0] && $ret.last() == $paths.0[0]'),
             ('inputs unchanged', '$out(paths) == $paths')],
    hints={'return': 'proof { if pair_ok($paths) { lemma_joined_closed($paths); } assert($retval =~= joined($paths)); }'}),
 'suurballes_heuristic': dict(types=['Map<int, int>', 'int', 'Map<int, int>', f'Map<int, {PATHS}>'], params=['pm', 'quota', 'cost', 'paths'], returns='Seq<int>', raises=True,
    requires=['$paths.dom().finite()', 'forall|v: int| #[trigger] $paths.dom().contains(v) ==> $cost.dom().contains(v) && $cost[v] < 9223372036854775807'],
    locals=[('least_cost', 'int'), ('best_tour', 'Seq<int>'), ('vertex', 'int'), ('disjoint_paths', PATHS), ('tour', 'Seq<int>')],
    ensures=[('no error on well-formed pairs', 'all_ok($paths) ==> $exc == 0'),
             ('empty exactly when no pair is simple and meets the quota', '$exc == 0 ==> ($ret.len() == 0 <==> none_usable($pm, $quota, $paths))'),
             ('otherwise a usable tour of least cost', '$exc == 0 && $ret.len() > 0 ==> is_best($pm, $quota, $cost, $paths, $ret)'),
             ('inputs unchanged', '$out(paths) == $paths && $out(pm) == $pm && $out(cost) == $cost')],
    loops=[dict(kind='range', inv=['$seq == map_entries($paths)', '''($best_tour.len() == 0 && $least_cost == 9223372036854775807 && (forall|j: int| 0 <= j < $it ==> !usable($pm, $quota, (#[trigger] $seq[j]).1)))
        || ($paths.dom().contains(bv) && $best_tour.len() > 0 && $best_tour == joined($paths[bv]) && usable($pm, $quota, $paths[bv]) && $least_cost == $cost[bv] && (forall|j: int| 0 <= j < $it && usable($pm, $quota, (#[trigger] $seq[j]).1) ==> $cost[bv] <= $cost[$seq[j].0]))'''])],
    hints={'entry': 'let ghost mut bv: int = 0;\nproof { axiom_map_entries($paths); }',
           'decl:tour': 'proof { if pair_ok($disjoint_paths) { lemma_joined_closed($disjoint_paths); lemma_simple_iff($tour); } assert($seq1[$it1] == ($vertex, $disjoint_paths)); assert($paths.dom().contains($vertex) && $paths[$vertex] == $disjoint_paths); }',
           'set:best_tour': 'proof { bv = $vertex; }',
           'loop1.after': '''proof {
        assert forall|w: int| #[trigger] $paths.dom().contains(w) implies (exists|j: int| 0 <= j < $seq.len() && #[trigger] $seq[j] == (w, $paths[w])) by {}
        if $best_tour.len() == 0 {
            assert forall|w: int| #[trigger] $paths.dom().contains(w) implies !usable($pm, $quota, $paths[w]) by { let j = choose|j: int| 0 <= j < $seq.len() && #[trigger] $seq[j] == (w, $paths[w]); assert($seq[j].1 == $paths[w]); }
        } else {
            assert forall|w: int| #[trigger] $paths.dom().contains(w) && usable($pm, $quota, $paths[w]) implies $cost[bv] <= $cost[w] by { let j = choose|j: int| 0 <= j < $seq.len() && #[trigger] $seq[j] == (w, $paths[w]); assert($seq[j].1 == $paths[w]); }
            assert(least($pm, $quota, $cost, $paths, bv));
        } }'''}),
 'suurballes_tour_initialization': dict(types=['Map<int, int>', 'int', 'Map<int, int>', f'Map<int, {PATHS}>'], params=['pm', 'quota', 'cost', 'paths'], returns='Seq<int>', raises=True,
    requires=['$paths.dom().finite()', 'forall|v: int| #[trigger] $paths.dom().contains(v) ==> $cost.dom().contains(v) && $cost[v] < 9223372036854775807'],
    locals=[('tour', 'Seq<int>'), ('biggest_prize', 'int'), ('biggest_tour', 'Seq<int>'), ('disjoint_paths', PATHS)],
    ensures=[('no error on well-formed pairs', 'all_ok($paths) ==> $exc == 0'),
             ('the least-cost usable tour when there is one', '$exc == 0 && !none_usable($pm, $quota, $paths) ==> is_best($pm, $quota, $cost, $paths, $ret)'),
             ('otherwise a tour of maximum prize, empty only when no tour has positive prize', '$exc == 0 && none_usable($pm, $quota, $paths) ==> (if $ret.len() == 0 { no_prize($pm, $paths) } else { is_most($pm, $paths, $ret) })'),
             ('inputs unchanged', '$out(paths) == $paths && $out(pm) == $pm && $out(cost) == $cost')],
    loops=[dict(kind='range', inv=['$seq == map_values($paths)', 'none_usable($pm, $quota, $paths)', '''($biggest_tour.len() == 0 && $biggest_prize == 0 && (forall|j: int| 0 <= j < $it ==> prize_of($pm, joined(#[trigger] $seq[j])) <= 0))
        || ($paths.dom().contains(bv) && $biggest_tour.len() > 0 && $biggest_tour == joined($paths[bv]) && $biggest_prize > 0 && $biggest_prize == prize_of($pm, joined($paths[bv])) && (forall|j: int| 0 <= j < $it ==> prize_of($pm, joined(#[trigger] $seq[j])) <= $biggest_prize))'''])],
    hints={'entry': 'let ghost mut bv: int = 0;\nproof { axiom_map_entries($paths); }',
           'decl:disjoint_paths': 'proof { if pair_ok($disjoint_paths) { lemma_joined_closed($disjoint_paths); } let e = map_entries($paths)[$it1]; assert($paths.dom().contains(e.0) && $paths[e.0] == $disjoint_paths); }',
           'set:biggest_tour': 'proof { bv = map_entries($paths)[$it1].0; }',
           'loop1.after': '''proof {
        assert forall|w: int| #[trigger] $paths.dom().contains(w) implies prize_of($pm, joined($paths[w])) <= $biggest_prize by { let j = choose|j: int| 0 <= j < map_entries($paths).len() && #[trigger] map_entries($paths)[j] == (w, $paths[w]); assert($seq[j] == $paths[w]); }
        if $biggest_tour.len() > 0 { assert(most($pm, $paths, bv)); } }'''}),
}
UNITS = [Unit('disjoint_path_tours', kind='py', files=['pctsp/algorithms/heuristic.py', 'pctsp/constants/constants.py'], contracts=C, prelude=PRELUDE,
              roots=['tour_from_vertex_disjoint_paths', 'suurballes_heuristic', 'suurballes_tour_initialization'])]
RUNTIME = [dict(kind='py', driver='c21.py', rule='random maps of up to 6 path pairs over up to 9 vertices (well-formed, too short, wrong ends, repeated vertices), random prizes, costs and quotas; non-trivial: at least one well-formed pair')]
ASSUMPTIONS = ['tspwplib.total_prize_of_tour is the prize of the distinct vertices of a tour (library, uninterpreted)', 'reported path-pair costs are below sys.maxsize', 'the order in which a dict is iterated is arbitrary but covers every entry once']
