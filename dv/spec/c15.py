from ..run import Unit
from ..ir import E
PRELUDE = r'''
pub open spec fn push_gap(l: Seq<real>, x: real, w: int) -> Seq<real> {
    if w < 1 { l } else if l.len() < w { l.push(x) } else { l.push(x).subrange(1, (l.len() + 1) as int) }
}
/// the list after a whole history of gaps, starting from the empty list
pub open spec fn history(gs: Seq<real>, w: int) -> Seq<real> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() } else { push_gap(history(gs.drop_last(), w), gs.last(), w) }
}
pub open spec fn last_w(gs: Seq<real>, w: int) -> Seq<real> {
    if w < 1 { Seq::empty() } else if gs.len() <= w { gs } else { gs.subrange(gs.len() - w, gs.len() as int) }
}
/// any history of pushes leaves exactly the last W gaps, oldest first
pub proof fn history_is_last_w(gs: Seq<real>, w: int)
    ensures history(gs, w) == last_w(gs, w), w >= 1 ==> history(gs, w).len() <= w, w < 1 ==> history(gs, w).len() == 0
    decreases gs.len()
{
    if gs.len() > 0 {
        let h = gs.drop_last();
        history_is_last_w(h, w);
        if w >= 1 {
            let a = history(gs, w); let b = last_w(gs, w);
            assert(a =~= b);
        }
    }
}
'''
C = {
 'pushIntoRollingLpGapList': [dict(requires=['$sec_max_tailing_off_iterations >= 1 ==> $rolling_gaps.len() <= $sec_max_tailing_off_iterations'],
    params=['rolling_gaps', 'gap', 'sec_max_tailing_off_iterations'],
    ensures=[('the newest gap is appended and the list keeps the last W', '$out(rolling_gaps) == push_gap($rolling_gaps, $gap, $sec_max_tailing_off_iterations)'),
             ('at most W gaps are kept', '$sec_max_tailing_off_iterations >= 1 ==> $out(rolling_gaps).len() <= $sec_max_tailing_off_iterations'),
             ('nothing is stored when the feature is off', '$sec_max_tailing_off_iterations < 1 ==> $out(rolling_gaps) == $rolling_gaps')],
    hints={'return': 'assert($rolling_gaps =~= push_gap($in_rolling_gaps, $gap, $sec_max_tailing_off_iterations));'})],
 'isNodeTailingOff': [dict(params=['rolling_gaps', 'sec_lp_gap_improvement_threshold', 'sec_max_tailing_off_iterations'],
    requires=['$sec_max_tailing_off_iterations >= 1 ==> $rolling_gaps.len() <= $sec_max_tailing_off_iterations'],
    ensures=[('tailing off exactly when the list is full, has two gaps and oldest minus newest is below the threshold',
      '$ret == ($sec_max_tailing_off_iterations >= 1 && $rolling_gaps.len() == $sec_max_tailing_off_iterations && $rolling_gaps.len() >= 2 && $rolling_gaps[0] - $rolling_gaps[$rolling_gaps.len() - 1] < $sec_lp_gap_improvement_threshold)')])],
}
TU = '#include "../src/subtour_elimination.cpp"\n'
UNITS = [Unit('tailing', tu=TU, contracts=C, prelude=PRELUDE, roots=[('pushIntoRollingLpGapList',), ('isNodeTailingOff',)], prefetch=['pushIntoRollingLpGapList', 'isNodeTailingOff'])]
SRCS = ['subtour_elimination.cpp', 'separation.cpp', 'solution.cpp', 'graph.cpp', 'sciputils.cpp', 'event_handlers.cpp', 'data_structures.cpp', 'stats.cpp']
RUNTIME = [dict(kind='cxx', driver='c15.cpp', srcs=SRCS, libs=['-lyaml-cpp'], rule='random gap histories up to 40 pushes, W from -1 to 8; non-trivial: W >= 1 and at least one gap; compared with the last-W window of the history, also through the enfolp callback of the constraint handler with several nodes interleaved')]
# ---- the callback that keeps one list per node
from .. import scip
PRELUDE_E = scip.PRELUDE + PRELUDE + r'''
pub uninterp spec fn branch_result(n: int) -> int;
pub uninterp spec fn lp_status(n: int) -> int;
pub uninterp spec fn gap_of(eps: real, inf: real, up: real, lo: real) -> real;
pub uninterp spec fn scip_epsilon() -> real;
/// isSolSimpleCycle on the current LP solution (its own contract is C08)
pub uninterp spec fn lp_is_cycle(s: Scip) -> bool;
pub open spec fn list_at(ls: Seq<Seq<real>>, i: int) -> Seq<real> { if 0 <= i < ls.len() { ls[i] } else { Seq::empty() } }
pub open spec fn lists_fit(ls: Seq<Seq<real>>, w: int) -> bool { w >= 1 ==> forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).len() <= w }
pub open spec fn tails_off(l: Seq<real>, w: int, d: real) -> bool { w >= 1 && l.len() == w && l.len() >= 2 && l[0] - l[l.len() - 1] < d }
pub open spec fn lp_gap(s: Scip) -> real { gap_of(scip_epsilon(), scip_infinity(), s.upper, node_lower(s.current)) }
/// the list of the current node after this call
pub open spec fn list_now(s: Scip, ls: Seq<Seq<real>>, w: int) -> Seq<real> { push_gap(list_at(ls, node_number(s.current)), lp_gap(s), w) }
'''
def is_cycle(self, a, n): return E(f'lp_is_cycle({scip.S(self, a[0]).read()})', 'bool')
def compute_gap(self, a, n): return E('gap_of(%s)' % ', '.join(self.coerce(self.expr(x), 'real').s for x in a), 'real')
def branch_lp(self, a, n):
    c = scip.fld(scip.S(self, a[0]), 'current').read(); scip.out(self, a[1], f'branch_result({c})'); return E('1int', 'int')
def lp_stat(self, a, n): return E(f'lp_status({scip.fld(scip.S(self, a[0]), "current").read()})', 'int')
K = 'PCTSPconshdlrSubtour'
PT = {'conss': 'int', 'conshdlr': 'int', 'nconss': 'int', 'nusefulconss': 'int'}
ECALLS = {**scip.CALLS, 'isSolSimpleCycle': is_cycle, 'SCIPcomputeGap': compute_gap, 'SCIPepsilon': lambda self, a, n: E('scip_epsilon()', 'real'), 'SCIPgetPrimalbound': scip.getUpperbound, 'SCIPbranchLP': branch_lp, 'SCIPgetLPSolstat': lp_stat, 'SCIPgetChildren': scip.nothing}
ID = 'node_number($scip.current)'; W = '$this.sec_max_tailing_off_iterations'; L = '$this.node_rolling_lp_gap'
NOW = f'list_now($scip, {L}, {W})'
ENFOLP = dict(this=K, cls=K, ptypes=PT, params=['this', 'scip', 'conshdlr', 'conss', 'nconss', 'nusefulconss', 'solinfeasible', 'result'], requires=[f'{ID} >= 0', f'lists_fit({L}, {W})'],
   ensures=['$exc == 0 && $ret == 1', '$out(scip) == $scip',
    ('a simple cycle stores no gap', f'lp_is_cycle($scip) ==> $out(this).node_rolling_lp_gap == {L}'),
    ('the list of the current node gets the current gap', f'!lp_is_cycle($scip) ==> list_at($out(this).node_rolling_lp_gap, {ID}) == {NOW}'),
    ('the lists of the other nodes stay as they are', f'forall|i: int| i != {ID} ==> #[trigger] list_at($out(this).node_rolling_lp_gap, i) == list_at({L}, i)'),
    ('every list keeps at most W gaps', f'lists_fit($out(this).node_rolling_lp_gap, {W})'),
    ('branches exactly when the current node is tailing off on an optimal or unbounded LP', f'$out(result) == (if lp_is_cycle($scip) {{ 4int }} else if tails_off({NOW}, {W}, $this.sec_lp_gap_improvement_threshold) && (lp_status($scip.current) == 1 || lp_status($scip.current) == 3) {{ branch_result($scip.current) }} else {{ 5int }})')])
CE = {**C, '__structs__': scip.STRUCTS, '__members__': scip.MEMBERS, '__calls__': ECALLS, 'scip_enfolp': [ENFOLP]}
UNITS += [Unit('enfolp', tu=TU, contracts=CE, prelude=PRELUDE_E, roots=[(K + '::scip_enfolp',)], prefetch=[K, 'pushIntoRollingLpGapList', 'isNodeTailingOff'])]
ASSUMPTIONS = scip.ASSUMPTIONS + ['a list handed to the two functions was built by pushes with the same W (representation invariant: at most W entries)', 'in the unit enfolp, isSolSimpleCycle is an uninterpreted predicate of the LP solution (its own contract is proved under C08), and the LP status, the gap computation and the result of SCIPbranchLP are the solver’s', 'node numbers are not negative']
