from ..run import Unit
from ..cxx import str_const
from .. import scip
STRONG, REL, MOST = str_const('fullstrong'), str_const('relpscost'), str_const('mostinf')
PRELUDE = scip.PRELUDE + r'''
pub open spec fn level_of(py: int) -> int { if py == 50 { 5 } else if py == 40 { 4 } else if py == 30 { 3 } else if py == 20 { 2 } else if py == 10 { 1 } else if py == 0 { 0 } else { 2 } }
/// every rule after a strategy was selected
pub open spec fn rel_rule(a: BRule) -> BRule { if a.name == %REL% { BRule { priority: 100000, ..a } } else { BRule { priority: -10000, ..a } } }
pub open spec fn strong_rule(a: BRule) -> BRule {
    if a.name == %STRONG% { BRule { priority: 4000, ..a } } else if a.name == %REL% { BRule { priority: 3000, ..a } } else if a.name == %MOST% { BRule { priority: 1000, ..a } }
    else if a.priority >= 3000 { BRule { priority: 2500, ..a } } else { a }
}
pub open spec fn mapped_rel(a: Seq<BRule>, b: Seq<BRule>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == rel_rule(a[i]) }
pub open spec fn mapped_strong(a: Seq<BRule>, b: Seq<BRule>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == strong_rule(a[i]) }
/// the named rules win: strictly higher priority than every rule of another name
pub open spec fn wins(s: Seq<BRule>, name: int) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).name == name && (#[trigger] s[j]).name != name ==> s[i].priority > s[j].priority }
pub open spec fn only_rules(a: Scip, b: Scip) -> bool { b == (Scip { brules: b.brules, ..a }) }
'''.replace('%REL%', REL).replace('%STRONG%', STRONG).replace('%MOST%', MOST)
RULES_DONE = lambda f: [f'$scip.brules.len() == $in_scip.brules.len()', 'only_rules($in_scip, $scip)', '0 <= $i <= $n', '$n == $in_scip.brules.len()', '$rules == Seq::new($in_scip.brules.len(), |i: int| i + 1)',
    f'forall|k: int| 0 <= k < $i ==> #[trigger] $scip.brules[k] == {f}($in_scip.brules[k])', 'forall|k: int| $i <= k < $n ==> #[trigger] $scip.brules[k] == $in_scip.brules[k]']
C = {**scip.BASE,
 'getBoostLevelFromPyLevel': [dict(params=['level'], ensures=[('each Python level maps to its native level, unknown levels to info', '$ret == level_of($level)')])],
 'findStrongBranchingRule': [dict(params=['scip'], ensures=[('the rule called fullstrong', f'$ret == find_rule($scip.brules, {STRONG})')])],
 'setRelpscostBranchingStrategy': [dict(params=['scip'],
    ensures=[('relpscost gets 100000 and every other rule -10000', 'mapped_rel($scip.brules, $out(scip).brules)'), ('the chosen rule has the strictly highest priority', f'wins($out(scip).brules, {REL})'), ('nothing else changes', 'only_rules($scip, $out(scip))')],
    locals=[('n', 'int'), ('rules', 'Seq<int>'), ('i', 'int')], loops=[dict(kind='for', inv=RULES_DONE('rel_rule'), dec='$n - $i')])],
 'setStrongBranchingStrategy': [dict(params=['scip'],
    ensures=[('strong branching first, relpscost second, mostinf 1000, other high priorities capped at 2500', 'mapped_strong($scip.brules, $out(scip).brules)'), ('the chosen rule has the strictly highest priority', f'wins($out(scip).brules, {STRONG})'), ('nothing else changes', 'only_rules($scip, $out(scip))')],
    locals=[('n', 'int'), ('rules', 'Seq<int>'), ('i', 'int')], loops=[dict(kind='for', inv=RULES_DONE('strong_rule'), dec='$n - $i')])],
 'setStrongAtTreeTopBranchingStrategy': [dict(params=['scip', 'depth'], requires=['has_strong($scip.brules)'],
    ensures=[('priorities as for strong branching', 'tops($scip.brules, $out(scip).brules, $depth)'), ('the chosen rule has the strictly highest priority', f'wins($out(scip).brules, {STRONG})'), ('nothing else changes', 'only_rules($scip, $out(scip))')])],
 'setBranchingStrategy': [dict(sig=['Scip', 'int', 'int'], params=['scip', 'strategy', 'depth'], requires=['$strategy == 2 ==> has_strong($scip.brules)'],
    ensures=[('code 0 selects relpscost', '$strategy == 0 ==> mapped_rel($scip.brules, $out(scip).brules) && wins($out(scip).brules, ' + REL + ')'),
             ('code 1 selects strong branching', '$strategy == 1 ==> mapped_strong($scip.brules, $out(scip).brules) && wins($out(scip).brules, ' + STRONG + ')'),
             ('code 2 additionally limits the depth of strong branching only', '$strategy == 2 ==> tops($scip.brules, $out(scip).brules, $depth) && wins($out(scip).brules, ' + STRONG + ')'),
             ('every other code changes nothing', '$strategy != 0 && $strategy != 1 && $strategy != 2 ==> $out(scip) == $scip'), ('nothing else changes', 'only_rules($scip, $out(scip))')])],
}
PRELUDE += r'''
pub open spec fn has_strong(s: Seq<BRule>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == %STRONG% }
pub open spec fn top_rule(a: Seq<BRule>, i: int, depth: int) -> BRule { if find_rule(a, %STRONG%) == i + 1 { BRule { maxdepth: depth, ..strong_rule(a[i]) } } else { strong_rule(a[i]) } }
pub open spec fn tops(a: Seq<BRule>, b: Seq<BRule>, depth: int) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == top_rule(a, i, depth) }
pub proof fn lemma_find_same_from(a: Seq<BRule>, b: Seq<BRule>, name: int, k: int)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).name == a[i].name, 0 <= k
    ensures find_from(a, name, k) == find_from(b, name, k)
    decreases a.len() - k
{ if k < a.len() { assert(b[k].name == a[k].name); lemma_find_same_from(a, b, name, k + 1); } }
'''.replace('%STRONG%', STRONG)
C['setStrongAtTreeTopBranchingStrategy'][0]['hints'] = {'entry': f'proof {{ lemma_find($scip.brules, {STRONG}, 0); }}',
    'decl:strong': f'proof {{ lemma_find($scip.brules, {STRONG}, 0); assert forall|i: int| 0 <= i < $in_scip.brules.len() implies (#[trigger] $scip.brules[i]).name == $in_scip.brules[i].name by {{ assert($scip.brules[i] == strong_rule($in_scip.brules[i])); }} lemma_find_same_from($in_scip.brules, $scip.brules, {STRONG}, 0); }}'}
N1, N2 = ['getBoostLevelFromPyLevel'], ['findStrongBranchingRule', 'setRelpscostBranchingStrategy', 'setStrongBranchingStrategy', 'setStrongAtTreeTopBranchingStrategy', 'setBranchingStrategy']
UNITS = [Unit('levels', tu='#include "../src/logger.cpp"\n', contracts=C, prelude=PRELUDE, roots=[(n,) for n in N1], prefetch=N1 + ['PyLoggingLevels', 'severity_level']),
         Unit('branching', tu='#include "../src/branching.cpp"\n', contracts=C, prelude=PRELUDE, roots=[(n,) for n in N2[:-1]] + [('setBranchingStrategy', lambda n: 'unsigned int, int' in n['type']['qualType'])], prefetch=N2)]
RUNTIME = [dict(kind='cxx', driver='c17.cpp', srcs=['logger.cpp', 'branching.cpp'], rule='all Python levels from -300 to 300 and the extreme integers; random sets of up to 15 branching rules with priorities around every constant of the code, every strategy code including unknown ones; non-trivial: more than one rule')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['tree-top strategy: a rule called fullstrong exists (SCIP includes it by default)']
