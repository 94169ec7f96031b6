"""Cross products of experiment settings and flattening of a vial."""
import ast
from ..run import Unit
from ..ir import *
from ..cxx import str_const, vty, split_targs, LV
from ..pyfe import h_nothing
K = str_const
def prods():
    out = []
    for n in (2, 3, 4, 5):
        T = [chr(65 + i) for i in range(n)]; v = [x.lower() for x in T]
        tp = ', '.join(T); args = ', '.join(f'{a}: Seq<{t}>' for a, t in zip(v, T))
        size = ' * '.join(f'{a}.len()' for a in v)
        # nested: product(a, rest) at index i = (a[i / |rest|], rest[i % |rest|])
        if n == 2:
            out.append(f'pub open spec fn prod2<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {{ Seq::new(a.len() * b.len(), |i: int| (a[i / (b.len() as int)], b[i % (b.len() as int)])) }}')
        else:
            r = f'prod{n-1}({", ".join(v[1:])})'
            out.append(f'pub open spec fn prod{n}<{tp}>({args}) -> Seq<({tp})> {{ let r = {r}; Seq::new(a.len() * r.len(), |i: int| (a[i / (r.len() as int)], ' + ', '.join(f'r[i % (r.len() as int)].{j}' for j in range(n - 1)) + ')) }')
    return '\n'.join(out)
PRELUDE = '''
// itertools.product: the rightmost factor varies fastest (trusted model of the library)
''' + prods() + r'''
// ----- every combination exactly once, in lexicographic order of the positions
pub proof fn lemma_index(n: int, m: int, i: int, j: int)
    requires 0 <= i < n, 0 <= j < m
    ensures 0 <= i * m + j < n * m, (i * m + j) / m == i, (i * m + j) % m == j
{
    assert(i * m + j < n * m) by (nonlinear_arith) requires 0 <= i < n, 0 <= j < m;
    assert(0 <= i * m) by (nonlinear_arith) requires 0 <= i, 0 < m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * m + j, m, i, j);
}
pub proof fn lemma_split(n: int, m: int, k: int)
    requires 0 <= k < n * m, n >= 0, m >= 0
    ensures m > 0, 0 <= k / m < n, 0 <= k % m < m, k == (k / m) * m + k % m
{
    assert(m > 0) by (nonlinear_arith) requires 0 <= k < n * m, n >= 0, m >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, m);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, m);
    assert(k / m < n) by (nonlinear_arith) requires k < n * m, m > 0, k == m * (k / m) + k % m, 0 <= k % m;
    assert(m * (k / m) == (k / m) * m) by (nonlinear_arith);
}
pub open spec fn at3(m: int, p: int, i: int, j: int, k: int) -> int { i * (m * p) + (j * p + k) }
// the combination of positions (i, j, k) is found at exactly one place, and places follow the order of the positions
pub proof fn lemma_prod2<A, B>(a: Seq<A>, b: Seq<B>, i: int, j: int)
    requires 0 <= i < a.len(), 0 <= j < b.len()
    ensures /*OB lemma: every pair occurs at its place BO*/ 0 <= i * b.len() + j < prod2(a, b).len() && prod2(a, b)[i * b.len() + j] == (a[i], b[j])
{ lemma_index(a.len() as int, b.len() as int, i, j); }
pub proof fn lemma_prod2_all<A, B>(a: Seq<A>, b: Seq<B>, x: int)
    requires 0 <= x < prod2(a, b).len()
    ensures /*OB lemma: every place holds the pair of its positions and no other place does BO*/ 0 <= x / (b.len() as int) < a.len() && 0 <= x % (b.len() as int) < b.len() && x == (x / (b.len() as int)) * b.len() + x % (b.len() as int)
{ lemma_split(a.len() as int, b.len() as int, x); }
pub proof fn lemma_prod3<A, B, C>(a: Seq<A>, b: Seq<B>, c: Seq<C>, i: int, j: int, k: int)
    requires 0 <= i < a.len(), 0 <= j < b.len(), 0 <= k < c.len()
    ensures /*OB lemma: every triple occurs at its place BO*/ 0 <= at3(b.len() as int, c.len() as int, i, j, k) < prod3(a, b, c).len() && prod3(a, b, c)[at3(b.len() as int, c.len() as int, i, j, k)] == (a[i], b[j], c[k])
{ let r = prod2(b, c); lemma_prod2(b, c, j, k); lemma_index(a.len() as int, r.len() as int, i, j * c.len() + k);
  assert(r.len() == b.len() * c.len()); assert(at3(b.len() as int, c.len() as int, i, j, k) == i * r.len() + (j * c.len() + k)); }
pub proof fn lemma_prod3_all<A, B, C>(a: Seq<A>, b: Seq<B>, c: Seq<C>, x: int)
    requires 0 <= x < prod3(a, b, c).len()
    ensures /*OB lemma: every place of a triple product is the place of its positions BO*/ exists|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < b.len() && 0 <= k < c.len() && x == #[trigger] at3(b.len() as int, c.len() as int, i, j, k)
{ let r = prod2(b, c); let m = r.len() as int; lemma_split(a.len() as int, m, x); lemma_prod2_all(b, c, x % m);
  let i = x / m; let y = x % m; let p = c.len() as int; assert(m == b.len() * c.len()); assert(x == at3(b.len() as int, p, i, y / p, y % p)); }
pub proof fn lemma_at3_order(n: int, m: int, p: int, i: int, j: int, k: int, i2: int, j2: int, k2: int)
    requires 0 <= i < n, 0 <= j < m, 0 <= k < p, 0 <= i2 < n, 0 <= j2 < m, 0 <= k2 < p
    ensures /*OB lemma: places follow the order of the positions BO*/ at3(m, p, i, j, k) < at3(m, p, i2, j2, k2) <==> (i < i2 || (i == i2 && (j < j2 || (j == j2 && k < k2))))
{
    lemma_index(m, p, j, k); lemma_index(m, p, j2, k2);
    let y = j * p + k; let y2 = j2 * p + k2; let q = m * p;
    if i < i2 { assert(i * q + y < i2 * q + y2) by (nonlinear_arith) requires i < i2, 0 <= y < q, 0 <= y2 < q; }
    if i > i2 { assert(i * q + y > i2 * q + y2) by (nonlinear_arith) requires i > i2, 0 <= y < q, 0 <= y2 < q; }
    if j < j2 { assert(y < y2) by (nonlinear_arith) requires j < j2, 0 <= k < p, 0 <= k2 < p, y == j * p + k, y2 == j2 * p + k2; }
    if j > j2 { assert(y > y2) by (nonlinear_arith) requires j > j2, 0 <= k < p, 0 <= k2 < p, y == j * p + k, y2 == j2 * p + k2; }
}
// ----- library
pub type Problem = int;
pub uninterp spec fn oplib_path(root: int, generation: int, graph_name: int) -> int;
pub uninterp spec fn londonaq_path(root: int, name: int) -> int;
pub uninterp spec fn profits_problem(path: int) -> int;
pub uninterp spec fn pctsp_problem(path: int) -> int;
pub uninterp spec fn quota_of(p: int, alpha: int) -> int;
pub uninterp spec fn root_of(p: int, normalize: bool) -> int;
pub uninterp spec fn weight_type_of(p: int) -> int;
pub open spec fn londonaq(root: int, name: int) -> int { pctsp_problem(londonaq_path(root, name)) }
pub open spec fn londonaq_problems(root: int, names: Seq<int>, m: Map<int, int>) -> bool { forall|i: int| 0 <= i < names.len() ==> m.dom().contains(#[trigger] names[i]) && m[names[i]] == londonaq(root, names[i]) }
'''
def rx(*names):
    return ' || '.join(f'a == {K(n)}' for n in names)
HEUR = ['extension', 'bfs_extension_collapse', 'bfs_path_extension_collapse', 'suurballes_extension_collapse', 'suurballes_heuristic', 'suurballes_path_extension_collapse']
TAIL = r'''
pub open spec fn is_exact_alg(a: int) -> bool { ''' + rx('solve_pctsp') + r''' }
pub open spec fn is_heur_alg(a: int) -> bool { ''' + rx(*HEUR) + r''' }
pub open spec fn is_relax_alg(a: int) -> bool { ''' + rx('disjoint_tours_relaxation') + r''' }
pub open spec fn model_ok(m: ModelParams, a: int, cp: bool, depth: int, step: int, tl: real) -> bool {
    &&& m.algorithm == a && m.is_exact == is_exact_alg(a) && m.is_heuristic == is_heur_alg(a) && m.is_relaxation == is_relax_alg(a)
    &&& m.heuristic is None
    &&& if is_exact_alg(a) { m.branching_max_depth == Some(-1int) && m.branching_strategy == Some(0int) && m.cost_cover_disjoint_paths == Some(false) && m.cost_cover_shortest_path == Some(false)
          && m.sec_disjoint_tour == Some(true) && m.sec_maxflow_mincut == Some(true) && m.sec_lp_gap_improvement_threshold == Some(1real / 1000real) && m.sec_max_tailing_off_iterations == Some(-1int) && m.sec_sepafreq == Some(1int) && m.time_limit == Some(tl) }
        else { m.branching_max_depth is None && m.branching_strategy is None && m.cost_cover_disjoint_paths is None && m.cost_cover_shortest_path is None
          && m.sec_disjoint_tour is None && m.sec_maxflow_mincut is None && m.sec_lp_gap_improvement_threshold is None && m.sec_max_tailing_off_iterations is None && m.sec_sepafreq is None && m.time_limit is None }
    &&& if a == ''' + K('bfs_extension_collapse') + r''' { m.collapse_paths == Some(cp) && m.path_depth_limit == Some(depth) && m.step_size == Some(step) } else { m.collapse_paths is None && m.path_depth_limit is None && m.step_size is None }
}
pub open spec fn prep_ok(p: Preprocessing, t: (bool, bool, bool)) -> bool { p.remove_disconnected_components == t.0 && p.remove_leaves == t.1 && p.remove_one_connected_components == t.2 && !p.disjoint_path_cutoff && !p.shortest_path_cutoff }
pub open spec fn data_ok(d: DataConfig, root: int, t: (int, Option<int>, int, int, int)) -> bool {
    let p = profits_problem(oplib_path(root, t.2, t.3));
    &&& d.dataset == ''' + K('tspwplib') + r''' && d.alpha == Some(t.0) && d.kappa == (if t.1 is Some && t.1->0 != 0 { t.1 } else { Option::<int>::None }) && d.generation == Some(t.2) && d.graph_name == t.3 && d.cost_function == t.4
    &&& d.quota == quota_of(p, t.0) && d.root == root_of(p, false) && d.triangle == Some(0int) }
pub open spec fn londonaq_ok(d: DataConfig, p: int, name: int, quota: int, alpha: Option<int>) -> bool {
    d.dataset == ''' + K('londonaq') + r''' && d.graph_name == name && d.quota == quota && d.alpha == alpha && d.root == root_of(p, true) && d.cost_function == weight_type_of(p) && d.generation is None && d.kappa is None && d.triangle is None }
pub open spec fn vial_of(v: Vial, t: (DataConfig, ModelParams, Preprocessing)) -> bool { v.data_config == t.0 && v.model_params == t.1 && v.preprocessing == t.2 }
'''
S1 = 'Str'
DC, MP, PP = 'DataConfig', 'ModelParams', 'Preprocessing'
def h_product(self, n, want):
    if n.keywords: raise Unsupported('product(repeat=)')
    es = [self.ex(a) for a in n.args]; ss = [self.iter_seq(e) for e in es]
    if not 2 <= len(ss) <= 5: raise Unsupported('product of %d lists' % len(ss))
    return E(f'prod{len(ss)}({", ".join(s for s, t in ss)})', 'Seq<(' + ', '.join(t for s, t in ss) + ')>')
def h_uuid(self, n, want):
    """uuid4: an identifier not handed out before (assumption)"""
    if not getattr(self, 'issued', None):
        self.issued = self.fresh('issued'); self.locals.append((self.issued, 'Set<int>'))
        if not hasattr(self, 'hoist_out'): self.hoist_out = []
        self.hoist_out.append(Let(self.issued, 'Set<int>', E('Set::empty()', 'Set<int>'))); self.mutated.add(self.issued)
    t = self.tmp('arbitrary::<int>()', 'Str', base='uuid')
    self.emit(Assume(f'!{self.issued}.contains({t})', 'uuid4() is fresh'))
    self.emit(Set_(self.issued, E(f'{self.issued}.insert({t})', 'Set<int>')))
    return E(t, 'Str')
from ..ir import Set as Set_
def kw(fn, names, ty):
    def h(self, n, want):
        a = self.args(n, names); v = [self.ex(a[k]).s for k in names]
        return E(f'{fn}({", ".join(v)})', ty)
    return h
def m_quota(self, o, n):
    a = [self.ex(x) for x in n.args]
    if len(a) != 1 or n.keywords: raise Unsupported('get_quota')
    return E(f'quota_of({o.s}, {self.coerce(a[0], "int").s})', 'int')
def m_root(self, o, n):
    a = self.args(n, ['normalize']); v = self.ex(a['normalize']).s if 'normalize' in a else ROOT_DEFAULT[o.ty]
    return E(f'root_of({o.s}, {v})', 'int')
ROOT_DEFAULT = {'OProblem': 'true', 'Problem': 'true'}
def dict_of(name):
    def h(self, o, n):
        if n.args or n.keywords: raise Unsupported('dict(...) with arguments')
        if any(d == name + '.dict' for d in self.mod.defs): raise Unsupported('own dict method')
        self.mod.dictused = getattr(self.mod, 'dictused', set()) | {name}
        return E(f'dict_{name}({o.s})', 'Map<Str, Any>')
    return h
def anyv(t, s):
    if t in ('int', 'Str'): return f'any_int({s})'
    if t == 'bool': return f'any_bool({s})'
    if t == 'real': return f'any_real({s})'
    if t.startswith('Opt<'): return f'(if {s} is Some {{ {anyv(t[4:-1], s + "->0")} }} else {{ any_none() }})'
    raise Unsupported('dict field of type ' + t)
C = {'__py__': {('call', 'itertools.product'): h_product, ('call', 'uuid4'): h_uuid, ('call', 'uuid.uuid4'): h_uuid,
    ('call', 'build_path_to_oplib_instance'): kw('oplib_path', ['oplib_root', 'generation', 'name'], 'Str'), ('call', 'build_path_to_londonaq_yaml'): kw('londonaq_path', ['londonaq_root', 'name'], 'Str'),
    ('call', 'ProfitsProblem().load'): kw('profits_problem', ['filepath'], 'OProblem'), ('call', 'PrizeCollectingTSP.from_yaml'): kw('pctsp_problem', ['filepath'], 'Problem'),
    ('attr', ('Problem', 'edge_weight_type')): lambda self, o: E(f'weight_type_of({o.s})', 'Str'),
    **{('method', (t, 'get_quota')): m_quota for t in ('Problem', 'OProblem')}, **{('method', (t, 'get_root_vertex')): m_root for t in ('Problem', 'OProblem')},
}}
PRELUDE = PRELUDE.replace('pub type Problem = int;', 'pub type Problem = int;\npub type OProblem = int;')
def loopinv(lst, prod, ok): return [f'$seq == {prod}', f'${lst}.len() == $it', f'forall|i: int| 0 <= i < $it ==> {ok}']
C['product_of_tspwplib_data_config'] = dict(types=[S1, 'Seq<int>', 'Seq<Opt<int>>', 'Seq<Str>', 'Seq<Str>', 'Seq<Str>'], params=['root', 'a', 'k', 'g', 'n', 'c'], returns=f'Seq<{DC}>', locals=[('data_config_list', f'Seq<{DC}>')],
    ensures=[('one configuration per combination, in order', '$ret.len() == prod5($a, $k, $g, $n, $c).len()'), ('each carries the settings of its combination', 'forall|i: int| 0 <= i < $ret.len() ==> data_ok(#[trigger] $ret[i], $root, prod5($a, $k, $g, $n, $c)[i])')],
    loops=[dict(kind='range', inv=loopinv('data_config_list', 'prod5($a, $k, $g, $n, $c)', 'data_ok(#[trigger] $data_config_list[i], $root, $seq[i])'))])
def lon(first, ok):
    return dict(types=[S1, 'Seq<int>', 'Seq<Str>'], params=['root', first, 'n'], returns=f'Seq<{DC}>', locals=[('problems', 'Map<Str, Problem>'), ('data_config_list', f'Seq<{DC}>')],
    ensures=[('one configuration per combination, in order', f'$ret.len() == prod2(${first}, $n).len()'), ('each carries the settings of its combination', f'forall|i: int| 0 <= i < $ret.len() ==> ' + ok('#[trigger] $ret[i]', f'prod2(${first}, $n)[i]'))],
    loops=[dict(kind='range', inv=['$seq == $n', 'forall|i: int| 0 <= i < $it ==> $problems.dom().contains(#[trigger] $n[i]) && $problems[$n[i]] == londonaq($root, $n[i])']),
           dict(kind='range', inv=loopinv('data_config_list', f'prod2(${first}, $n)', ok('#[trigger] $data_config_list[i]', '$seq[i]')))],
    hints={'loop2.body': f'proof {{ lemma_prod2_all(${first}, $n, $it); let nn = $n[$it % ($n.len() as int)]; assert($problems.dom().contains(nn)); }}'})
C['product_of_londonaq_data_config'] = lon('q', lambda d, t: f'londonaq_ok({d}, londonaq($root, {t}.1), {t}.1, {t}.0, Option::<int>::None)')
C['product_of_londonaq_data_config_from_alpha'] = lon('a', lambda d, t: f'londonaq_ok({d}, londonaq($root, {t}.1), {t}.1, quota_of(londonaq($root, {t}.1), {t}.0), Some({t}.0))')
C['product_of_model_params'] = dict(types=['Seq<Str>', 'bool', 'int', 'int', 'real'], params=['l', 'cp', 'depth', 'step', 'tl'], returns=f'Seq<{MP}>', locals=[('model_params_list', f'Seq<{MP}>')],
    ensures=[('one per algorithm, in order', '$ret.len() == $l.len()'), ('class flags and fields of each algorithm', 'forall|i: int| 0 <= i < $ret.len() ==> model_ok(#[trigger] $ret[i], $l[i], $cp, $depth, $step, $tl)')],
    loops=[dict(kind='range', inv=['$seq == $l', '$model_params_list.len() == $it', 'forall|i: int| 0 <= i < $it ==> model_ok(#[trigger] $model_params_list[i], $l[i], $cp, $depth, $step, $tl)'])],
    hints={'loop1.body': 'proof { lemma_members($l[$it]); }'})
C['product_of_preprocessing'] = dict(types=['Seq<bool>'] * 3, params=['d', 'l', 'o'], returns=f'Seq<{PP}>', locals=[('preprocessing_list', f'Seq<{PP}>')],
    ensures=[('one per combination, in order', '$ret.len() == prod3($d, $l, $o).len()'), ('each carries the settings of its combination', 'forall|i: int| 0 <= i < $ret.len() ==> prep_ok(#[trigger] $ret[i], prod3($d, $l, $o)[i])')],
    loops=[dict(kind='range', inv=loopinv('preprocessing_list', 'prod3($d, $l, $o)', 'prep_ok(#[trigger] $preprocessing_list[i], $seq[i])'))])
C['product_of_vials'] = dict(types=[f'Seq<{DC}>', f'Seq<{MP}>', f'Seq<{PP}>'], params=['d', 'm', 'p'], returns='Seq<Vial>', locals=[('vial_list', 'Seq<Vial>')],
    ensures=[('one unit per combination, in order', '$ret.len() == prod3($d, $m, $p).len()'), ('each carries the settings of its combination', 'forall|i: int| 0 <= i < $ret.len() ==> vial_of(#[trigger] $ret[i], prod3($d, $m, $p)[i])'),
             ('every unit has its own identifier', 'forall|i: int, j: int| 0 <= i < j < $ret.len() ==> (#[trigger] $ret[i]).uuid != (#[trigger] $ret[j]).uuid')],
    loops=[dict(kind='range', inv=loopinv('vial_list', 'prod3($d, $m, $p)', 'vial_of(#[trigger] $vial_list[i], $seq[i])') + ['forall|i: int| 0 <= i < $it ==> $issued.contains((#[trigger] $vial_list[i]).uuid)', 'forall|i: int, j: int| 0 <= i < j < $it ==> (#[trigger] $vial_list[i]).uuid != (#[trigger] $vial_list[j]).uuid'])])
# --- flattening
for r in (DC, MP, PP): C['__py__'][('method', (r, 'dict'))] = dict_of(r); C['__py__'][('method', (r, 'model_dump'))] = dict_of(r)
def h_dict(self, n, want):
    """a dict literal with values of mixed type"""
    ks = [self.ex(k) for k in n.keys]; vs = [self.ex(v) for v in n.values]
    if all(v.ty == 'Map<Str, Any>' for v in vs): t = 'Map<Str, Any>'; tx = [v.s for v in vs]
    else:
        t = 'Any'; tx = [anyv(v.ty, v.s) if v.ty != 'Any' else v.s for v in vs]
    s = f'Map::<int, {vty(t)}>::empty()'
    for k, v in zip(ks, tx): s = f'{s}.insert({k.s}, {v})'
    return E(s, f'Map<Str, {t}>')
C['__py__'][('dict', None)] = h_dict
def dictfns(mod):
    out = ['pub type Any = int;', 'pub uninterp spec fn any_int(x: int) -> int;', 'pub uninterp spec fn any_bool(x: bool) -> int;', 'pub uninterp spec fn any_real(x: real) -> int;', 'pub uninterp spec fn any_none() -> int;']
    for r in (DC, MP, PP):
        fs = mod.records.get(r)
        if fs is None: raise Unsupported(f'record {r} not found')
        s = 'Map::<int, int>::empty()' + ''.join(f'.insert({K(f)}, {anyv(t, "o." + f)})' for f, t in fs)
        ks = ' || '.join(f'k == {K(f)}' for f, t in fs) or 'false'
        out.append(f'pub closed spec fn dict_{r}(o: {r}) -> Map<int, int> {{ {s} }}\npub open spec fn field_{r}(k: int) -> bool {{ {ks} }}')
        out.append(f'pub proof fn lemma_dict_{r}(o: {r}) ensures forall|k: int| #[trigger] dict_{r}(o).dom().contains(k) <==> field_{r}(k), {", ".join(f"dict_{r}(o)[{K(f)}] == {anyv(t, chr(111) + chr(46) + f)}" for f, t in fs)} {{ }}')
    dis = ' && '.join(f'!(field_{a}(k) && field_{b}(k))' for a, b in ((DC, MP), (DC, PP), (MP, PP)))
    out.append(f'pub proof fn lemma_disjoint() ensures /*OB lemma: no two parts share a field name, none is called uuid BO*/ forall|k: int| {dis}, !field_{DC}({K("uuid")}) && !field_{MP}({K("uuid")}) && !field_{PP}({K("uuid")}) {{ }}')
    return '\n'.join(out)
KD, KM, KP, KU = K('data_config'), K('model_params'), K('preprocessing'), K('uuid')
FLAT = f'''
pub open spec fn has_all(r: Map<int, int>, m: Map<int, int>) -> bool {{ forall|k: int| #[trigger] m.dom().contains(k) ==> r.dom().contains(k) && r[k] == m[k] }}
pub open spec fn key_of_part(j: int) -> int {{ if j == 0 {{ {KD} }} else if j == 1 {{ {KM} }} else {{ {KP} }} }}
// values(): each of the three parts at exactly one place
pub proof fn lemma_parts(n: Map<int, Map<int, int>>, a: Map<int, int>, b: Map<int, int>, c: Map<int, int>)
    requires n == Map::<int, Map<int, int>>::empty().insert({KD}, a).insert({KM}, b).insert({KP}, c)
    ensures map_values(n).len() == 3, forall|i: int| 0 <= i < 3 ==> #[trigger] map_values(n)[i] == a || map_values(n)[i] == b || map_values(n)[i] == c,
        exists|i: int| 0 <= i < 3 && #[trigger] map_values(n)[i] == a, exists|i: int| 0 <= i < 3 && #[trigger] map_values(n)[i] == b, exists|i: int| 0 <= i < 3 && #[trigger] map_values(n)[i] == c
{{
    axiom_map_entries(n);
    assert(n.dom() =~= Set::<int>::empty().insert({KD}).insert({KM}).insert({KP}));
    assert(n.dom().contains({KD}) && n.dom().contains({KM}) && n.dom().contains({KP}));
    let i = choose|i: int| 0 <= i < map_entries(n).len() && #[trigger] map_entries(n)[i] == ({KD}, n[{KD}]); assert(map_values(n)[i] == a);
    let j = choose|i: int| 0 <= i < map_entries(n).len() && #[trigger] map_entries(n)[i] == ({KM}, n[{KM}]); assert(map_values(n)[j] == b);
    let k = choose|i: int| 0 <= i < map_entries(n).len() && #[trigger] map_entries(n)[i] == ({KP}, n[{KP}]); assert(map_values(n)[k] == c);
    assert forall|i: int| 0 <= i < 3 implies #[trigger] map_values(n)[i] == a || map_values(n)[i] == b || map_values(n)[i] == c by {{ let e = map_entries(n)[i]; assert(n.dom().contains(e.0)); }}
}}
pub open spec fn compat(a: Map<int, int>, b: Map<int, int>) -> bool {{ forall|k: int| #[trigger] a.dom().contains(k) && b.dom().contains(k) ==> a[k] == b[k] }}
'''
C['flat_dict_from_vial'] = dict(types=['Vial'], params=['v'], returns='Map<Str, Any>', locals=[('vial_dict', 'Map<Str, Any>'), ('not_flat_dict', 'Map<Str, Map<Str, Any>>'), ('value_dict', 'Map<Str, Any>')],
    ensures=[('the identifier is kept', f'$ret.dom().contains({KU}) && $ret[{KU}] == any_int($v.uuid)'), ('every data setting is kept', f'has_all($ret, dict_{DC}($v.data_config))'), ('every model setting is kept', f'has_all($ret, dict_{MP}($v.model_params))'), ('every preprocessing setting is kept', f'has_all($ret, dict_{PP}($v.preprocessing))'),
             ('nothing else', f'forall|k: int| #[trigger] $ret.dom().contains(k) ==> k == {KU} || field_{DC}(k) || field_{MP}(k) || field_{PP}(k)')],
    loops=[dict(kind='range', inv=['$seq == map_values($not_flat_dict)', f'$vial_dict.dom().contains({KU}) && $vial_dict[{KU}] == any_int($v.uuid)', 'forall|i: int| 0 <= i < $it ==> has_all($vial_dict, #[trigger] $seq[i])',
              f'forall|k: int| #[trigger] $vial_dict.dom().contains(k) ==> k == {KU} || field_{DC}(k) || field_{MP}(k) || field_{PP}(k)']),
           dict(kind='range', inv=['$seq == map_entries($value_dict)', '$value_dict == $seq1[$it1]', f'$vial_dict.dom().contains({KU}) && $vial_dict[{KU}] == any_int($v.uuid)', 'forall|i: int| 0 <= i < $it1 ==> has_all($vial_dict, #[trigger] $seq1[i])',
              'forall|i: int| 0 <= i < $it ==> $vial_dict.dom().contains((#[trigger] $seq[i]).0) && $vial_dict[$seq[i].0] == $seq[i].1',
              f'forall|k: int| #[trigger] $vial_dict.dom().contains(k) ==> k == {KU} || field_{DC}(k) || field_{MP}(k) || field_{PP}(k)'])],
    hints={'loop1.before': f'''proof {{ lemma_dict_{DC}($v.data_config); lemma_dict_{MP}($v.model_params); lemma_dict_{PP}($v.preprocessing); lemma_disjoint();
              lemma_parts($not_flat_dict, dict_{DC}($v.data_config), dict_{MP}($v.model_params), dict_{PP}($v.preprocessing));
              assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies compat(#[trigger] map_values($not_flat_dict)[i], #[trigger] map_values($not_flat_dict)[j]) by {{ }}
              assert forall|i: int| 0 <= i < 3 implies !(#[trigger] map_values($not_flat_dict)[i]).dom().contains({KU}) by {{ }} }}''',
           'loop2.before': 'proof { axiom_map_entries($value_dict); }',
           'loop2.body': 'proof { let e = $seq[$it]; assert($value_dict.dom().contains(map_entries($value_dict)[$it].0)); assert forall|i: int| 0 <= i < $it1 implies compat(#[trigger] $seq1[i], $value_dict) by { assert(compat($seq1[i], $seq1[$it1])); } assert(!$seq1[$it1].dom().contains(' + KU + ')); }',
           'loop2.after': '''proof { assert(has_all($vial_dict, $value_dict)) by { assert forall|k: int| #[trigger] $value_dict.dom().contains(k) implies $vial_dict.dom().contains(k) && $vial_dict[k] == $value_dict[k] by { let i = choose|i: int| 0 <= i < map_entries($value_dict).len() && #[trigger] map_entries($value_dict)[i] == (k, $value_dict[k]); assert($seq[i].0 == k); } } }''',
           'loop1.after': f'''proof {{ lemma_parts($not_flat_dict, dict_{DC}($v.data_config), dict_{MP}($v.model_params), dict_{PP}($v.preprocessing)); }}'''})
MEMB = 'pub proof fn lemma_members(a: int) ensures true { }'
FILES = ['pctsp/constants/constants.py', 'pctsp/vial/data_config.py', 'pctsp/vial/model_params.py', 'pctsp/vial/preprocessing.py', 'pctsp/vial/vial.py', 'pctsp/compare/product_of_params.py']
UNITS = [Unit('products', kind='py', files=FILES, contracts=C, prelude=PRELUDE + TAIL + MEMB, roots=['product_of_tspwplib_data_config', 'product_of_londonaq_data_config', 'product_of_londonaq_data_config_from_alpha', 'product_of_model_params', 'product_of_preprocessing', 'product_of_vials']),
         Unit('flatten', kind='py', files=FILES, contracts=C, prelude=lambda mod: dictfns(mod) + FLAT, roots=['flat_dict_from_vial'])]
RUNTIME = [dict(kind='py', driver='c25.py', procs=2, rule='random lists of settings (length 0 to 3 per factor, with repetitions), every product function and flattening; non-trivial: at least two combinations')]
ASSUMPTIONS = ['itertools.product yields the tuples of its factors, rightmost fastest', 'uuid4() never repeats', 'pydantic: constructing a model stores the given values (of the declared types) and the class defaults; dict() maps every field name to its value', 'tspwplib loaders, get_quota and get_root_vertex (library, uninterpreted)']
