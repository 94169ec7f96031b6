"""Python wrappers -> native routines -> library functions, argument by argument."""
import ast
from ..run import Unit
from ..ir import E, Unsupported
from ..pyfe import h_nothing
ED, CM, PM, T = 'Seq<(int, int)>', 'Map<(int, int), int>', 'Map<int, int>', 'Seq<int>'
# native routine -> types of its parameters, in the order pctsp/pypctsp.cpp declares them (unit native_bindings proves that order)
NATIVE = {
 'collapse_bind': [('edges', ED), ('tour', T), ('cost', CM), ('prize', PM), ('quota', 'int'), ('root', 'int'), ('shortest', 'bool'), ('log', 'int')],
 'extension_unitary_gain_bind': [('edges', ED), ('tour', T), ('cost', CM), ('prize', PM), ('log', 'int')],
 'extension_until_prize_feasible_bind': [('edges', ED), ('tour', T), ('cost', CM), ('prize', PM), ('quota', 'int')],
 'path_extension_bind': [('edges', ED), ('tour', T), ('cost', CM), ('prize', PM), ('root', 'int'), ('step', 'int'), ('depth', 'int'), ('log', 'int')],
 'path_extension_collapse_bind': [('edges', ED), ('tour', T), ('cost', CM), ('prize', PM), ('root', 'int'), ('quota', 'int'), ('shortest', 'bool'), ('depth', 'int'), ('step', 'int'), ('log', 'int')],
 'path_extension_until_prize_feasible_bind': [('edges', ED), ('tour', T), ('cost', CM), ('prize', PM), ('root', 'int'), ('quota', 'int'), ('step', 'int'), ('depth', 'int'), ('log', 'int')],
 'solve_pctsp_bind': [('model', 'int'), ('edges', ED), ('heuristic_edges', ED), ('cost', CM), ('prize', PM), ('quota', 'int'), ('root', 'int'), ('branching_max_depth', 'int'), ('branching_strategy', 'int'),
    ('cost_cover_disjoint_paths', 'bool'), ('cost_cover_shortest_path', 'bool'), ('cycle_cover', 'bool'), ('disjoint_paths_map', PM), ('log', 'int'), ('name', 'Str'), ('sec_disjoint_tour', 'bool'),
    ('sec_lp_gap_improvement_threshold', 'real'), ('sec_maxflow_mincut', 'bool'), ('sec_max_tailing_off_iterations', 'int'), ('sec_sepafreq', 'int'), ('simple_rules_only', 'bool'), ('solver_dir', 'int'), ('time_limit', 'real')],
}
def vt(t): return 'int' if t == 'Str' else t
PRELUDE = '\n'.join(f'pub uninterp spec fn native_{n}({", ".join(f"{p}: {vt(t)}" for p, t in ps)}) -> {ED if n == "solve_pctsp_bind" else T};' for n, ps in NATIVE.items()) + '''
// tspwplib.is_pctsp_yes_instance (library)
pub uninterp spec fn yes_instance(g: NxGraph, quota: int, root: int, es: Seq<(int, int)>) -> bool;
'''
def nat(name):
    def h(self, n, want):
        a = self.args(n)
        ps = NATIVE[name]
        if len(a) != len(ps): raise Unsupported(f'{name} is called with {len(a)} arguments, the binding takes {len(ps)}')
        out = []
        for e, (p, t) in zip(a, ps):
            e = self.coerce(e, t)
            if vt(e.ty) != vt(t): raise Unsupported(f'{name}: {p} is {e.ty}')
            out.append(e.s)
        rt = ED if name == 'solve_pctsp_bind' else T
        return E(f'native_{name}({", ".join(out)})', rt)
    return h
def attrs(which, field, ty):
    def h(self, n, want):
        if len(n.args) != 2 or ast.unparse(n.args[1]) != which: raise Unsupported('attribute ' + ast.unparse(n))
        g = self.ex(n.args[0]); return E(f'{g.s}.{field}', ty)
    return h
def yes(self, n, want):
    a = self.args(n, ['graph', 'quota', 'root_vertex', 'edge_list']); v = [self.ex(a[k]).s for k in ('graph', 'quota', 'root_vertex', 'edge_list')]
    return E(f'yes_instance({", ".join(v)})', 'bool')
G = 'NxGraph'
def std(g='$g'): return f'{g}.edges, $t, {g}.cost, {g}.prize'
SAME = ('inputs unchanged', '$out(g) == $g && $out(t) == $t')
def w(types, params, call):
    return dict(types=types, params=params, returns=T, ensures=[('the native routine gets every argument in its position', f'$ret == {call}'), SAME])
def defaults(**kw): return kw
C = {'__py__': {('call', n): nat(n) for n in NATIVE}}
C['__py__'].update({('call', 'nx.get_edge_attributes'): attrs('EdgeFunctionName.cost.value', 'cost', CM), ('call', 'nx.get_node_attributes'): attrs('VertexFunctionName.prize.value', 'prize', PM),
    ('method', (G, 'edges')): lambda self, o, n: E(f'{o.s}.edges', ED) if not n.args and not n.keywords else (_ for _ in ()).throw(Unsupported('edges(...)')),
    ('attr', (G, 'edges')): lambda self, o: E(f'{o.s}.edges', ED),
    ('call', 'solver_dir.mkdir'): h_nothing, ('call', 'is_pctsp_yes_instance'): yes,
    ('global', 'logging.INFO'): lambda self: E('20int', 'int'), ('call', 'Path'): lambda self, n, want: E('arbitrary::<int>()', 'int')})
C['collapse'] = w([G, T, 'int', 'int', 'int'], ['g', 't', 'q', 'r', 'log'], f'native_collapse_bind({std()}, $q, $r, false, $log)')
C['path_collapse'] = w([G, T, 'int', 'int', 'int'], ['g', 't', 'q', 'r', 'log'], f'native_collapse_bind({std()}, $q, $r, true, $log)')
C['extension_unitary_gain'] = w([G, T, 'int'], ['g', 't', 'log'], f'native_extension_unitary_gain_bind({std()}, $log)')
C['extension_unitary_gain_collapse'] = w([G, T, 'int', 'int', 'int'], ['g', 't', 'q', 'r', 'log'], f'native_collapse_bind($g.edges, native_extension_unitary_gain_bind({std()}, $log), $g.cost, $g.prize, $q, $r, false, $log)')
C['extension_unitary_loss'] = w([G, T, 'int', 'int'], ['g', 't', 'r', 'log'], f'native_path_extension_bind({std()}, $r, 1, 2, $log)')
C['extension_until_prize_feasible'] = w([G, T, 'int'], ['g', 't', 'q'], f'native_extension_until_prize_feasible_bind({std()}, $q)')
C['path_extension'] = w([G, T, 'int', 'int', 'int', 'int'], ['g', 't', 'r', 'depth', 'step', 'log'], f'native_path_extension_bind({std()}, $r, $step, $depth, $log)')
C['path_extension_collapse'] = w([G, T, 'int', 'int', 'bool', 'int', 'int', 'int'], ['g', 't', 'r', 'q', 'sp', 'depth', 'step', 'log'], f'native_path_extension_collapse_bind({std()}, $r, $q, $sp, $depth, $step, $log)')
C['path_extension_until_prize_feasible'] = w([G, T, 'int', 'int', 'int', 'int', 'int'], ['g', 't', 'r', 'q', 'step', 'depth', 'log'], f'native_path_extension_until_prize_feasible_bind({std()}, $r, $q, $step, $depth, $log)')
SOLVE = ['model', 'g', 'h', 'q', 'r', 'bmd', 'bs', 'ccd', 'ccs', 'cyc', 'dpc', 'log', 'name', 'dir', 'sdt', 'gap', 'mf', 'tail', 'freq', 'simple', 'tl']
C['solve_pctsp'] = dict(types=['int', G, ED, 'int', 'int', 'int', 'int', 'bool', 'bool', 'bool', PM, 'int', 'Str', 'int', 'bool', 'real', 'bool', 'int', 'int', 'bool', 'real'], params=SOLVE, returns=ED,
    locals=[('initial_yes_instance', ED)],
    ensures=[('the native routine gets every argument in its position',
      '''$ret == native_solve_pctsp_bind($model, $g.edges, if $h.len() > 0 && yes_instance($g, $q, $r, $h) { $h } else { Seq::empty() }, $g.cost, $g.prize, $q, $r, $bmd, $bs,
           $ccd && $dpc.dom().len() > 0, $ccs, $cyc, $dpc, $log, $name, $sdt, $gap, $mf, $tail, $freq, $simple, $dir, $tl)''')],
    hints={'entry': 'let ghost d0 = $dpc; let ghost h0 = $h;', 'return': 'proof { if d0.dom().len() == 0 { assert(d0.dom() =~= Set::<int>::empty()); assert(d0 =~= Map::<int, int>::empty()); } assert($initial_yes_instance == if h0.len() > 0 && yes_instance($g, $q, $r, h0) { h0 } else { Seq::empty() }); }'})
STRUCT = {G: [('nodes', 'Seq<int>'), ('edges', ED), ('cost', CM), ('prize', PM)]}
# ---------------------------------------------------------------- the C++ side of the binding
LIB = {  # library routine -> parameters after (graph, tour, cost_map, prize_map); does it return the tour or modify it?
 'collapse': (['quota', 'root', 'shortest'], True), 'pathExtension': (['root', 'step', 'depth'], False), 'pathExtensionUntilPrizeFeasible': (['root', 'quota', 'step', 'depth'], False),
 'extensionUntilPrizeFeasible': (['quota'], False), 'pathExtensionCollapse': (['quota', 'root', 'shortest', 'depth', 'step'], True), 'extensionUnitaryGain': ([], False)}
def lt(p): return 'bool' if p == 'shortest' else 'int'
SP = [('root', 'int'), ('quota', 'int'), ('branching_max_depth', 'int'), ('branching_strategy', 'int'), ('cost_cover_disjoint_paths', 'bool'), ('cost_cover_shortest_path', 'bool'), ('cycle_cover', 'bool'), ('disjoint_paths_costs', T), ('name', 'Str'), ('sec_disjoint_tour', 'bool'),
    ('sec_lp_gap_improvement_threshold', 'real'), ('sec_maxflow_mincut', 'bool'), ('sec_max_tailing_off_iterations', 'int'), ('sec_sepafreq', 'int'), ('simple_rules_only', 'bool'), ('solver_dir', 'int'), ('time_limit', 'real')]
CXX_PRELUDE = """
// renaming.hh and graph.hh routines: their own contracts are property C01; here only who is called with what matters
pub uninterp spec fn ren_map(es: Seq<(int, int)>) -> Bimap;
pub uninterp spec fn ren_edges(es: Seq<(int, int)>) -> Seq<(int, int)>;
pub uninterp spec fn graph_of(es: Seq<(int, int)>) -> Graph;
pub uninterp spec fn new_v(b: Bimap, v: int) -> int;
pub uninterp spec fn new_vs(b: Bimap, vs: Seq<int>) -> Seq<int>;
pub uninterp spec fn old_vs(b: Bimap, vs: Seq<int>) -> Seq<int>;
pub uninterp spec fn fill_cost(g: Graph, c: Map<(int, int), int>, b: Bimap) -> Map<int, int>;
pub uninterp spec fn fill_prize(p: Map<int, int>, b: Bimap) -> Map<int, int>;
""" + '\n'.join(f'pub uninterp spec fn lib_{n}(g: Graph, t: Seq<int>, c: Map<int, int>, p: Map<int, int>{"".join(f", {x}: {lt(x)}" for x in ps)}) -> Seq<int>;' for n, (ps, r) in LIB.items())
def g1(name, n): return lambda self, a, nn: E(f'{name}({", ".join(self.expr(x).s for x in a[:n])})', {'ren_edges': ED, 'new_v': 'int', 'new_vs': T, 'old_vs': T}[name])
def h_rename(self, a, n):
    m, es = self.expr(a[0]), self.expr(a[1])
    self.write(m.lv, f'ren_map({es.s})'); return E(f'ren_edges({es.s})', ED)
def h_add(self, a, n):
    if len(a) != 2: raise Unsupported('addEdgesToGraph')
    g, es = self.expr(a[0]), self.expr(a[1]); self.write(g.lv, f'graph_of({es.s})'); return E('0int', 'unit')
def h_map(fn): return lambda self, a, n: E(f'{fn}({self.expr(a[0]).s}, {self.expr(a[1]).s})', T if fn != 'new_v' else 'int')
def h_fillc(self, a, n):
    g, c, d, b = (self.expr(x) for x in a); self.write(c.lv, f'fill_cost({g.s}, {d.s}, {b.s})'); return E('0int', 'unit')
def h_fillp(self, a, n):
    p, d, b = (self.expr(x) for x in a)
    if p.ty != 'PMap': raise Unsupported('fillRenamedVertexMap')
    self.write(p.lv, f'fill_prize({d.s}, {b.s})'); return E('0int', 'unit')
def h_lib(name):
    ps, ret = LIB[name]
    def h(self, a, n):
        if len(a) != 4 + len(ps): raise Unsupported(f'{name} with {len(a)} arguments')
        v = [self.expr(x) for x in a]
        for e, t in zip(v[4:], ps): pass
        s = [e.s for e in v[:4]] + [self.coerce(e, lt(t)).s for e, t in zip(v[4:], ps)]
        r = f'lib_{name}({", ".join(s)})'
        if ret: return E(r, T)
        self.write(v[1].lv, r); return E('0int', 'unit')
    return h
def h_drop(self, a, n): return E('0int', 'unit')
def lvl(self, a, n): return E('arbitrary::<int>()', 'int')
CXX = {'__calls__': {'renameEdges': h_rename, 'addEdgesToGraph': h_add, 'getNewVertex': h_map('new_v'), 'getNewVertices': h_map('new_vs'), 'getOldVertices': h_map('old_vs'),
    'fillCostMapFromRenamedMap': h_fillc, 'fillRenamedVertexMap': h_fillp, 'PCTSPinitLogging': h_drop, 'getBoostLevelFromPyLevel': lvl, **{n: h_lib(n) for n in LIB}}}
BIND = {'collapseBind': ('collapse_bind', 'collapse'), 'extensionUnitaryGainBind': ('extension_unitary_gain_bind', 'extensionUnitaryGain'), 'extensionUntilPrizeFeasibleBind': ('extension_until_prize_feasible_bind', 'extensionUntilPrizeFeasible'),
    'pathExtensionBind': ('path_extension_bind', 'pathExtension'), 'pathExtensionCollapseBind': ('path_extension_collapse_bind', 'pathExtensionCollapse'), 'pathExtensionUntilPrizeFeasibleBind': ('path_extension_until_prize_feasible_bind', 'pathExtensionUntilPrizeFeasible')}
for f, (nn, lib) in BIND.items():
    g = 'graph_of(ren_edges($edges))'; b = 'ren_map($edges)'
    xs = ''.join(', ' + (f'new_v({b}, $root)' if x == 'root' else '$' + x) for x in LIB[lib][0])
    CXX[f] = [dict(params=[p for p, t in NATIVE[nn]], ensures=[('the library routine gets every argument in its position',
        f'$ret == old_vs({b}, lib_{lib}({g}, new_vs({b}, $tour), fill_cost({g}, $cost, {b}), fill_prize($prize, {b}){xs}))'), ])]
UNITS = [Unit('python_wrappers', kind='py', files=['pctsp/constants/constants.py', 'pctsp/algorithms/extension_collapse.py', 'pctsp/algorithms/path_extension_collapse.py', 'pctsp/algorithms/algorithms.py'], contracts=C, prelude=PRELUDE, structs=STRUCT,
              roots=['collapse', 'path_collapse', 'extension_unitary_gain', 'extension_unitary_gain_collapse', 'extension_unitary_loss', 'extension_until_prize_feasible', 'path_extension', 'path_extension_collapse', 'path_extension_until_prize_feasible', 'solve_pctsp']),
         Unit('native_bindings', tu='#include "/repo/pctsp/pypctsp.cpp"\n', contracts=CXX, prelude=CXX_PRELUDE, roots=[(f,) for f in BIND], prefetch=list(BIND))]
RUNTIME = [dict(kind='py', driver='c26.py', procs=2, rule='random graphs, every wrapper with pairwise different argument values; every call is non-trivial'),
           dict(kind='cxx', driver='c26.cpp', procs=3, srcs=['graph.cpp', 'heuristic.cpp'], rule='the functions pypctsp.cpp binds (against a recording stand-in for pybind11), compared with direct calls of the library routines on random instances with a tour; solver entry point against a recording stand-in')]
ASSUMPTIONS = ['pybind11 passes arguments by position and converts containers faithfully', 'nx.get_edge_attributes / get_node_attributes return the attribute of every edge / node, graph.edges() the edges', 'tspwplib.is_pctsp_yes_instance decides feasibility (library, uninterpreted)']
BOUNDED = ['pySolvePrizeCollectingTSP (argument forwarding checked at run time only)']
