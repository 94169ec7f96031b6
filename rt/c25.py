import importlib, itertools, sys
from pathlib import Path
import rtpy as rt
rt.stub_native()
pp = importlib.import_module('pctsp.compare.product_of_params')
vial = importlib.import_module('pctsp.vial')
vm = importlib.import_module('pctsp.vial.vial')
tw = importlib.import_module('tspwplib'); tt = importlib.import_module('tspwplib.types')
A = vial.AlgorithmName
R = rt.rng
def some(xs, lo=0, hi=3): return [R.choice(list(xs)) for _ in range(R.randint(lo, hi))]
EXACT = [A.solve_pctsp]; RELAX = [A.disjoint_tours_relaxation]
HEUR = [A.extension, A.bfs_extension_collapse, A.bfs_path_extension_collapse, A.suurballes_extension_collapse, A.suurballes_heuristic, A.suurballes_path_extension_collapse]
PATHF = ('collapse_paths', 'path_depth_limit', 'step_size')
class P:
    """a problem whose answers depend on everything it was asked"""
    def __init__(self, path): self.path = path
    @property
    def edge_weight_type(self): return list(tt.EdgeWeightType)[hash(self.path) % len(tt.EdgeWeightType)]
    def get_quota(self, alpha): return (hash(self.path) % 1000) * 1000 + alpha
    def get_root_vertex(self, normalize=True): return (hash(self.path) % 77) * 2 + (0 if normalize else 1)
    def load(self, path): return P(path)
class PC:
    @staticmethod
    def from_yaml(p): return P(p)
pp.ProfitsProblem = lambda *a, **k: P(None)
pp.PrizeCollectingTSP = PC
def build_paths(): return pp.build_path_to_oplib_instance, pp.build_path_to_londonaq_yaml
def same_len(got, want, what): rt.check(len(got) == len(want), f'{what}: {len(got)} entries for {len(want)} combinations')
def models():
    l = some(A, 0, 8); cp = R.random() < .5; d, s, tl = R.randint(0, 9), R.randint(0, 9), float(R.randint(1, 9999))
    rt.case(f'product_of_model_params({[a.value for a in l]}, {cp}, {d}, {s}, {tl})', len(l) > 1)
    got = rt.ok(rt.call(pp.product_of_model_params, list(l), cp, d, s, tl), 'product_of_model_params')
    same_len(got, l, 'model parameters')
    for a, m in zip(l, got):
        rt.check(m.algorithm == a, 'algorithm of the combination')
        rt.check(bool(m.is_exact) == (a in EXACT) and bool(m.is_heuristic) == (a in HEUR) and bool(m.is_relaxation) == (a in RELAX), 'class flags of ' + a.value)
        want = dict.fromkeys(type(m).model_fields)
        want.update(algorithm=a, is_exact=a in EXACT, is_heuristic=a in HEUR, is_relaxation=a in RELAX)
        if a in EXACT: want.update(branching_max_depth=-1, branching_strategy=0, cost_cover_disjoint_paths=False, cost_cover_shortest_path=False, sec_disjoint_tour=True, sec_maxflow_mincut=True, sec_lp_gap_improvement_threshold=0.001, sec_max_tailing_off_iterations=-1, sec_sepafreq=1, time_limit=tl)
        if a == A.bfs_extension_collapse: want.update(collapse_paths=cp, path_depth_limit=d, step_size=s)
        for f, w in want.items(): rt.check(getattr(m, f) == w and (getattr(m, f) is None) == (w is None), f'{f} of {a.value} is {getattr(m, f)!r}, not {w!r}')
    return got
def preps():
    ls = [some([True, False]) for _ in range(3)]
    rt.case(f'product_of_preprocessing({ls})', len(ls[0]) * len(ls[1]) * len(ls[2]) > 1)
    got = rt.ok(rt.call(pp.product_of_preprocessing, *[list(x) for x in ls]), 'product_of_preprocessing')
    want = list(itertools.product(*ls)); same_len(got, want, 'preprocessing')
    for t, p in zip(want, got):
        rt.check((p.remove_disconnected_components, p.remove_leaves, p.remove_one_connected_components) == t, 'settings of the combination')
        rt.check(p.disjoint_path_cutoff is False and p.shortest_path_cutoff is False, 'cutoffs are off')
    return got
def data():
    root = Path('/data/' + str(R.randint(0, 9)))
    al, ka, ge, gn, cf = [R.randint(1, 99) for _ in range(R.randint(0, 2))], some([None, 0, 1, 4], 0, 2), some(tw.Generation, 0, 2), some(tw.GraphName, 0, 2), some(tt.EdgeWeightType, 0, 2)
    rt.case(f'product_of_tspwplib_data_config({root}, {al}, {ka}, {[x.value for x in ge]}, {[x.value for x in gn]}, {[x.value for x in cf]})', len(al) * len(ka) * len(ge) * len(gn) * len(cf) > 1)
    got = rt.ok(rt.call(pp.product_of_tspwplib_data_config, root, list(al), list(ka), list(ge), list(gn), list(cf)), 'product_of_tspwplib_data_config')
    want = list(itertools.product(al, ka, ge, gn, cf)); same_len(got, want, 'data configurations')
    for (a, k, g, n, c), d in zip(want, got):
        p = P(tw.build_path_to_oplib_instance(root, g, n))
        w = dict(alpha=a, cost_function=c, dataset='tspwplib', kappa=k if k else None, generation=g, graph_name=n, quota=p.get_quota(a), root=p.get_root_vertex(normalize=False), triangle=0)
        for f, x in w.items(): rt.check(getattr(d, f) == x, f'{f} is {getattr(d, f)!r}, not {x!r}')
    out = got
    from tspwplib.utils import build_path_to_londonaq_yaml
    for fn, isq in ((pp.product_of_londonaq_data_config, True), (pp.product_of_londonaq_data_config_from_alpha, False)):
        xs = [R.randint(1, 99) for _ in range(R.randint(0, 3))]; ns = some(tt.LondonaqGraphName, 0, 3)
        rt.case(f'{fn.__name__}({root}, {xs}, {[n.value for n in ns]})', len(xs) * len(ns) > 1)
        got = rt.ok(rt.call(fn, root, list(xs), list(ns)), fn.__name__)
        want = list(itertools.product(xs, ns)); same_len(got, want, 'data configurations')
        for (x, n), d in zip(want, got):
            p = P(build_path_to_londonaq_yaml(root, n))
            w = dict(cost_function=p.edge_weight_type, dataset='londonaq', graph_name=n, quota=x if isq else p.get_quota(x), root=p.get_root_vertex(), alpha=None if isq else x, generation=None, kappa=None, triangle=None)
            for f, v in w.items(): rt.check(getattr(d, f) == v, f'{f} is {getattr(d, f)!r}, not {v!r}')
        out = out + got
    return out
PARTS = ('data_config', 'model_params', 'preprocessing')
def run():
    while rt.more():
        d, m, p = data(), models(), preps()
        for x in m: x.heuristic = R.choice([None] + list(A)); x.branching_strategy = R.choice([None] + list(vial.BranchingStrategy))
        d, m, p = R.sample(d, min(len(d), 3)), R.sample(m, min(len(m), 3)), R.sample(p, min(len(p), 3))
        rt.case('product_of_vials of %s' % [[repr(x) for x in y] for y in (d, m, p)], len(d) * len(m) * len(p) > 1)
        got = rt.ok(rt.call(pp.product_of_vials, list(d), list(m), list(p)), 'product_of_vials')
        want = list(itertools.product(d, m, p)); same_len(got, want, 'experiment units')
        for t, v in zip(want, got): rt.check((v.data_config, v.model_params, v.preprocessing) == t, 'parts of the combination')
        rt.check(len({v.uuid for v in got}) == len(got), 'every unit has its own identifier')
        for v in got[:4]:
            rt.case('flat_dict_from_vial(%r)' % v)
            f = rt.ok(rt.call(vm.flat_dict_from_vial, v), 'flat_dict_from_vial')
            rt.check(f.get('uuid') == v.uuid, 'the identifier is kept')
            names = {'uuid'}
            for part in PARTS:
                o = getattr(v, part)
                for k in type(o).model_fields:
                    names.add(k); rt.check(k in f, f'field {k} is lost'); rt.check(f[k] == getattr(o, k) and (f[k] is None) == (getattr(o, k) is None), f'{k} is {f[k]!r}, not {getattr(o, k)!r}')
            rt.check(set(f) == names, f'other keys: {sorted(set(f) - names)}')
        if got:
            rt.case('dataframe_from_vial_list of %d units' % len(got))
            df = rt.ok(rt.call(vm.dataframe_from_vial_list, got), 'dataframe_from_vial_list')
            rt.check(len(df) == len(got), 'one row per unit'); rt.check(list(df['uuid']) == [v.uuid for v in got], 'rows are in order')
            for k in ('graph_name', 'algorithm', 'remove_leaves', 'quota'): rt.check(list(df[k]) == [vm.flat_dict_from_vial(v)[k] for v in got], 'column ' + k)
rt.main(run)
