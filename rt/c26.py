import ast, os, pathlib, re
import rtpy as rt
from rtpy import rng, check, case, call, ok
CANON = {
 'collapse_bind': 'edge_list py_tour cost_dict prize_dict quota py_root collapse_shortest_paths log_level_py',
 'extension_unitary_gain_bind': 'edge_list py_tour cost_dict prize_dict log_level_py',
 'extension_until_prize_feasible_bind': 'edge_list py_tour cost_dict prize_dict quota',
 'path_extension_bind': 'edge_list py_tour cost_dict prize_dict py_root step_size path_depth_limit log_level_py',
 'path_extension_collapse_bind': 'edge_list py_tour cost_dict prize_dict py_root quota collapse_shortest_paths path_depth_limit step_size log_level_py',
 'path_extension_until_prize_feasible_bind': 'edge_list py_tour cost_dict prize_dict py_root quota step_size path_depth_limit log_level_py',
 'solve_pctsp_bind': 'model edge_list heuristic_edges cost_dict prize_dict quota root_vertex branching_max_depth branching_strategy cost_cover_disjoint_paths cost_cover_shortest_path cycle_cover disjoint_paths_map log_level_py name sec_disjoint_tour sec_lp_gap_improvement_threshold sec_maxflow_mincut sec_max_tailing_off_iterations sec_sepafreq simple_rules_only solver_dir time_limit',
}
CANON = {k: v.split() for k, v in CANON.items()}
def signatures():
    """parameter names of the bound C++ functions; a name this driver does not know leaves the canonical order"""
    out = dict(CANON)
    try: s = open('/repo/pctsp/pypctsp.cpp').read()
    except OSError: return out
    for nm, fn in re.findall(r'm\.def\(\s*"(\w+)"\s*,\s*&(\w+)', s):
        m = re.search(r'\b' + fn + r'\s*\(([^{;]*?)\)\s*\{', s)
        if nm in CANON and m:
            ps = [re.sub(r'=.*', '', p).strip().split()[-1].lstrip('&') for p in re.sub(r'<[^()]*?>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', m.group(1)))).split(',')]
            if sorted(ps) == sorted(CANON[nm]): out[nm] = ps
    return out
SIG = signatures()
calls = []
def native(nm):
    def f(*a):
        r = [len(calls), nm, rng.randint(0, 10 ** 9)]
        if len(a) != len(SIG[nm]): rt.fail(f'{nm} is called with {len(a)} arguments, it takes {len(SIG[nm])}')
        calls.append((nm, dict(zip(SIG[nm], a)), r)); return r
    return f
rt.stub_native(**{n: native(n) for n in SIG})
import networkx as nx
from tspwplib import is_pctsp_yes_instance
def distinct(k): return rng.sample(range(1000, 9000), k)
def graph():
    n = rng.randint(3, 7); ids = rng.sample(range(40), n); g = nx.Graph()
    for v in ids: g.add_node(v, prize=rng.randint(1, 20), demand=99)
    for i in range(n):
        for j in range(i):
            if rng.random() < .8 or (i + 1) % n == j or (j + 1) % n == i: g.add_edge(*rng.sample([ids[i], ids[j]], 2), cost=rng.randint(0, 30), weight=77)
    if rng.random() < .3: g.add_edges_from([(v, v) for v in ids], cost=0)
    return g, ids
def run():
    import importlib; ec, pc, al = (importlib.import_module("pctsp.algorithms." + m) for m in ("extension_collapse", "path_extension_collapse", "algorithms"))
    def expect(want, g, got, fname):
        base = dict(edge_list=list(g.edges()), cost_dict={e: d['cost'] for e in [tuple(x[:2]) for x in g.edges()] for d in [g.edges[e]]}, prize_dict={v: g.nodes[v]['prize'] for v in g.nodes})
        check(len(calls) == len(want), f'{fname} makes {len(calls)} native calls instead of {len(want)}')
        for (nm, a, r), (wn, wa) in zip(calls, want):
            check(nm == wn, f'{fname} calls {nm} instead of {wn}')
            for k, v in {**base, **wa}.items():
                check(type(a[k]) is type(v) and a[k] == v or (isinstance(v, list) and list(a[k]) == v) or (isinstance(v, float) and a[k] == v), f'{fname}: {nm} gets {k}={a[k]!r} instead of {v!r}')
        check(got == calls[-1][2], f'{fname} does not return the result of {calls[-1][0]}')
    while rt.more():
        g, ids = graph(); tour = ids[:rng.randint(3, len(ids))]; tour = tour + tour[:1]
        q, r, st, dp, lg = distinct(5); sp = rng.random() < .5
        W = [
         (ec.collapse, [tour, q, r], dict(logging_level=lg), [('collapse_bind', dict(py_tour=tour, quota=q, py_root=r, collapse_shortest_paths=False, log_level_py=lg))]),
         (pc.path_collapse, [tour, q, r], dict(logging_level=lg), [('collapse_bind', dict(py_tour=tour, quota=q, py_root=r, collapse_shortest_paths=True, log_level_py=lg))]),
         (ec.extension_unitary_gain, [tour], dict(logging_level=lg), [('extension_unitary_gain_bind', dict(py_tour=tour, log_level_py=lg))]),
         (ec.extension_unitary_loss, [tour, r], dict(logging_level=lg), [('path_extension_bind', dict(py_tour=tour, py_root=r, step_size=1, path_depth_limit=2, log_level_py=lg))]),
         (ec.extension_until_prize_feasible, [tour, q], {}, [('extension_until_prize_feasible_bind', dict(py_tour=tour, quota=q))]),
         (ec.extension_unitary_gain_collapse, [tour, q, r], dict(logging_level=lg), [('extension_unitary_gain_bind', dict(py_tour=tour, log_level_py=lg)), ('collapse_bind', dict(quota=q, py_root=r, collapse_shortest_paths=False, log_level_py=lg))]),
         (pc.path_extension, [tour, r], dict(path_depth_limit=dp, step_size=st, logging_level=lg), [('path_extension_bind', dict(py_tour=tour, py_root=r, step_size=st, path_depth_limit=dp, log_level_py=lg))]),
         (pc.path_extension_collapse, [tour, r, q], dict(collapse_shortest_paths=sp, path_depth_limit=dp, step_size=st, logging_level=lg), [('path_extension_collapse_bind', dict(py_tour=tour, py_root=r, quota=q, collapse_shortest_paths=sp, path_depth_limit=dp, step_size=st, log_level_py=lg))]),
         (pc.path_extension_until_prize_feasible, [tour, r, q], dict(step_size=st, path_depth_limit=dp, logging_level=lg), [('path_extension_until_prize_feasible_bind', dict(py_tour=tour, py_root=r, quota=q, step_size=st, path_depth_limit=dp, log_level_py=lg))]),
        ]
        for f, a, k, want in W:
            del calls[:]; t0, g0 = list(tour), repr(list(g.nodes(data=True))) + repr(list(g.edges(data=True)))
            case(f'{f.__name__}(edges={list(g.edges(data="cost"))}, prize={dict(g.nodes(data="prize"))}, {a}, {k})')
            got = ok(call(f, g, *a, **k), f.__name__)
            if f is ec.extension_unitary_gain_collapse and len(calls) == 2: want[1][1]['py_tour'] = calls[0][2]
            expect(want, g, got, f.__name__)
            check(tour == t0 and g0 == repr(list(g.nodes(data=True))) + repr(list(g.edges(data=True))), f'{f.__name__} modifies its arguments')
        # exact solver
        del calls[:]
        root = tour[0]; quota = rng.choice([1, 5, 30, 200]); h = [tuple(x) for x in zip(tour[:-1], tour[1:])]
        h = rng.choice([h, h, [], h[:-1]]); loops = [(v, v) for v in g.nodes if g.has_edge(v, v)]
        dpc = rng.choice([None, {}, {v: rng.randint(0, 99) for v in ids}]); names = distinct(7); fl = [rng.random() < .5 for _ in range(6)]; d = pathlib.Path(os.getcwd()) / 'solver'
        k = dict(branching_max_depth=names[0], branching_strategy=names[1], cost_cover_disjoint_paths=fl[0], cost_cover_shortest_path=fl[1], cycle_cover=fl[2], disjoint_paths_cost=dpc, logging_level=lg, name=f'n{names[2]}', solver_dir=d,
                 sec_disjoint_tour=fl[3], sec_lp_gap_improvement_threshold=names[3] / 8, sec_maxflow_mincut=fl[4], sec_max_tailing_off_iterations=names[4], sec_sepafreq=names[5], simple_rules_only=fl[5], time_limit=names[6] / 4)
        case(f'solve_pctsp(edges={list(g.edges(data="cost"))}, prize={dict(g.nodes(data="prize"))}, h={h}, quota={quota}, root={root}, {k})')
        try: yes = bool(h) and is_pctsp_yes_instance(g, quota, root, h)
        except Exception: continue
        M = object()
        got = ok(call(al.solve_pctsp, M, g, h, quota, root, **k), 'solve_pctsp')
        expect([('solve_pctsp_bind', dict(model=M, heuristic_edges=h if yes else [], quota=quota, root_vertex=root, branching_max_depth=names[0], branching_strategy=names[1], cost_cover_disjoint_paths=fl[0] if dpc else False, cost_cover_shortest_path=fl[1],
            cycle_cover=fl[2], disjoint_paths_map=dpc or {}, log_level_py=lg, name=k['name'], sec_disjoint_tour=fl[3], sec_lp_gap_improvement_threshold=names[3] / 8, sec_maxflow_mincut=fl[4], sec_max_tailing_off_iterations=names[4], sec_sepafreq=names[5],
            simple_rules_only=fl[5], solver_dir=d, time_limit=names[6] / 4))], g, got, 'solve_pctsp')
rt.main(run)
