import copy
import rtpy as rt
from rtpy import rng, check, case, call, raised, ok
rt.stub_native()
from c21h import pair, good, joined
import networkx as nx
def load():
    import pctsp.algorithms.heuristic as h
    return h
def complete(h, n):
    ids = rng.sample(range(n * 3), n)
    g = nx.Graph()
    for v in ids: g.add_node(v, prize=rng.choice([0, 0, 1, 2, 5, 9, rng.randint(0, 100)]))
    for i in range(n):
        for j in range(i): g.add_edge(ids[i], ids[j], cost=rng.randint(0, 9))
    if rng.random() < .2: g.add_edges_from([(v, v) for v in ids], cost=0)
    p = dict(g.nodes(data='prize')); tot = sum(p.values()); root = rng.choice(ids)
    q = rng.choice([0, 1, p[root], p[root] + 1, tot, tot + 1, tot - 1, rng.randint(0, tot + 1), rng.randint(0, tot // 2 + 1)])
    seed = rng.choice([0, 1, rng.randint(0, 10 ** 6), rng.randint(0, 50)])
    case(f'random_tour_complete_graph(prizes={p}, root={root}, quota={q}, seed={seed})', n >= 2)
    before = (dict(g.nodes(data=True)).__repr__(), list(g.edges(data=True)).__repr__())
    t = ok(call(h.random_tour_complete_graph, g, root, q, seed), 'the call')
    check(before == (dict(g.nodes(data=True)).__repr__(), list(g.edges(data=True)).__repr__()), 'the graph was modified')
    check(len(t) >= 2 and t[0] == root and t[-1] == root, f'the tour {t} does not start and end at the root')
    s = t[:-1]
    check(len(set(s)) == len(s), f'the tour {t} repeats a vertex')
    check(set(s) <= set(ids), f'the tour {t} uses a vertex outside the graph')
    check(len(s) >= min(3, n), f'the tour {t} has fewer than three distinct vertices')
    check(sum(p[v] for v in s) >= q or len(s) == n, f'the tour {t} misses the quota although vertices are left')
def from_map(h, n):
    m = rng.choice([0, 1, 1, 2, 3, 6]); root = rng.randrange(n); paths = {}
    for t in rng.sample(range(n), min(m, n)):
        p = pair(n, rng.choice(['ok', 'ok', 'overlap']))
        if rng.random() < .5:
            o = rng.choice([v for v in range(n) if v != root]); p = ([root, o], [root, o])
            if rng.random() < .5: p = rng.choice([([root, t, o], [root, o]), ([root, o], [root, t, o])])
        paths[t] = p
    if rng.random() < .4: paths[root] = rng.choice([([root], []), ([root, 1, 2, 3, root], [root, root])])
    seed = rng.choice([0, 1, rng.randint(0, 10 ** 6), rng.randint(0, 50)])
    case(f'random_tour_from_disjoint_paths_map(paths={paths}, root={root}, seed={seed})', bool(paths))
    before = copy.deepcopy(paths); r = call(h.random_tour_from_disjoint_paths_map, paths, root, seed)
    check(before == paths, 'the map was modified')
    el = [joined(p) for v, p in paths.items() if v != root and len(p[0]) + len(p[1]) >= 5]
    if not el: check(raised(r) == 'ValueError', f'no eligible pair, but the result is {raised(r) or r}')
    else: check(ok(r, 'the call') in el, f'{r} is not the tour of an eligible pair')
def run():
    h = load()
    while rt.more():
        for _ in range(20): complete(h, rng.choice([1, 2, 3, 4, 5, 8])); from_map(h, rng.randint(3, 8))
rt.main(run)
