import copy
import rtpy as rt
from rtpy import rng, check, case, call, ok
rt.stub_native()
import networkx as nx
def load():
    import pctsp.suurballe.suurballe as s
    return s
def one(s):
    n = rng.choice([1, 2, 3, 4, 6, 9]); ids = rng.sample(range(3 * n), n)
    g = nx.DiGraph(); g.add_nodes_from(ids); w = rng.choice(['weight', 'cost', 'length'])
    dens = rng.random(); big = rng.random() < .1; neg = rng.random() < .1
    for u in ids:
        for v in ids:
            if rng.random() < dens and (u != v or rng.random() < .1):
                c = rng.randint(0, 2 ** 50) if big else rng.randint(-9, 9) if neg else rng.choice([0, 1, rng.randint(0, 20)])
                g.add_edge(u, v, **{w: c})
                if w != 'weight' and rng.random() < .5: g[u][v]['weight'] = rng.randint(0, 9)
    src = rng.choice(ids)
    true = rng.random() < .5 and not neg
    if true:
        d = nx.single_source_dijkstra_path_length(g, src, weight=w); g = g.subgraph(set(d))
        if rng.random() < .5: d = {v: d[v] for v in ids if v in d}
    else: d = {v: rng.choice([0, rng.randint(-20, 20), rng.randint(0, 2 ** 40)]) for v in ids}
    kw = {} if w == 'weight' and rng.random() < .5 else {'weight': w}
    case(f'adjust_edge_cost_for_graph(edges={list(g.edges(data=True))}, distances={d}, {kw})', g.number_of_edges() > 0)
    before = (list(g.nodes(data=True)), copy.deepcopy(list(g.edges(data=True))), dict(d))
    a = ok(call(s.adjust_edge_cost_for_graph, g, d, **kw), 'the call')
    check(before == (list(g.nodes(data=True)), list(g.edges(data=True)), d), 'an input was modified')
    got = {(u, v): c for u, r in a.items() for v, c in r.items()}
    want = {(u, v): x[w] + d[u] - d[v] for u, v, x in g.edges(data=True)}
    check(got == want, f'adjusted costs are {got}, expected {want}')
    check(set(a) == set(g), 'a vertex has no (possibly empty) row of adjusted costs')
    if true: check(all(c >= 0 for c in got.values()), 'negative adjusted cost on true distances')
    c, x, y = (rng.choice([0, rng.randint(-9, 9), rng.randint(-2 ** 60, 2 ** 60)]) for _ in range(3))
    case(f'adjust_edge_cost({c}, {x}, {y})')
    check(ok(call(s.adjust_edge_cost, c, x, y), 'the call') == c + x - y, 'wrong adjusted cost')
def run():
    s = load()
    while rt.more():
        for _ in range(20): one(s)
rt.main(run)
