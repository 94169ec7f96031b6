import copy, itertools
import rtpy as rt
rt.stub_native()
import networkx as nx
import importlib
P = importlib.import_module('pctsp.preprocessing.preprocessing')
R = rt.rng
def graph():
    n = R.randint(1, 9); ids = R.sample(range(3 * n), n); kind = R.choice(['sparse', 'tree', 'dense', 'cactus', 'cycle', 'two', 'necklace'])
    E = set()
    def add(i, j):
        if i != j: E.add((min(i, j), max(i, j)))
    if kind in ('sparse', 'dense'):
        p = .25 if kind == 'sparse' else .6
        for i in range(n):
            for j in range(i):
                if R.random() < p: add(i, j)
    elif kind in ('tree', 'cactus'):
        for i in range(1, n): add(i, R.randrange(i))
        if kind == 'cactus':
            for _ in range(R.randint(0, 2)): add(R.randrange(n), R.randrange(n))
    elif kind == 'cycle':
        for i in range(n): add(i, (i + 1) % n)
        if R.random() < .5: add(R.randrange(n), R.randrange(n))
    elif kind == 'two':
        h = n // 2
        for part in (range(h), range(h, n)):
            for i in part:
                for j in part:
                    if j < i and R.random() < .6: add(i, j)
        if n > 1 and R.random() < .5: add(0, n - 1)
    else:   # two cycles joined by a path: inner vertices have degree two but lie on no cycle
        k = min(3, n)
        for i in range(k): add(i, (i + 1) % k)
        for i in range(k, n): add(i, i - 1)
        if n >= k + 3: add(n - 1, n - 3)
    g = nx.Graph(name='g')
    order = list(range(n)); R.shuffle(order)
    for i in order: g.add_node(ids[i], prize=R.randint(0, 9), tag=[i])
    el = list(E); R.shuffle(el)
    for i, j in el: g.add_edge(ids[i], ids[j], cost=R.randint(0, 9), tag=[i, j])
    if R.random() < .4:
        for i in range(n):
            if R.random() < .5: g.add_edge(ids[i], ids[i], cost=0, tag=['loop'])
    if R.random() < .15: g = nx.freeze(g)
    return g
def show(g): return f'nodes={list(g.nodes(data=True))}, edges={list(g.edges(data=True))}'
def adj(g): return {u: set(g.adj[u]) - {u} for u in g}
def core(g):
    a = adj(g); s = set(g)
    while True:
        bad = {u for u in s if len(a[u] & s) <= 1}
        if not bad: return s
        s -= bad
def on_cycle(g, root):
    a = adj(g); out = set()
    def go(path, seen):
        for v in a[path[-1]]:
            if v == root and len(path) >= 3: out.update(path)
            elif v not in seen: go(path + [v], seen | {v})
    go([root], {root}); return out
def reach(g, v):
    a = adj(g); s = {v}; st = [v]
    while st:
        for w in a[st.pop()]:
            if w not in s: s.add(w); st.append(w)
    return s
def same(h, g, keep, what):
    rt.check(set(h) == keep, f'{what}: keeps {sorted(h)}, should keep {sorted(keep)}')
    we = {frozenset(e): d for *e, d in g.edges(data=True) if set(e) <= keep}
    he = {frozenset(e): d for *e, d in h.edges(data=True)}
    rt.check(set(we) == set(he), f'{what}: has edges {sorted(map(sorted, he))}, should have {sorted(map(sorted, we))}')
    rt.check(all(we[e] == he[e] for e in we) and all(h.nodes[v] == g.nodes[v] for v in keep), f'{what}: attributes are kept')
    rt.check(not h.is_directed() and not h.is_multigraph(), what + ': an undirected graph')
def long_path():
    g = nx.Graph()
    for i in range(2100): g.add_node(i, prize=1)
    for i in range(2099): g.add_edge(i, i + 1, cost=1)
    for i, j in ((2100, 2101), (2101, 2102), (2100, 2102), (0, 2100)): g.add_edge(i, j, cost=1)
    for i in (2100, 2101, 2102): g.nodes[i]['prize'] = 1
    rt.case('remove_leaves(path 0..2099 attached by edge (0,2100) to the triangle 2100,2101,2102)'); rt.signal.alarm(200)
    h = rt.ok(rt.call(P.remove_leaves, g), 'remove_leaves'); rt.check(set(h) == {2100, 2101, 2102}, 'remove_leaves keeps the triangle')
def run():
    if rt.seed % 3 == 0: long_path()
    while rt.more():
        g = graph(); before = copy.deepcopy((list(g.nodes(data=True)), list(g.edges(data=True))))
        def kept(what): rt.check(before == (list(g.nodes(data=True)), list(g.edges(data=True))), what + ' modified its input')
        for v in g:
            rt.case(f'degree_without_self_loops({show(g)}, {v})', False)
            rt.check(rt.ok(rt.call(P.degree_without_self_loops, g, v), 'degree') == len(adj(g)[v]), 'number of neighbours other than itself')
        c = core(g); rt.case(f'remove_leaves({show(g)})', len(c) < len(g))
        h = rt.ok(rt.call(P.remove_leaves, g), 'remove_leaves'); same(h, g, c, 'remove_leaves'); kept('remove_leaves')
        root = R.choice(list(g)); k = on_cycle(g, root) | {root}
        rt.case(f'remove_one_connected_components({show(g)}, {root})', len(k) < len(g))
        h = rt.ok(rt.call(P.remove_one_connected_components, g, root), 'remove_one_connected_components'); same(h, g, k, 'remove_one_connected_components'); kept('remove_one_connected_components')
        k = reach(g, root); rt.case(f'remove_components_disconnected_from_vertex({show(g)}, {root})', len(k) < len(g))
        h = rt.ok(rt.call(P.remove_components_disconnected_from_vertex, g, root), 'remove_components'); same(h, g, k, 'remove_components_disconnected_from_vertex'); kept('remove_components_disconnected_from_vertex')
rt.main(run)
