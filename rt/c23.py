import rtpy as rt
rt.stub_native()
import networkx as nx
import importlib
H = importlib.import_module('pctsp.algorithms.heuristic')
R = rt.rng
def graph():
    n = R.randint(1, 9); ids = R.sample(range(3 * n), n); kind = R.choice(['sparse', 'tree', 'cactus', 'dense', 'cycle', 'necklace', 'lollipop'])
    E = set()
    def add(i, j):
        if i != j: E.add((min(i, j), max(i, j)))
    if kind in ('sparse', 'dense'):
        p = .3 if kind == 'sparse' else .6
        for i in range(n):
            for j in range(i):
                if R.random() < p: add(i, j)
    elif kind in ('tree', 'cactus'):
        for i in range(1, n): add(i, R.randrange(i))
        if kind == 'cactus':
            for _ in range(R.randint(1, 2)): add(R.randrange(n), R.randrange(n))
    elif kind == 'cycle':
        for i in range(n): add(i, (i + 1) % n)
    elif kind == 'necklace':      # cycles hanging off a path
        for i in range(n - 1): add(i, i + 1)
        for i in range(0, n - 2, 3): add(i, i + 2)
    else:                         # a path leading to a cycle
        for i in range(n - 1): add(i, i + 1)
        if n >= 3: add(n - 1, R.randrange(n - 2))
    g = nx.Graph(); order = list(range(n)); R.shuffle(order)
    for i in order: g.add_node(ids[i])
    el = list(E); R.shuffle(el)
    for i, j in el: g.add_edge(ids[i], ids[j]) if R.random() < .5 else g.add_edge(ids[j], ids[i])
    return g, ids
def has_cycle(g, root):
    a = {u: set(g.adj[u]) - {u} for u in g}
    def go(path, seen):
        for v in a[path[-1]]:
            if v == root and len(path) >= 3: return True
            if v not in seen and go(path + [v], seen | {v}): return True
        return False
    return go([root], {root})
def bfs_model(g, root):
    """the assumed contract of networkx.bfs_tree"""
    t = nx.bfs_tree(g, root); order = list(t); at = {v: i for i, v in enumerate(order)}
    rt.check(order[0] == root and set(order) == nx.node_connected_component(g, root), 'assumption: bfs_tree discovers the component of the root')
    par = {v: list(t.predecessors(v)) for v in order}
    rt.check(par[root] == [] and all(len(par[v]) == 1 and g.has_edge(par[v][0], v) for v in order[1:]), 'assumption: each other vertex has one parent adjacent to it')
    rt.check([v for u in order for v in t.successors(u)] == order[1:], 'assumption: children follow in order of discovery')
    rt.check(all(at[par[w][0]] <= at[u] for u in order for w in g[u] if w != root), 'assumption: a vertex is discovered from the first vertex next to it')
def run():
    while rt.more():
        g, ids = graph(); root = R.choice(ids); loops = R.random() < .15
        if loops: g.add_edge(*[R.choice(ids)] * 2)
        want = has_cycle(g, root); before = (list(g.nodes(data=True)), list(g.edges(data=True)))
        rt.case(f'find_cycle_from_bfs(nodes={list(g.nodes)}, edges={list(g.edges)}, {root})', want)
        bfs_model(g, root)
        c = rt.ok(rt.call(H.find_cycle_from_bfs, g, root), 'find_cycle_from_bfs')
        rt.check(before == (list(g.nodes(data=True)), list(g.edges(data=True))), 'the graph is not modified')
        rt.check(bool(c) == want, f'returned {c}, but a simple cycle through the root ' + ('exists' if want else 'does not exist'))
        if c:
            rt.check(c[0] == root and c[-1] == root and len(c) >= 4, f'{c} starts and ends at the root and has three distinct vertices')
            rt.check(len(set(c[:-1])) == len(c) - 1, f'{c} repeats a vertex')
            rt.check(all(g.has_edge(u, v) for u, v in zip(c, c[1:])), f'{c} uses a missing edge')
        t = nx.bfs_tree(g, root)
        v = R.choice(list(t)); rt.case(f'path_to_vertex_in_tree(tree {list(t.edges)}, {v})', v != root)
        rt.check(rt.ok(rt.call(H.path_to_vertex_in_tree, t, v), 'path_to_vertex_in_tree') == nx.shortest_path(t, root, v), 'the path from the root to the vertex')
rt.main(run)
