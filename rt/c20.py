import sys
import rtpy as rt
rt.stub_native()
import networkx as nx
import importlib
S = importlib.import_module('pctsp.suurballe.suurballe')
P = importlib.import_module('pctsp.preprocessing.preprocessing')
R = rt.rng
def graph():
    n = R.randint(1, 8); ids = list(range(n)) if R.random() < .6 else R.sample(range(3 * n), n); p = R.choice([.25, .4, .6, .85]); hi = R.choice([0, 1, 2, 6, 50]); kind = R.choice(['any', 'any', 'dag', 'layer', 'split'])
    E = {}
    if kind == 'split':          # every vertex of an undirected graph split into a head and a tail
        for i in range(n):
            for j in range(i):
                if R.random() < p:
                    for a, b in ((i, j), (j, i)): E[2 * a + 1, 2 * b] = R.randint(0, hi)
        for i in range(n): E[2 * i, 2 * i + 1] = 0
        ids = list(range(2 * n)); n *= 2
    else:
        for i in range(n):
            for j in range(i):
                if kind == 'layer' and i - j > 3: continue
                if R.random() < p: a, b = (j, i) if kind in ('dag', 'layer') or R.random() < .5 else (i, j); E[a, b] = R.randint(0, hi)
    g = nx.DiGraph(); order = list(range(n)); R.shuffle(order)
    for i in order: g.add_node(ids[i])
    el = list(E.items()); R.shuffle(el)
    for (i, j), w in el: g.add_edge(ids[i], ids[j], weight=w)
    return g, R.choice(ids)
def best_pair(g, s, t):
    """cost of the cheapest pair of edge-disjoint s-t paths: two rounds of Bellman-Ford augmentation"""
    arcs = {(u, v): d['weight'] for u, v, d in g.edges(data=True)}; used = set(); tot = 0
    for _ in range(2):
        dist, pre = {s: 0}, {}
        for _ in range(len(g)):
            ch = False
            for (u, v), w in arcs.items():
                a, b, c = (u, v, w) if (u, v) not in used else (v, u, -w)
                if a in dist and dist[a] + c < dist.get(b, 1 << 60): dist[b] = dist[a] + c; pre[b] = (u, v); ch = True
            if not ch: break
        if t not in dist: return None
        tot += dist[t]; x = t
        while x != s:
            e = pre[x]
            if e in used: used.discard(e); x = e[1]
            else: used.add(e); x = e[0]
    return tot
def run():
    while rt.more():
        g, s = graph(); edges = [(u, v, d['weight']) for u, v, d in g.edges(data=True)]
        rt.case(f'suurballe_shortest_vertex_disjoint_paths(nodes={list(g.nodes)}, edges={edges}, source={s})', len(edges) > 3)
        before = (list(g.nodes(data=True)), list(g.edges(data=True)))
        T = rt.ok(rt.call(S.suurballe_shortest_vertex_disjoint_paths, g, s), 'suurballe')
        rt.check(before == (list(g.nodes(data=True)), list(g.edges(data=True))), 'the graph is not modified')
        rt.check(set(T) == {s} | nx.descendants(g, s), 'the tree holds the reachable vertices')
        for t in list(T):
            what = f'target {t}: '
            if t == s:
                rt.check(rt.ok(rt.call(S.extract_suurballe_edge_disjoint_paths, T, s, s), what + 'extract') == ([s], []), what + 'the source gives the trivial pair'); continue
            best = best_pair(g, s, t); cost = rt.ok(rt.call(S.edge_disjoint_path_cost, T, t), what + 'cost')
            rt.check(T.labeled[t] == (best is not None), what + f'reported as {T.labeled[t]}, a pair of edge-disjoint paths ' + ('exists' if best is not None else 'does not exist'))
            a, b = rt.ok(rt.call(S.extract_suurballe_edge_disjoint_paths, T, s, t), what + 'extract')
            if best is None: rt.check(cost == sys.maxsize and (a, b) == ([], []), what + f'no pair exists, got cost {cost} and paths {a} {b}'); continue
            for p in (a, b): rt.check(len(p) >= 2 and p[0] == s and p[-1] == t and all(g.has_edge(u, v) for u, v in zip(p, p[1:])), what + f'{p} is a path of the graph from source to target')
            ea, eb = list(zip(a, a[1:])), list(zip(b, b[1:]))
            rt.check(len(set(ea) | set(eb)) == len(ea) + len(eb), what + f'{a} and {b} share an edge')
            c = sum(g[u][v]['weight'] for u, v in ea + eb)
            rt.check(c == cost, what + f'the paths {a} and {b} cost {c}, reported {cost}'); rt.check(cost == best, what + f'cost {cost}, the cheapest pair costs {best}')
rt.main(run)
