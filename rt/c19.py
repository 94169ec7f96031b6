import copy
import rtpy as rt
from rtpy import rng, check, case, call, ok
rt.stub_native()
import networkx as nx
def load():
    import pctsp.suurballe.suurballe as s
    return s
def tree():
    n = rng.choice([1, 2, 3, 5, 8, 12]); ids = rng.sample(range(3 * n), n); kind = rng.random()
    par = {}
    for i in range(1, n): par[ids[i]] = ids[i - 1] if kind < .1 else ids[0] if kind < .2 else ids[rng.randrange(i)]
    T = nx.DiGraph(); es = [(p, c) for c, p in par.items()]; rng.shuffle(es)
    ns = list(ids); rng.shuffle(ns)
    if rng.random() < .5: T.add_nodes_from(ns)
    else: T.add_node(ids[0])
    T.add_edges_from(es)
    if rng.random() < .3:
        for v in ids:
            for k in ('pre', 'post', 'x'):
                if rng.random() < .5: T.nodes[v][k] = rng.randint(-3, 20)
    return T, ids[0], par
def anc(par, v):
    out = {v}
    while v in par: v = par[v]; out.add(v)
    return out
def one(s):
    T, root, par = tree(); n = len(T)
    case(f'tree root={root} edges={list(T.edges())} attributes={dict(T.nodes(data=True))}', n >= 2)
    up = {v: anc(par, v) for v in T}
    for f, k in rng.sample([(s.preorder, 'pre'), (s.postorder, 'post')], 2):
        ot = 'post' if k == 'pre' else 'pre'
        before = (list(T.nodes()), list(T.edges())); oth = {v: {a: b for a, b in T.nodes[v].items() if a != k} for v in T}
        q = ok(call(f, T, root), f.__name__)
        check(before == (list(T.nodes()), list(T.edges())), f'{f.__name__} changes the tree')
        check(oth == {v: {a: b for a, b in T.nodes[v].items() if a != k} for v in T}, f'{f.__name__} changes another attribute')
        check(sorted(q) == sorted(T), f'{f.__name__} gives {q}: not every vertex exactly once')
        check(all(T.nodes[q[i]].get(k) == i for i in range(n)), f'{f.__name__} stores numbers that are not the positions')
        for v in T:
            sub = [i for i in range(n) if v in up[q[i]]]
            check(sub == list(range(sub[0], sub[0] + len(sub))), f'{f.__name__} gives {q}: subtree of {v} is not contiguous')
            check(q[sub[0] if k == 'pre' else sub[-1]] == v, f'{f.__name__} gives {q}: {v} is on the wrong side of its descendants')
    for a in T:
        for d in T:
            r = ok(call(s.is_ancestor, T, a, d), 'is_ancestor')
            check(bool(r) == (a in up[d]), f'is_ancestor({a}, {d}) is {r}')
def run():
    s = load()
    while rt.more():
        for _ in range(20): one(s)
rt.main(run)
