import copy, sys
import rtpy as rt
from rtpy import rng, check, case, call, raised, ok
rt.stub_native()
def load():
    import importlib.util
    import pctsp.algorithms.heuristic as h
    return h
from c21h import joined, good, simple, pair
def joining(h, n):
    p = pair(n, rng.choice(['ok', 'ok', 'overlap', 'short', 'ends', 'rep']))
    case(f'tour_from_vertex_disjoint_paths({p})', good(p)); before = copy.deepcopy(p)
    r = call(h.tour_from_vertex_disjoint_paths, p)
    check(p == before, 'an input path was modified')
    if good(p):
        ok(r, 'joining a well-formed pair'); check(r == joined(p), f'joined tour is {r}, expected {joined(p)}')
    else: check(raised(r) == 'ValueError', f'malformed pair gives {raised(r) or r} instead of a ValueError')
def heur(h, n):
    m = rng.randint(0, 6)
    root = rng.randrange(n); paths = {}
    for t in rng.sample(range(n), min(m, n)):
        for _ in range(20):
            p = pair(n, rng.choice(['ok', 'ok', 'ok', 'overlap', 'rep']))
            mp = {p[0][0]: root, root: p[0][0]}; p = tuple([mp.get(v, v) for v in s] for s in p)
            if good(p) and p[0][-1] != root: break
        paths[t] = p
    if rng.random() < .3: paths[root] = ([root, root], [root, root])
    prize = {v: rng.choice([0, 0, 1, 2, 5, 9]) for v in range(n)}
    if rng.random() < .15: prize = {v: 0 for v in range(n)}
    cost = {v: rng.choice([rng.randint(0, 5), rng.randint(0, 50)]) for v in paths}
    if rng.random() < .1: cost = {v: rng.randint(2 ** 40, 2 ** 41) for v in paths}
    tot = sum(prize.values()); quota = rng.choice([0, 1, tot, tot + 1, rng.randint(0, max(tot, 1)), rng.randint(0, max(tot // 2, 1))])
    arg = (copy.deepcopy(prize), quota, copy.deepcopy(cost), copy.deepcopy(paths))
    pr = lambda t: sum(prize[v] for v in set(t))
    us = {v: joined(p) for v, p in paths.items() if simple(joined(p)) and pr(joined(p)) >= quota}
    for name in ('suurballes_heuristic', 'suurballes_tour_initialization'):
        case(f'{name}(prize={prize}, quota={quota}, cost={cost}, paths={paths})', bool(paths))
        r = ok(call(getattr(h, name), *arg), name)
        check(arg == (prize, quota, cost, paths), 'an input was modified')
        if us:
            best = min(cost[v] for v in us)
            check(any(r == us[v] and cost[v] == best for v in us), f'{name} returns {r}, which is not a usable tour of least cost {best}')
        elif name == 'suurballes_heuristic': check(r == [], f'{name} returns {r} although no pair is usable')
        else:
            ts = [joined(p) for p in paths.values()]; mx = max([pr(t) for t in ts], default=0)
            if mx <= 0: check(r == [], f'{name} returns {r} although no tour has positive prize')
            else: check(r in ts and pr(r) == mx, f'{name} returns {r}, which is not a given tour of maximum prize {mx}')
def run():
    h = load()
    while rt.more():
        for _ in range(20): joining(h, rng.randint(2, 9)); heur(h, rng.randint(3, 9))
rt.main(run)
