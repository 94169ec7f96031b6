from rtpy import rng
def joined(p): return p[0] + p[1][::-1][1:]
def good(p): return len(p[0]) > 1 and len(p[1]) > 1 and p[0][0] == p[1][0] and p[0][-1] == p[1][-1]
def simple(t): return len(t) >= 2 and t[0] == t[-1] and len(set(t[:-1])) == len(t) - 1
def pair(n, kind):
    root, t = rng.sample(range(n), 2)
    rest = [v for v in range(n) if v not in (root, t)]; rng.shuffle(rest)
    a = rng.randint(0, len(rest)); b = rng.randint(a, len(rest))
    p, q = [root] + rest[:a] + [t], [root] + rest[a:b] + [t]
    if kind == 'overlap' and p[1:-1]: q = [root] + rng.sample(p[1:-1], rng.randint(1, len(p) - 2)) + [t]
    if kind == 'short': p, q = rng.choice([([], q), (p, []), ([root], q), (p, [root]), ([], []), ([root], [root]), ([t], q), (p, [t])])
    if kind == 'ends':
        o = rng.randrange(n)
        p, q = rng.choice([([o] + p[1:], q), (p[:-1] + [o], q), (p, [o] + q[1:]), (p, q[:-1] + [o]), (p, q[::-1]), (p[::-1], q), (p[::-1], q[::-1])])
    if kind == 'rep' and p[1:-1]: p = p[:-1] + [rng.choice(p)] + [p[-1]]
    return (p, q)
