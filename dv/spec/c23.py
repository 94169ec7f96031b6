"""Cycle through the root from a breadth-first traversal."""
from ..run import Unit
from ..ir import *
PRELUDE = r'''
pub open spec fn gok(g: UG) -> bool {
    &&& forall|u: int| g.nodes.contains(u) <==> #[trigger] g.adj.dom().contains(u)
    &&& forall|u: int, v: int| g.nodes.contains(u) && #[trigger] g.adj[u].contains(v) ==> g.nodes.contains(v) && g.adj[v].contains(u)
}
pub open spec fn edge(g: UG, u: int, v: int) -> bool { g.nodes.contains(u) && g.adj[u].contains(v) }
// the tree in order of discovery: ord[i] was discovered from ord[pp[i]]; the children of ord[k] are ord[st[k]..st[k+1]]
pub open spec fn pos(t: Tree, u: int) -> int { choose|i: int| 0 <= i < t.ord.len() && t.ord[i] == u }
#[verifier::opaque] pub open spec fn twf(t: Tree) -> bool {
    &&& t.ord.len() >= 1 && t.ord.no_duplicates() && t.pp.len() == t.ord.len() && t.st.len() == t.ord.len() + 1
    &&& t.st[0] == 1 && t.st[t.ord.len() as int] == t.ord.len()
    &&& forall|k: int| 0 <= k < t.ord.len() ==> k < #[trigger] t.st[k] <= t.st[k + 1] <= t.ord.len()
    &&& forall|i: int| 1 <= i < t.ord.len() ==> 0 <= #[trigger] t.pp[i] < i && t.st[t.pp[i]] <= i < t.st[t.pp[i] + 1]
    &&& forall|k: int, i: int| 0 <= k < t.ord.len() && #[trigger] t.st[k] <= i < t.st[k + 1] ==> #[trigger] t.pp[i] == k
}
#[verifier::opaque] pub open spec fn bfs(g: UG, root: int, t: Tree) -> bool {
    &&& twf(t) && t.ord[0] == root
    &&& forall|i: int| 0 <= i < t.ord.len() ==> g.nodes.contains(#[trigger] t.ord[i])
    &&& forall|i: int| 1 <= i < t.ord.len() ==> edge(g, t.ord[#[trigger] t.pp[i]], t.ord[i])
    // everything adjacent to a discovered vertex is discovered, no later than from that vertex
    &&& forall|i: int, w: int| 0 <= i < t.ord.len() && #[trigger] edge(g, t.ord[i], w) ==> t.ord.contains(w) && (w != root ==> t.pp[pos(t, w)] <= i)
}
pub open spec fn succ(t: Tree, u: int) -> Seq<int> { t.ord.subrange(t.st[pos(t, u)], t.st[pos(t, u) + 1]) }
pub open spec fn pred(t: Tree, u: int) -> Seq<int> { if pos(t, u) == 0 { Seq::empty() } else { seq![t.ord[t.pp[pos(t, u)]]] } }
pub proof fn lemma_pos(t: Tree, i: int) requires twf(t), 0 <= i < t.ord.len() ensures pos(t, t.ord[i]) == i { reveal(twf); let j = pos(t, t.ord[i]); assert(0 <= j < t.ord.len() && t.ord[j] == t.ord[i]); }
pub proof fn lemma_has(t: Tree, u: int) requires twf(t), t.ord.contains(u) ensures 0 <= pos(t, u) < t.ord.len(), t.ord[pos(t, u)] == u { reveal(twf); let i = choose|i: int| 0 <= i < t.ord.len() && t.ord[i] == u; lemma_pos(t, i); }
pub open spec fn path_of(t: Tree, i: int) -> Seq<int> decreases i { if i <= 0 || !(0 <= t.pp[i] < i) { seq![t.ord[0]] } else { path_of(t, t.pp[i]).push(t.ord[i]) } }
pub open spec fn col(t: Tree, i: int) -> int decreases i { if i <= 0 || t.pp[i] <= 0 || t.pp[i] >= i { i - 1 } else { col(t, t.pp[i]) } }
#[verifier::opaque] pub open spec fn branch_vertex(t: Tree, u: int, i: int) -> bool { exists|q: int| 1 <= q <= i && q < t.ord.len() && t.ord[q] == u && col(t, q) == col(t, i) }
pub proof fn bv_get(t: Tree, u: int, i: int) -> (q: int) requires branch_vertex(t, u, i) ensures 1 <= q <= i, q < t.ord.len(), t.ord[q] == u, col(t, q) == col(t, i) { reveal(branch_vertex); choose|q: int| 1 <= q <= i && q < t.ord.len() && t.ord[q] == u && col(t, q) == col(t, i) }
pub proof fn bv_put(t: Tree, u: int, i: int, q: int) requires 1 <= q <= i, q < t.ord.len(), t.ord[q] == u, col(t, q) == col(t, i) ensures branch_vertex(t, u, i) { reveal(branch_vertex); }
pub proof fn lemma_path(g: UG, root: int, t: Tree, i: int)
    requires gok(g), bfs(g, root, t), 0 <= i < t.ord.len()
    ensures ({ let p = path_of(t, i); p.len() >= 1 && p[0] == root && p.last() == t.ord[i] && (i >= 1 ==> p.len() >= 2) && p.no_duplicates()
        && (forall|j: int| 0 <= j < p.len() - 1 ==> edge(g, #[trigger] p[j], p[j + 1])) && (forall|j: int| 1 <= j < p.len() ==> branch_vertex(t, #[trigger] p[j], i)) })
    decreases i
{ reveal(bfs); reveal(twf); reveal(scanned);
    if i >= 1 {
        let k = t.pp[i]; lemma_path(g, root, t, k); let q = path_of(t, k); let p = path_of(t, i); assert(p == q.push(t.ord[i]));
        assert forall|j: int| 1 <= j < p.len() implies branch_vertex(t, #[trigger] p[j], i) by { if j < q.len() { assert(p[j] == q[j]); let x = bv_get(t, q[j], k); assert(k >= 1); bv_put(t, p[j], i, x); } else { bv_put(t, p[j], i, i); } }
        assert forall|j: int, l: int| 0 <= j < l < p.len() implies p[j] != p[l] by {
            if l < q.len() { assert(q[j] != q[l]); } else if j == 0 { assert(t.ord[0] != t.ord[i]); } else { assert(p[j] == q[j]); let x = bv_get(t, q[j], k); assert(t.ord[x] != t.ord[i]); } }
        assert forall|j: int| 0 <= j < p.len() - 1 implies edge(g, #[trigger] p[j], p[j + 1]) by { if j < q.len() - 1 { assert(edge(g, q[j], q[j + 1])); } else { assert(edge(g, t.ord[t.pp[i]], t.ord[i])); } }
    }
}
#[verifier::opaque] pub open spec fn tour(g: UG, root: int, c: Seq<int>) -> bool { c.len() >= 4 && c[0] == root && c.last() == root && c.drop_last().no_duplicates() && forall|j: int| 0 <= j < c.len() - 1 ==> edge(g, #[trigger] c[j], c[j + 1]) }
pub open spec fn root_cycle(g: UG, root: int, c: Seq<int>) -> bool { c.len() >= 3 && c[0] == root && c.no_duplicates() && (forall|j: int| 0 <= j < c.len() - 1 ==> edge(g, #[trigger] c[j], c[j + 1])) && edge(g, c.last(), root) }
pub proof fn lemma_join_distinct(t: Tree, a: Seq<int>, b: Seq<int>, i: int, j: int)
    requires twf(t), a.len() >= 2, b.len() >= 2, a.no_duplicates(), b.no_duplicates(), a[0] == t.ord[0], b[0] == t.ord[0], col(t, i) != col(t, j), forall|x: int| 1 <= x < a.len() ==> branch_vertex(t, #[trigger] a[x], i), forall|x: int| 1 <= x < b.len() ==> branch_vertex(t, #[trigger] b[x], j)
    ensures (a + b.reverse()).drop_last().no_duplicates()
{ reveal(twf);
    let c = a + b.reverse(); let d = c.drop_last();
    assert forall|x: int, y: int| 0 <= x < y < d.len() implies d[x] != d[y] by {
        if y < a.len() { assert(d[x] == a[x] && d[y] == a[y]); }
        else { let yy = b.len() - 1 - (y - a.len()); assert(d[y] == b[yy] && yy >= 1); 
            if x < a.len() { assert(d[x] == a[x]); lemma_apart(t, a, b, i, j, x, yy); }
            else { let xx = b.len() - 1 - (x - a.len()); assert(d[x] == b[xx]); assert(xx != yy); } } }
}
pub proof fn lemma_apart(t: Tree, a: Seq<int>, b: Seq<int>, i: int, j: int, x: int, y: int)
    requires twf(t), a[0] == t.ord[0], 0 <= x < a.len(), 1 <= y < b.len(), col(t, i) != col(t, j), x >= 1 ==> branch_vertex(t, a[x], i), branch_vertex(t, b[y], j)
    ensures a[x] != b[y]
{ reveal(twf); let q = bv_get(t, b[y], j); if x == 0 { assert(t.ord[0] != t.ord[q]); } else { let p = bv_get(t, a[x], i); assert(p != q); assert(t.ord[p] != t.ord[q]); } }
pub proof fn lemma_join_edges(g: UG, a: Seq<int>, b: Seq<int>)
    requires gok(g), a.len() >= 1, b.len() >= 1, edge(g, a.last(), b.last()), forall|x: int| 0 <= x < a.len() - 1 ==> edge(g, #[trigger] a[x], a[x + 1]), forall|x: int| 0 <= x < b.len() - 1 ==> edge(g, #[trigger] b[x], b[x + 1])
    ensures ({ let c = a + b.reverse(); forall|x: int| 0 <= x < c.len() - 1 ==> edge(g, #[trigger] c[x], c[x + 1]) })
{
    let c = a + b.reverse();
    assert forall|x: int| 0 <= x < c.len() - 1 implies edge(g, #[trigger] c[x], c[x + 1]) by {
        if x < a.len() - 1 { assert(c[x] == a[x] && c[x + 1] == a[x + 1]); assert(edge(g, a[x], a[x + 1])); }
        else if x == a.len() - 1 { assert(c[x] == a.last()); assert(c[x + 1] == b.last()); }
        else { let z = b.len() - 1 - (x - a.len()); assert(c[x] == b[z] && c[x + 1] == b[z - 1]); lemma_rev_edge(g, b, z - 1); } }
}
pub proof fn lemma_rev_edge(g: UG, b: Seq<int>, z: int) requires gok(g), 0 <= z < b.len() - 1, forall|x: int| 0 <= x < b.len() - 1 ==> edge(g, #[trigger] b[x], b[x + 1]) ensures edge(g, b[z + 1], b[z]) { assert(edge(g, b[z], b[z + 1])); }
pub proof fn lemma_join(g: UG, root: int, t: Tree, i: int, j: int)
    requires gok(g), bfs(g, root, t), 1 <= i < t.ord.len(), 1 <= j < t.ord.len(), col(t, i) != col(t, j), edge(g, t.ord[i], t.ord[j])
    ensures tour(g, root, path_of(t, i) + path_of(t, j).reverse())
{
    reveal(bfs); reveal(twf); reveal(tour); lemma_path(g, root, t, i); lemma_path(g, root, t, j);
    let a = path_of(t, i); let b = path_of(t, j); let c = a + b.reverse();
    lemma_join_distinct(t, a, b, i, j); lemma_join_edges(g, a, b);
    assert(c[0] == a[0]); assert(c.last() == b[0]);
}
// all edges at the first k discovered vertices, the root aside, stay inside one branch
#[verifier::opaque] pub open spec fn scanned(g: UG, t: Tree, k: int) -> bool { forall|i: int, w: int| 1 <= i < k && #[trigger] edge(g, t.ord[i], w) && w != t.ord[0] ==> col(t, pos(t, w)) == col(t, i) }
pub proof fn lemma_none(g: UG, root: int, t: Tree)
    requires gok(g), bfs(g, root, t), scanned(g, t, t.ord.len() as int)
    ensures forall|c: Seq<int>| !root_cycle(g, root, c)
{ reveal(bfs); reveal(twf); reveal(scanned);
    assert forall|c: Seq<int>| root_cycle(g, root, c) implies false by {
        let n = t.ord.len() as int;
        assert(edge(g, c[0], c[0 + 1int])); assert(edge(g, t.ord[0], c[1]));
        lemma_has(t, c[1]); let p1 = pos(t, c[1]);
        assert(edge(g, root, c.last())); let l = c.len() - 1; lemma_has(t, c[l]); let pl = pos(t, c[l]);
        assert(c[1] != c[0] && c[l] != c[0] && c[1] != c[l]);
        lemma_chain(g, root, t, c, l);
        assert(t.pp[p1] == 0 && t.pp[pl] == 0); assert(col(t, p1) == p1 - 1 && col(t, pl) == pl - 1);
    }
}
pub proof fn lemma_chain(g: UG, root: int, t: Tree, c: Seq<int>, j: int)
    requires gok(g), bfs(g, root, t), scanned(g, t, t.ord.len() as int), root_cycle(g, root, c), 1 <= j < c.len()
    ensures t.ord.contains(c[j]), col(t, pos(t, c[j])) == col(t, pos(t, c[1]))
    decreases j
{ reveal(bfs); reveal(twf); reveal(scanned);
    if j == 1 { assert(edge(g, c[0], c[0 + 1int])); assert(edge(g, t.ord[0], c[1])); }
    else { lemma_chain(g, root, t, c, j - 1); lemma_has(t, c[j - 1]); let i = pos(t, c[j - 1]); assert(c[j - 1] != c[0] && c[j] != c[0]); assert(edge(g, c[j - 1], c[j - 1 + 1])); assert(edge(g, t.ord[i], c[j])); assert(t.ord.contains(c[j])); }
}
// ----- library
pub uninterp spec fn bfs_tree(g: UG, root: int) -> Tree;
// networkx: bfs_tree holds the edges of a queue-based breadth-first search, in the order they are discovered
#[verifier::external_body] pub proof fn axiom_bfs(g: UG, root: int) requires gok(g), g.nodes.contains(root) ensures bfs(g, root, bfs_tree(g, root)) { }
'''
U, T = 'UG', 'Tree'
def in_tree(self, o, n):
    v = self.one(n); self.ob(f'{o.s}.ord.contains({v.s})', 'vertex is in the tree'); return v
def m_neighbors(self, o, n):
    v = self.one(n); self.ob(f'{o.s}.nodes.contains({v.s})', 'vertex is in the graph'); return E(f'sset_seq({o.s}.adj[{v.s}])', 'Seq<int>')
def c_tree(self, n, want):
    a = self.args(n, ['G', 'source']); g, v = self.ex(a['G']), self.ex(a['source']); self.ob(f'{g.s}.nodes.contains({v.s})', 'root is in the graph')
    return E(f'bfs_tree({g.s}, {v.s})', T)
C = {'__py__': {('method', (U, 'neighbors')): m_neighbors, ('index', U): lambda self, o, sl: (lambda v: (self.ob(f'{o.s}.nodes.contains({v.s})', 'vertex is in the graph'), E(f'sset_seq({o.s}.adj[{v.s}])', 'Seq<int>'))[1])(self.ex(sl)),
    ('method', (T, 'successors')): lambda self, o, n: (lambda v: E(f'succ({o.s}, {v.s})', 'Seq<int>'))(in_tree(self, o, n)), ('method', (T, 'predecessors')): lambda self, o, n: (lambda v: E(f'pred({o.s}, {v.s})', 'Seq<int>'))(in_tree(self, o, n)),
    ('call', 'nx.bfs_tree'): c_tree}}
C['path_to_vertex_in_tree'] = dict(types=[T, 'int'], params=['t', 'target'], returns='Seq<int>', requires=['twf($t)', '$t.ord.contains($target)'], locals=[('path_from_root_to_vertex', 'Seq<int>'), ('current', 'int')],
    ensures=[('the path from the root', '$ret == path_of($t, pos($t, $target))')],
    loops=[dict(kind='while', inv=['twf($t)', '$t.ord.contains($current)', 'path_of($t, pos($t, $current)) + $path_from_root_to_vertex =~= path_of($t, pos($t, $target))'], dec='pos($t, $current)')],
    hints={'loop1.before': 'proof { assert(path_of($t, pos($t, $target)) + $path_from_root_to_vertex =~= path_of($t, pos($t, $target))); }',
           'loop1.body': 'let ghost c0 = $current; let ghost p0 = $path_from_root_to_vertex; proof { reveal(twf); lemma_has($t, $current); assert($t.ord[$t.pp[pos($t, $current)]] == pred($t, $current)[0]); lemma_pos($t, $t.pp[pos($t, $current)]); }',
           'loop1.end': 'proof { let a = path_of($t, $t.pp[pos($t, c0)]); assert(path_of($t, pos($t, c0)) == a.push(c0)); assert(a.push(c0) + p0 =~= a + p0.insert(0, c0)); }',
           'loop1.after': 'let ghost p1 = $path_from_root_to_vertex; proof { reveal(twf); lemma_has($t, $current); assert(seq![$current] + p1 =~= p1.insert(0, $current)); }'})
C['find_cycle_from_bfs'] = dict(types=[U, 'int'], params=['g', 'root'], returns='Seq<int>', requires=['gok($g)', '$g.nodes.contains($root)'],
    locals=[('tree', T), ('queue', 'Seq<int>'), ('vertex_color', 'Map<int, int>'), ('color', 'int'), ('cycle', 'Seq<int>'), ('branch_neighbors', 'Set<int>'), ('vertex', 'int')],
    ensures=[('a returned cycle is a simple cycle through the root', '$ret.len() > 0 ==> tour($g, $root, $ret)'), ('nothing is returned only if there is none', '$ret.len() == 0 ==> forall|c: Seq<int>| !root_cycle($g, $root, c)')],
    loops=[dict(kind='range', inv=['$seq == succ(t, t.ord[0])', '$color == $it', '$queue =~= t.ord.subrange(1, 1 + $it)', 'coloured(t, $vertex_color, 1 + $it)']),
           dict(kind='while', inv=['1 <= at <= t.ord.len()', 'coloured(t, $vertex_color, t.st[at])', '$cycle.len() == 0 ==> $queue =~= t.ord.subrange(at, t.st[at]) && scanned($g, t, at)', '$cycle.len() > 0 ==> $queue.len() == 0 && tour($g, $root, $cycle)'], dec='t.ord.len() - at'),
           dict(kind='range', inv=['$seq == succ(t, t.ord[at])', '$color == col(t, at)', '$queue =~= t.ord.subrange(at + 1, t.st[at] + $it)', 'coloured(t, $vertex_color, t.st[at] + $it)', 'around(t, $branch_neighbors, at, t.st[at] + $it)']),
           dict(kind='range', inv=['coloured(t, $vertex_color, t.st[at + 1])', '!$brk ==> $cycle.len() == 0 && $queue =~= t.ord.subrange(at + 1, t.st[at + 1]) && forall|j: int| 0 <= j < $it ==> col(t, pos(t, #[trigger] $seq[j])) == col(t, at)', '$brk ==> $queue.len() == 0 && $cycle.len() > 0 && tour($g, $root, $cycle)']),
           dict(kind='while', inv=[], dec='$queue.len()')],
    hints={'entry': 'let ghost t = bfs_tree($g, $root); let ghost mut at = 1int; proof { axiom_bfs($g, $root); lemma_basic($g, $root, t); lemma_kids($g, $root, t, 0); lemma_uncoloured(t); }',
           'loop1.body': 'proof { lemma_kid($g, $root, t, 0, $it); assert(t.ord.subrange(1, 1 + $it).push(t.ord[1 + $it]) =~= t.ord.subrange(1, 2 + $it)); lemma_coloured(t, $vertex_color, 1 + $it); }',
           'loop2.before': 'proof { lemma_scan_start($g, t); }',
           'loop2.body': 'proof { assert(at < t.ord.len()); lemma_kids($g, $root, t, at); assert($queue[0] == t.ord[at]); lemma_at($g, $root, t, at); coloured_get(t, $vertex_color, t.st[at], at); }',
           'loop3.before': 'proof { lemma_around(t, $branch_neighbors, at); }',
           'loop3.body': 'proof { let q = t.st[at] + $it; lemma_kid($g, $root, t, at, $it); lemma_around_push(t, $branch_neighbors, at, q); assert(t.ord.subrange(at + 1, q).push(t.ord[q]) =~= t.ord.subrange(at + 1, q + 1)); lemma_coloured(t, $vertex_color, q); }',
           'loop4.before': 'let ghost others = sset_seq($g.adj[$vertex]).to_set().difference($branch_neighbors); proof { axiom_sset_seq($g.adj[$vertex]); axiom_sset_seq(others); lemma_set_seq($seq, others); }',
           'loop4.body': 'proof { let w = $seq[$it]; assert($seq.contains(w)); lemma_neighbor($g, $root, t, $branch_neighbors, at, w); coloured_get(t, $vertex_color, t.st[at + 1], pos(t, w)); }',
           'loop4.end': 'proof { if $brk { let a = path_of(t, at); let b = path_of(t, pos(t, $seq[$it])); assert($cycle =~= a + b.reverse()); } }',
           'loop4.after': '''proof { if $cycle.len() == 0 { assert forall|w: int| #[trigger] edge($g, t.ord[at], w) && !$branch_neighbors.contains(w) implies col(t, pos(t, w)) == col(t, at) by { assert($seq.contains(w)); let j = choose|j: int| 0 <= j < $seq.len() && $seq[j] == w; assert(col(t, pos(t, $seq[j])) == col(t, at)); } lemma_scan($g, $root, t, $branch_neighbors, at); }
                 at = at + 1; }''',
           'loop2.after': 'proof { if $cycle.len() == 0 { if at < t.ord.len() { lemma_kids($g, $root, t, at); } assert(at == t.ord.len()); lemma_none($g, $root, t); } else { reveal(tour); } }'})
PRELUDE += r'''
pub proof fn lemma_st(t: Tree, a: int, b: int) requires twf(t), 0 <= a <= b <= t.ord.len() ensures t.st[a] <= t.st[b] decreases b - a { reveal(twf); if a < b { lemma_st(t, a, b - 1); assert(t.st[b - 1] <= t.st[b - 1 + 1]); } }
pub proof fn lemma_set_seq(q: Seq<int>, s: Set<int>) requires q.to_set() == s ensures forall|x: int| #[trigger] q.contains(x) <==> s.contains(x) { assert forall|x: int| #[trigger] q.contains(x) <==> s.contains(x) by { assert(q.to_set().contains(x) <==> q.contains(x)); } }
// the first m discovered vertices, the root aside, carry the number of their branch
#[verifier::opaque] pub open spec fn coloured(t: Tree, c: Map<int, int>, m: int) -> bool { forall|i: int| 1 <= i < m ==> c.dom().contains(#[trigger] t.ord[i]) && c[t.ord[i]] == col(t, i) }
pub proof fn coloured_get(t: Tree, c: Map<int, int>, m: int, i: int) requires coloured(t, c, m), 1 <= i < m ensures c.dom().contains(t.ord[i]), c[t.ord[i]] == col(t, i) { reveal(coloured); }
pub proof fn lemma_uncoloured(t: Tree) ensures coloured(t, Map::empty(), 1) { reveal(coloured); }
pub proof fn lemma_coloured(t: Tree, c: Map<int, int>, m: int) requires coloured(t, c, m), twf(t), 1 <= m < t.ord.len() ensures coloured(t, c.insert(t.ord[m], col(t, m)), m + 1) { reveal(coloured); reveal(twf); }
// the parent of the k-th vertex and those of its children that come before position m
#[verifier::opaque] pub open spec fn around(t: Tree, s: Set<int>, k: int, m: int) -> bool { forall|u: int| #[trigger] s.contains(u) <==> u == t.ord[t.pp[k]] || exists|q: int| t.st[k] <= q < m && #[trigger] t.ord[q] == u }
pub proof fn lemma_around(t: Tree, s: Set<int>, k: int) requires s == Set::<int>::empty().insert(t.ord[t.pp[k]]) ensures around(t, s, k, t.st[k]) { reveal(around); }
pub proof fn lemma_around_push(t: Tree, s: Set<int>, k: int, m: int) requires around(t, s, k, m), t.st[k] <= m ensures around(t, s.insert(t.ord[m]), k, m + 1)
{ reveal(around); let s2 = s.insert(t.ord[m]); assert forall|u: int| #[trigger] s2.contains(u) <==> u == t.ord[t.pp[k]] || exists|q: int| t.st[k] <= q < m + 1 && #[trigger] t.ord[q] == u by { if s.contains(u) && u != t.ord[t.pp[k]] { let q = choose|q: int| t.st[k] <= q < m && #[trigger] t.ord[q] == u; assert(t.ord[q] == u); }
  if exists|q: int| t.st[k] <= q < m + 1 && #[trigger] t.ord[q] == u { let q = choose|q: int| t.st[k] <= q < m + 1 && #[trigger] t.ord[q] == u; if q < m { assert(s.contains(u)); } } } }
pub proof fn lemma_basic(g: UG, root: int, t: Tree) requires bfs(g, root, t) ensures t.ord.len() >= 1, t.ord[0] == root, t.st[0] == 1, pos(t, root) == 0, t.ord.contains(root), t.st[t.ord.len() as int] == t.ord.len(), twf(t) { reveal(bfs); reveal(twf); lemma_pos(t, 0); assert(t.ord.contains(t.ord[0])); }
pub proof fn lemma_kids(g: UG, root: int, t: Tree, k: int) requires bfs(g, root, t), 0 <= k < t.ord.len() ensures pos(t, t.ord[k]) == k, k < t.st[k] <= t.st[k + 1] <= t.ord.len(), succ(t, t.ord[k]).len() == t.st[k + 1] - t.st[k] { reveal(bfs); reveal(twf); lemma_pos(t, k); assert(k < t.st[k]); }
pub proof fn lemma_kid(g: UG, root: int, t: Tree, k: int, i: int) requires bfs(g, root, t), 0 <= k < t.ord.len(), 0 <= i < succ(t, t.ord[k]).len()
    ensures ({ let q = t.st[k] + i; 1 <= q < t.ord.len() && succ(t, t.ord[k])[i] == t.ord[q] && t.pp[q] == k && col(t, q) == (if k == 0 { q - 1 } else { col(t, k) }) })
{ lemma_kids(g, root, t, k); reveal(bfs); reveal(twf); assert(k < t.st[k]); let q = t.st[k] + i; assert(t.st[k] <= q < t.st[k + 1]); assert(t.pp[q] == k); }
pub proof fn lemma_at(g: UG, root: int, t: Tree, k: int) requires bfs(g, root, t), 1 <= k < t.ord.len() ensures t.ord.contains(t.ord[k]), g.nodes.contains(t.ord[k]), 0 <= t.pp[k] < k, pred(t, t.ord[k]) == seq![t.ord[t.pp[k]]] { reveal(bfs); reveal(twf); lemma_pos(t, k); assert(t.pp[k] < k); }
pub proof fn lemma_scan_start(g: UG, t: Tree) ensures scanned(g, t, 1) { reveal(scanned); }
pub proof fn lemma_neighbor(g: UG, root: int, t: Tree, s: Set<int>, k: int, w: int)
    requires gok(g), bfs(g, root, t), 1 <= k < t.ord.len(), around(t, s, k, t.st[k + 1]), edge(g, t.ord[k], w), !s.contains(w)
    ensures t.ord.contains(w), ({ let q = pos(t, w); 1 <= q < t.st[k + 1] && t.ord[q] == w && (col(t, q) != col(t, k) ==> tour(g, root, path_of(t, k) + path_of(t, q).reverse()) && path_of(t, k).len() >= 2) })
{ reveal(twf);
    reveal(around); lemma_at(g, root, t, k); lemma_basic(g, root, t);
    assert(t.ord.contains(w) && (w != root ==> t.pp[pos(t, w)] <= k)) by { reveal(bfs); reveal(twf); }
    lemma_has(t, w); let q = pos(t, w);
    if w == root { assert(edge(g, t.ord[0], t.ord[k])); lemma_pos(t, k); assert(t.pp[k] <= 0) by { reveal(bfs); reveal(twf); } }
    assert(t.pp[q] < q); assert(t.st[t.pp[q]] <= q < t.st[t.pp[q] + 1]); lemma_st(t, t.pp[q] + 1, k + 1);
    if col(t, q) != col(t, k) { lemma_join(g, root, t, k, q); lemma_path(g, root, t, k); }
}
pub proof fn lemma_scan(g: UG, root: int, t: Tree, s: Set<int>, k: int)
    requires gok(g), bfs(g, root, t), 1 <= k < t.ord.len(), around(t, s, k, t.st[k + 1]), scanned(g, t, k), forall|w: int| #[trigger] edge(g, t.ord[k], w) && !s.contains(w) ==> col(t, pos(t, w)) == col(t, k)
    ensures scanned(g, t, k + 1)
{ reveal(twf);
    reveal(scanned); reveal(around); lemma_basic(g, root, t); lemma_at(g, root, t, k);
    assert forall|i: int, w: int| 1 <= i < k + 1 && #[trigger] edge(g, t.ord[i], w) && w != t.ord[0] implies col(t, pos(t, w)) == col(t, i) by { if i == k && s.contains(w) {
        if w == t.ord[t.pp[k]] { lemma_pos(t, t.pp[k]); }
        else { let q = choose|q: int| t.st[k] <= q < t.st[k + 1] && #[trigger] t.ord[q] == w; assert(k < t.st[k] <= t.st[k + 1] <= t.ord.len()); lemma_pos(t, q); assert(t.pp[q] == k); } } }
}
'''
UNITS = [Unit('bfs', kind='py', files=['pctsp/algorithms/heuristic.py'], contracts=C, prelude=PRELUDE, structs={U: [('nodes', 'Seq<int>'), ('adj', 'Map<int, Set<int>>')], T: [('ord', 'Seq<int>'), ('st', 'Seq<int>'), ('pp', 'Seq<int>')]},
              roots=['path_to_vertex_in_tree', 'find_cycle_from_bfs'])]
RUNTIME = [dict(kind='py', driver='c23.py', procs=3, rule='random graphs up to 9 vertices (trees, cacti, cycles reached by a path, necklaces, dense, several components, now and then a self loop) compared with brute-force search for a simple cycle through the root; the assumed contract of bfs_tree is checked on each; non-trivial: a cycle exists')]
ASSUMPTIONS = ['networkx: bfs_tree holds the edges of a queue-based breadth-first search, successors in the order of discovery (evaluated on every generated graph); neighbors yields each neighbour once']
