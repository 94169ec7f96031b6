from ..run import Unit
from ..ir import E, Unsupported
from . import tree
from .tree import PRE, POST
import ast
PRELUDE = tree.PRELUDE + r'''
// every vertex once, each heading its own contiguous subtree
pub open spec fn good_preorder(s: Succ, q: Seq<int>) -> bool {
    &&& q.no_duplicates() &&& forall|v: int| s.dom().contains(v) <==> #[trigger] q.contains(v)
    &&& forall|v: int| #[trigger] s.dom().contains(v) ==> exists|i: int, n: int| #[trigger] heads(s, q, v, i, n) }
pub open spec fn heads(s: Succ, q: Seq<int>, v: int, i: int, n: int) -> bool { 0 <= i < i + n <= q.len() && q[i] == v && forall|x: int| #[trigger] q.subrange(i, i + n).contains(x) <==> reach(s, v, x) }
pub open spec fn good_postorder(s: Succ, q: Seq<int>) -> bool {
    &&& q.no_duplicates() &&& forall|v: int| s.dom().contains(v) <==> #[trigger] q.contains(v)
    &&& forall|v: int| #[trigger] s.dom().contains(v) ==> exists|i: int, n: int| #[trigger] closes(s, q, v, i, n) }
pub open spec fn closes(s: Succ, q: Seq<int>, v: int, i: int, n: int) -> bool { 0 <= i < i + n <= q.len() && q[i + n - 1] == v && forall|x: int| #[trigger] q.subrange(i, i + n).contains(x) <==> reach(s, v, x) }
pub proof fn lemma_reach_iff(s: Succ, v: int) requires forest(s), s.dom().contains(v) ensures forall|x: int| #[trigger] pre_seq(s, v).contains(x) <==> reach(s, v, x)
{ assert forall|x: int| #[trigger] pre_seq(s, v).contains(x) <==> reach(s, v, x) by {
    if pre_seq(s, v).contains(x) { let p = lemma_in_reach(s, v, x); lemma_reach_put(s, p, v, x); }
    if reach(s, v, x) { let p = lemma_reach_get(s, v, x); lemma_reach_in(s, v, p); assert(p[p.len() - 1] == x); } } }
pub proof fn lemma_good(s: Succ, r: int)
    requires rooted_tree(s, r)
    ensures good_preorder(s, pre_seq(s, r)), good_postorder(s, post_seq(s, r))
{
    let q = pre_seq(s, r); let w = post_seq(s, r); lemma_nodup(s, r); lemma_post(s, r); lemma_reach_iff(s, r);
    assert forall|v: int| s.dom().contains(v) <==> #[trigger] q.contains(v) by { if s.dom().contains(v) { assert(reach(s, r, v)); } if q.contains(v) { lemma_low(s, r, v); } }
    assert forall|v: int| s.dom().contains(v) <==> #[trigger] w.contains(v) by { assert(q.contains(v) <==> w.contains(v)); }
    assert forall|v: int| #[trigger] s.dom().contains(v) implies (exists|i: int, n: int| #[trigger] heads(s, q, v, i, n)) && (exists|i: int, n: int| #[trigger] closes(s, w, v, i, n)) by {
        assert(q.contains(v)); lemma_blocks(s, r, v); lemma_reach_iff(s, v); lemma_post(s, v); lemma_self(s, v);
        let b = pre_seq(s, v); let i = choose|i: int| 0 <= i && i + b.len() <= q.len() && #[trigger] q.subrange(i, i + b.len()) == b; assert(q.subrange(i, i + b.len())[0] == q[i]); assert(heads(s, q, v, i, b.len() as int));
        let c = post_seq(s, v); let j = choose|j: int| 0 <= j && j + c.len() <= w.len() && #[trigger] w.subrange(j, j + c.len()) == c; assert(w.subrange(j, j + c.len()).last() == w[j + c.len() - 1]); assert(closes(s, w, v, j, c.len() as int));
    }
}
pub proof fn lemma_numbers_cat(n: Map<int, Map<int, int>>, m: Map<int, Map<int, int>>, k: int, a: Seq<int>, b: Seq<int>, o: int)
    requires numbers(n, k, a, o), numbers(m, k, b, o + a.len()), (a + b).no_duplicates(), only_at(n, m, b), n.dom() =~= m.dom()
    ensures numbers(m, k, a + b, o)
{
    assert forall|i: int| 0 <= i < (a + b).len() implies has_num(m, k, #[trigger] (a + b)[i]) && m[(a + b)[i]][k] == o + i by {
        if i < a.len() { assert((a + b)[i] == a[i]); if b.contains(a[i]) { let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert((a + b)[a.len() + j] == (a + b)[i]); } }
        else { assert((a + b)[i] == b[i - a.len()]); } }
}
pub proof fn lemma_only_cat(n0: Map<int, Map<int, int>>, n1: Map<int, Map<int, int>>, n2: Map<int, Map<int, int>>, k: int, a: Seq<int>, b: Seq<int>)
    requires only_key(n0, n1, k), only_key(n1, n2, k), only_at(n0, n1, a), only_at(n1, n2, b)
    ensures only_key(n0, n2, k), only_at(n0, n2, a + b)
{
    lemma_in_cat(a, b);
    assert forall|v: int| #[trigger] n0.dom().contains(v) implies n2[v].remove(k) =~= n0[v].remove(k) by { assert(n1.dom().contains(v)); }
    assert forall|v: int| #[trigger] n0.dom().contains(v) && !(a + b).contains(v) implies n2[v] == n0[v] by { assert(n1.dom().contains(v)); }
}
pub proof fn lemma_set_one(n: Map<int, Map<int, int>>, k: int, v: int, x: int)
    requires n.dom().contains(v)
    ensures only_key(n, n.insert(v, n[v].insert(k, x)), k), only_at(n, n.insert(v, n[v].insert(k, x)), seq![v]), numbers(n.insert(v, n[v].insert(k, x)), k, seq![v], x), n.insert(v, n[v].insert(k, x)).dom() =~= n.dom()
{
    lemma_in_one(v); let m = n.insert(v, n[v].insert(k, x));
    assert forall|w: int| #[trigger] n.dom().contains(w) implies m[w].remove(k) =~= n[w].remove(k) by { if w == v { assert(n[v].insert(k, x).remove(k) =~= n[v].remove(k)); } }
}
pub proof fn lemma_set_all(n: Map<int, Map<int, int>>, k: int, x: int) ensures only_key(n, set_all(n, k, x), k)
{ assert forall|v: int| #[trigger] n.dom().contains(v) implies set_all(n, k, x)[v].remove(k) =~= n[v].remove(k) by {} }
'''
def h_set_attr(self, n, want):
    a = self.args(n, ['G', 'values', 'name'])
    g = self.ex(a['G']); v = self.ex(a['values']); k = self.ex(a['name'])
    if g.ty != 'Tree' or v.ty != 'int' or k.ty != 'Str' or g.lv is None: raise Unsupported('set_node_attributes')
    lv = g.lv.sub(('fld', 'nodes', 'Tree'), 'Map<int, Map<Str, int>>')
    self.write(lv, f'set_all({lv.read()}, {k.s}, {v.s})'); return E('0int', 'unit')
def h_succ(self, o, n):
    v = self.ex(n.args[0])
    self.ob(f'{o.s}.succ.dom().contains({v.s})', 'vertex is in the tree'); return E(f'{o.s}.succ[{v.s}]', 'Seq<int>')
STRUCTS = {'Tree': [('succ', 'Map<int, Seq<int>>'), ('nodes', 'Map<int, Map<Str, int>>')]}
PY = {('call', 'nx.set_node_attributes'): h_set_attr, ('method', ('Tree', 'successors')): h_succ}
def rec(kind, key):
    q = f'{kind}_seq($t.succ, $v)'
    pre_first = kind == 'pre'
    kids = f'{kind}_kids($t0s, $v, $it)'
    sofar = f'(seq![$v] + pre_kids($in_t.succ, $v, $it))' if pre_first else 'post_kids($in_t.succ, $v, $it)'
    L = '$in_order.len() as int'
    inv = ['$seq == $in_t.succ[$v]', '$t.succ == $in_t.succ', f'$order == $in_order + {sofar}', f'numbers($t.nodes, {key}, {sofar}, {L})',
           f'only_key($in_t.nodes, $t.nodes, {key})', f'only_at($in_t.nodes, $t.nodes, {sofar})']
    lem = '''proof { lemma_height($in_t.succ); assert(child($in_t.succ, $v, $seq[$it])); assert(height($in_t.succ)($seq[$it]) < height($in_t.succ)($v)); lemma_nodup($in_t.succ, $v); }
      let ghost n0 = $t.nodes; let ghost o0 = $order;'''
    end = f'''proof {{ let c = $seq[$it - 1]; let a = {sofar.replace('$it', '$it - 1')}; let b = {kind}_seq($in_t.succ, c);
        assert({sofar} =~= a + b); lemma_kids_nodup($in_t.succ, $v, $it); lemma_post_kids($in_t.succ, $v, $it); lemma_in_one($v);
        {"lemma_nodup_cat(seq![$v], pre_kids($in_t.succ, $v, $it));" if pre_first else ""}
        lemma_numbers_cat(n0, $t.nodes, {key}, a, b, {L}); lemma_only_cat($in_t.nodes, n0, $t.nodes, {key}, a, b); assert($order =~= $in_order + {sofar}); }}'''
    return inv, lem, end
def rec_contract(kind, key):
    inv, lem, end = rec(kind, key)
    h = {'loop1.end': end}
    L = '$in_order.len() as int'
    if kind == 'pre':
        h['entry'] = 'let ghost in_t = $t; let ghost in_order = $order;'
        h['loop1.before'] = f'proof {{ lemma_height(in_t.succ); lemma_set_one(in_t.nodes, {key}, $v, in_order.len() as int); assert(seq![$v] + pre_kids(in_t.succ, $v, 0) =~= seq![$v]); assert($order =~= in_order + seq![$v]); }}'
        h['loop1.after'] = f'proof {{ lemma_height(in_t.succ); }}'
    else:
        h['entry'] = 'let ghost in_t = $t; let ghost in_order = $order;'
        h['loop1.before'] = f'proof {{ lemma_height(in_t.succ); assert(post_kids(in_t.succ, $v, 0) =~= Seq::<int>::empty()); assert($order =~= in_order + Seq::<int>::empty()); }}'
        h['loop1.after'] = f'let ghost n1 = $t.nodes;'
        h['return'] = f'''proof {{ lemma_height(in_t.succ); let a = post_kids(in_t.succ, $v, in_t.succ[$v].len() as int); lemma_post(in_t.succ, $v); lemma_set_one(n1, {key}, $v, in_order.len() as int + a.len());
           assert(post_seq(in_t.succ, $v) =~= a + seq![$v]); lemma_numbers_cat(n1, $t.nodes, {key}, a, seq![$v], in_order.len() as int); lemma_only_cat(in_t.nodes, n1, $t.nodes, {key}, a, seq![$v]); assert($order =~= in_order + post_seq(in_t.succ, $v)); }}'''
    h['loop1.body'] = lem
    fix = lambda x: x.replace('$in_t', 'in_t').replace('$in_order', 'in_order')
    return dict(types=['Tree', 'int', 'Seq<int>'], params=['t', 'v', 'order'], returns='unit', mutates=['t', 'order'], decreases='height($t.succ)($v)',
        requires=['forest($t.succ)', '$t.succ.dom().contains($v)', 'same_nodes($t.nodes, $t.succ)'],
        ensures=[('the vertices of the subtree are appended in order', f'$out(order) == $order + {kind}_seq($t.succ, $v)'),
                 ('their numbers are their positions', f'numbers($out(t).nodes, {key}, {kind}_seq($t.succ, $v), $order.len() as int)'),
                 ('the tree itself is unchanged', '$out(t).succ == $t.succ'),
                 ('no other attribute and no other vertex is touched', f'only_key($t.nodes, $out(t).nodes, {key}) && only_at($t.nodes, $out(t).nodes, {kind}_seq($t.succ, $v))')],
        loops=[dict(kind='range', inv=[fix(x) for x in inv] + ['forest(in_t.succ)', 'in_t.succ.dom().contains($v)', 'same_nodes(in_t.nodes, in_t.succ)'])], hints={k: fix(v) for k, v in h.items()})
def top_contract(kind, key):
    return dict(types=['Tree', 'int'], params=['t', 'root'], returns='Seq<int>', mutates=['t'], locals=[('order', 'Seq<int>')],
        requires=['rooted_tree($t.succ, $root)', 'same_nodes($t.nodes, $t.succ)'],
        ensures=[('every vertex once, subtrees contiguous', f'good_{kind}order($t.succ, $ret)'), ('the order of the child lists', f'$ret == {kind}_seq($t.succ, $root)'),
                 ('the stored numbers are the positions', f'numbers($out(t).nodes, {key}, $ret, 0)'), ('the tree and all other attributes are unchanged', f'$out(t).succ == $t.succ && only_key($t.nodes, $out(t).nodes, {key})')],
        hints={'entry': 'let ghost in_t = $t;\nproof { lemma_good(in_t.succ, $root); lemma_set_all(in_t.nodes, ' + key + ', 9223372036854775807); }',
               'return': f'proof {{ let n1 = set_all(in_t.nodes, {key}, 9223372036854775807); assert($retval =~= {kind}_seq(in_t.succ, $root)); assert forall|v: int| #[trigger] in_t.nodes.dom().contains(v) implies $t.nodes[v].remove({key}) =~= in_t.nodes[v].remove({key}) by {{ assert(n1.dom().contains(v)); }} }}'})
C = {
 '__py__': PY,
 'preorder_recursive': rec_contract('pre', PRE), 'postorder_recursive': rec_contract('post', POST),
 'preorder': top_contract('pre', PRE), 'postorder': top_contract('post', POST),
 'is_ancestor': dict(types=['Tree', 'int', 'int'], params=['t', 'a', 'd'], returns='bool',
    requires=['exists|z: int| #[trigger] numbered($t, z)', '$t.succ.dom().contains($a)', '$t.succ.dom().contains($d)'],
    ensures=[('yes exactly when the first vertex lies on the tree path to the second', 'forall|z: int| #[trigger] numbered($t, z) ==> ($ret <==> on_path($t.succ, z, $a, $d))'), ('inputs unchanged', '$out(t) == $t')],
    hints={'entry': 'proof { assert forall|z: int| #[trigger] numbered($t, z) implies has_num($t.nodes, ' + PRE + ', $a) by { lemma_ancestor($t, z, $a, $d); } let r0 = choose|z: int| #[trigger] numbered($t, z); lemma_ancestor($t, r0, $a, $d); }',
           'return': 'proof { assert forall|z: int| #[trigger] numbered($t, z) implies ($retval <==> on_path($t.succ, z, $a, $d)) by { lemma_ancestor($t, z, $a, $d); } }'}),
}
UNITS = [Unit('traversals', kind='py', files=['pctsp/suurballe/suurballe.py', 'pctsp/constants/constants.py'], contracts=C, prelude=PRELUDE, structs=STRUCTS,
              roots=['preorder', 'postorder', 'is_ancestor'])]
RUNTIME = [dict(kind='py', driver='c19.py', rule='random rooted trees up to 12 vertices with arbitrary ids and leftover attributes; non-trivial: at least two vertices')]
ASSUMPTIONS = ['networkx: DiGraph.successors yields the out-neighbours in a fixed order, set_node_attributes stores one value for every vertex', 'the recursion limit of the interpreter is not reached']
