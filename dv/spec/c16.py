"""Per-node statistics of the node event handler."""
from ..run import Unit
from .. import scip
PRELUDE = scip.PRELUDE + r'''
pub open spec fn zero_row() -> NodeStats { NodeStats { lower_bound: 0real, node_id: 0, num_sec_disjoint_tour: 0, num_sec_maxflow_mincut: 0, num_cost_cover_disjoint_paths: 0, num_cost_cover_shortest_paths: 0, num_cost_cover_steiner_tree: 0, parent_id: 0, upper_bound: 0real } }
pub open spec fn fresh_row(id: int, lower: real, parent: int, upper: real) -> NodeStats { NodeStats { lower_bound: lower, node_id: id, num_sec_disjoint_tour: 0, num_sec_maxflow_mincut: 0, num_cost_cover_disjoint_paths: 0, num_cost_cover_shortest_paths: 0, num_cost_cover_steiner_tree: 0, parent_id: parent, upper_bound: upper } }
pub open spec fn row_for(s: Scip, node: int) -> NodeStats { fresh_row(node_number(node), node_lower(node), if node_number(node) > 1 { node_number(node_parent(node)) } else { 1 }, s.upper) }
// ---- what one event does to the rows
pub open spec fn put_row(rows: Seq<NodeStats>, row: NodeStats) -> Seq<NodeStats> { (if rows.len() < row.node_id { resize_seq(rows, row.node_id, zero_row()) } else { rows }).update(row.node_id - 1, row) }
pub open spec fn has_row(rows: Seq<NodeStats>, id: int) -> bool { 1 <= id <= rows.len() && rows[id - 1].node_id == id }
pub open spec fn step_visit(rows: Seq<NodeStats>, row: NodeStats) -> Seq<NodeStats> { if has_row(rows, row.node_id) { rows } else { put_row(rows, row) } }
pub open spec fn step_disjoint(rows: Seq<NodeStats>, id: int, c: int) -> Seq<NodeStats> { rows.update(id - 1, NodeStats { num_sec_disjoint_tour: rows[id - 1].num_sec_disjoint_tour + c, ..rows[id - 1] }) }
pub open spec fn step_flow(rows: Seq<NodeStats>, id: int, c: int) -> Seq<NodeStats> { rows.update(id - 1, NodeStats { num_sec_maxflow_mincut: rows[id - 1].num_sec_maxflow_mincut + c, ..rows[id - 1] }) }
// ---- histories: any sequence of events and cut additions, each at the node current at that time
pub struct Ev { pub kind: int, pub row: NodeStats, pub c: int }   // kind 0: node event, 1: disjoint-tour cuts, 2: max-flow cuts; row: the node's fresh row
pub open spec fn visited(h: Seq<Ev>, k: int, id: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] h[j]).kind == 0 && h[j].row.node_id == id }
pub open spec fn hist_ok(h: Seq<Ev>, k: int) -> bool { forall|j: int| 0 <= j < k ==> (#[trigger] h[j]).row.node_id >= 1 && h[j].row == fresh_row(h[j].row.node_id, h[j].row.lower_bound, h[j].row.parent_id, h[j].row.upper_bound) && 0 <= h[j].kind <= 2 && (h[j].kind > 0 ==> visited(h, j, h[j].row.node_id)) }
pub open spec fn run(h: Seq<Ev>, k: int) -> Seq<NodeStats> decreases k {
    if k <= 0 { Seq::empty() } else { let e = h[k - 1]; let p = run(h, k - 1); if e.kind == 0 { step_visit(p, e.row) } else if e.kind == 1 { step_disjoint(p, e.row.node_id, e.c) } else { step_flow(p, e.row.node_id, e.c) } }
}
/// cuts of one kind added while a node was current
pub open spec fn cuts(h: Seq<Ev>, k: int, kind: int, id: int) -> int decreases k { if k <= 0 { 0 } else { cuts(h, k - 1, kind, id) + (if h[k - 1].kind == kind && h[k - 1].row.node_id == id { h[k - 1].c } else { 0 }) } }
pub open spec fn all_cuts(h: Seq<Ev>, k: int, kind: int) -> int decreases k { if k <= 0 { 0 } else { all_cuts(h, k - 1, kind) + (if h[k - 1].kind == kind { h[k - 1].c } else { 0 }) } }
pub open spec fn col_d(rows: Seq<NodeStats>, k: int) -> int decreases k { if k <= 0 { 0 } else { col_d(rows, k - 1) + rows[k - 1].num_sec_disjoint_tour } }
pub open spec fn col_f(rows: Seq<NodeStats>, k: int) -> int decreases k { if k <= 0 { 0 } else { col_f(rows, k - 1) + rows[k - 1].num_sec_maxflow_mincut } }
pub proof fn col_update(a: Seq<NodeStats>, b: Seq<NodeStats>, i: int, d: int, f: int, k: int)
    requires 0 <= i < a.len(), a.len() == b.len(), 0 <= k <= a.len(), forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] a[j] == b[j], b[i].num_sec_disjoint_tour == a[i].num_sec_disjoint_tour + d, b[i].num_sec_maxflow_mincut == a[i].num_sec_maxflow_mincut + f
    ensures col_d(b, k) == col_d(a, k) + (if i < k { d } else { 0 }), col_f(b, k) == col_f(a, k) + (if i < k { f } else { 0 })
    decreases k
{ if k > 0 { col_update(a, b, i, d, f, k - 1); } }
pub proof fn col_grow(a: Seq<NodeStats>, b: Seq<NodeStats>, k: int)
    requires 0 <= k <= b.len(), a.len() <= b.len(), forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == (if j < a.len() { a[j] } else { zero_row() })
    ensures col_d(b, k) == col_d(a, if k < a.len() { k } else { a.len() as int }), col_f(b, k) == col_f(a, if k < a.len() { k } else { a.len() as int })
    decreases k
{ if k > 0 { col_grow(a, b, k - 1); } }
pub open spec fn row_ok(h: Seq<Ev>, k: int, rows: Seq<NodeStats>, id: int) -> bool {
    if visited(h, k, id) { id <= rows.len() && rows[id - 1].node_id == id && rows[id - 1].num_sec_disjoint_tour == cuts(h, k, 1, id) && rows[id - 1].num_sec_maxflow_mincut == cuts(h, k, 2, id) } else { cuts(h, k, 1, id) == 0 && cuts(h, k, 2, id) == 0 && (id <= rows.len() ==> rows[id - 1] == zero_row()) }
}
/// whatever the history: every visited node keeps its own row with the cuts added while it was current; the columns sum to the totals
pub proof fn rows_survive(h: Seq<Ev>, k: int)
    requires 0 <= k <= h.len(), hist_ok(h, k)
    ensures forall|id: int| 1 <= id ==> #[trigger] row_ok(h, k, run(h, k), id), col_d(run(h, k), run(h, k).len() as int) == all_cuts(h, k, 1), col_f(run(h, k), run(h, k).len() as int) == all_cuts(h, k, 2)
    decreases k
{
    if k > 0 {
        rows_survive(h, k - 1); let e = h[k - 1]; let id0 = e.row.node_id; let p = run(h, k - 1); let q = run(h, k);
        assert(row_ok(h, k - 1, p, id0));
        assert forall|id: int| visited(h, k, id) == (visited(h, k - 1, id) || (e.kind == 0 && id == id0)) by {
            if visited(h, k, id) { let j = choose|j: int| 0 <= j < k && (#[trigger] h[j]).kind == 0 && h[j].row.node_id == id; if j < k - 1 { assert(visited(h, k - 1, id)); } }
            if e.kind == 0 && id == id0 { assert(h[k - 1].kind == 0); }
        }
        assert(e.kind > 0 ==> visited(h, k - 1, id0));
        if e.kind == 0 && !has_row(p, id0) {
            let m = if p.len() < id0 { resize_seq(p, id0, zero_row()) } else { p };
            col_grow(p, m, m.len() as int); col_update(m, q, id0 - 1, 0, 0, q.len() as int);
        } else if e.kind == 1 { col_update(p, q, id0 - 1, e.c, 0, q.len() as int); } else if e.kind == 2 { col_update(p, q, id0 - 1, 0, e.c, q.len() as int); }
        assert forall|id: int| 1 <= id implies #[trigger] row_ok(h, k, q, id) by { assert(row_ok(h, k - 1, p, id)); }
    }
}
'''
H = 'NodeEventhdlr'
M = dict(this=H, cls=H)
R, O = '$this.node_stats_', '$out(this).node_stats_'
ID = 'node_number($scip.current)'
HAS = f'1 <= {ID} <= {R}.len()'
C = {**scip.BASE,
 'currentNodeId': [dict(params=['scip'], requires=[f'{ID} >= 0'], ensures=[f'$ret == {ID}', '$out(scip) == $scip'])],
 'newStatsForNode': [dict(params=['scip', 'node'], requires=['node_number($node) >= 1', 'node_number($node) > 1 ==> node_number(node_parent($node)) >= 1'], ensures=[('a fresh row of the node: its id, nothing counted', '$ret == row_for($scip, $node)'), '$out(scip) == $scip'])],
 'addCurrentNode': [dict(M, params=['this', 'scip'], requires=[f'{ID} >= 1', f'{ID} > 1 ==> node_number(node_parent($scip.current)) >= 1'], ensures=[('the fresh row is put at the place of the node, other rows stay', f'{O} == put_row({R}, row_for($scip, $scip.current))'), '$out(scip) == $scip'])],
 'scip_exec': [dict(M, params=['this', 'scip', 'eventhdlr', 'event', 'eventdata'], ptypes={'eventhdlr': 'int', 'event': 'int', 'eventdata': 'int'}, requires=[f'{ID} >= 1', f'{ID} > 1 ==> node_number(node_parent($scip.current)) >= 1'],
    ensures=['$ret == 1', ('a node event gives the node a row unless it has one', f'{O} == step_visit({R}, row_for($scip, $scip.current))'), '$out(scip) == $scip'])],
 'incrementNumSecDisjointTour': [dict(M, params=['this', 'scip', 'n_cuts'], requires=[HAS, '$n_cuts >= 0', f'{R}[{ID} - 1].num_sec_disjoint_tour >= 0'], ensures=[('the cuts are added to the row of the current node only', f'{O} == step_disjoint({R}, {ID}, $n_cuts)'), '$out(scip) == $scip'])],
 'incrementNumSecMaxflowMincut': [dict(M, params=['this', 'scip', 'n_cuts'], requires=[HAS, '$n_cuts >= 0', f'{R}[{ID} - 1].num_sec_maxflow_mincut >= 0'], ensures=[('the cuts are added to the row of the current node only', f'{O} == step_flow({R}, {ID}, $n_cuts)'), '$out(scip) == $scip'])],
 'getNodeStatsVector': [dict(M, params=['this'], ensures=[('all rows', f'$ret == {R}'), '$out(this) == $this'])],
 'getNodeStats': [dict(M, sig=lambda t: t[-1] == 'int', emit='node_stats_of', params=['this', 'node'], requires=[f'1 <= node_number($node) <= {R}.len()'], ensures=[('the row of the node', f'$ret == {R}[node_number($node) - 1]'), '$out(this) == $this']),
                  dict(M, sig=lambda t: t[-1] == 'Scip', emit='node_stats_current', params=['this', 'scip'], requires=[HAS], ensures=[('the row of the current node', f'$ret == {R}[{ID} - 1]'), '$out(this) == $this'])],
 'numDisjointTourSECs': [dict(params=['node_stats'], ensures=[('the sum of the column', '$ret == col_d($node_stats, $node_stats.len() as int)'), '$out(node_stats) == $node_stats'], locals=[('total', 'int')], loops=[dict(kind='range', inv=['$total == col_d($node_stats, $it as int)', '$seq == $node_stats'])])],
 'numMaxflowMincutSECs': [dict(params=['node_stats'], ensures=[('the sum of the column', '$ret == col_f($node_stats, $node_stats.len() as int)'), '$out(node_stats) == $node_stats'], locals=[('total', 'int')], loops=[dict(kind='range', inv=['$total == col_f($node_stats, $it as int)', '$seq == $node_stats'])])],
}
TU = '#include <objscip/objscip.h>\n#include "../src/event_handlers.cpp"\n#include "../src/stats.cpp"\n'
NM = ['addCurrentNode', 'scip_exec', 'incrementNumSecDisjointTour', 'incrementNumSecMaxflowMincut', 'getNodeStatsVector', 'getNodeStats']
NF = ['currentNodeId', 'newStatsForNode', 'numDisjointTourSECs', 'numMaxflowMincutSECs']
UNITS = [Unit('rows', tu=TU, contracts=C, prelude=PRELUDE, roots=[(n,) for n in NF] + [(H + '::' + n,) for n in NM if n != 'getNodeStats'] + [(H + '::getNodeStats', lambda node: 'SCIP_NODE' in node['type']['qualType']), (H + '::getNodeStats', lambda node: 'SCIP_NODE' not in node['type']['qualType'])], prefetch=NF + [H, 'NodeStats'])]
RUNTIME = [dict(kind='cxx', driver='c16.cpp', srcs=[s + '.cpp' for s in 'algorithms branching cost_cover cycle_cover data_structures event_handlers graph heuristic node_selection preprocessing sciputils separation solution stats subtour_elimination logger'.split()], libs=['-lyaml-cpp'], rule='random histories of up to 60 node events (out of order, repeated, returning to earlier nodes) and cut additions over up to 40 nodes, compared with counters per node and with the summary; non-trivial: the history returns to an earlier node')]
ASSUMPTIONS = scip.ASSUMPTIONS + ['node numbers are positive and fit an unsigned int; cuts are only added at a node that had a node event (the solver focuses a node before separating)', 'unsigned counters do not overflow', 'getSummaryStatsFromSCIP (which looks the handler up and hands its rows to the two sums) is checked at run time only (bounded)']
