#include "scipinst.hh"
#include "pctsp/event_handlers.hh"
using rt::check; typedef std::map<int, double> Row;
static double cutValue(const SInst& S, const std::set<int>& A, const std::set<int>& rc) { double c = 0; for (int e : S.support()) { int u = S.I.es[e].first, v = S.I.es[e].second; if (rc.count(u) && rc.count(v) && A.count(u) != A.count(v)) c += S.x[e]; } return c; }
static Row sec(const SInst& S, const std::set<int>& set, int root, int t) { Row w; bool ri = set.count(root); for (size_t i = 0; i < S.I.es.size(); i++) { auto e = S.I.es[i]; if (e.first != e.second && set.count(e.first) && set.count(e.second)) w[i] = 1; } for (int v : set) if (ri || v != t) w[S.eid(v, v)] = -1; if (ri) w[S.eid(t, t)] = 1; return w; }
void rt_run() {
  while (rt::more()) {
    SInst S; int n = rt::rnd(1, 8); Inst I = randInst(n, rt::coin(3) ? 100 : rt::rnd(10, 100), 9, 9, true); bool tr = rt::coin();
    S.build(I, rt::rnd(0, n - 1), 3, tr); std::vector<double> x(I.es.size(), 0.0);
    int mode = rt::rnd(0, 2), z = rt::rnd(10, 95), parts = rt::rnd(1, 3); std::vector<int> part(n); for (auto& p : part) p = rt::rnd(0, parts - 1);
    static const double half[] = {0.5, 0.5, 1.0, 0.25, 1.5, 2.0};
    for (size_t i = 0; i < x.size(); i++) { int u = I.es[i].first, v = I.es[i].second; if (mode == 0) x[i] = randVal(z); else { bool same = part[u] == part[v]; x[i] = u == v ? (rt::coin(5) ? 0 : 1) : (same ? rt::rnd(0, 99) < 60 : rt::rnd(0, 99) < (mode == 1 ? 0 : 8)) ? (rt::coin() ? half[rt::rnd(0, 5)] : randVal(0)) : 0; } }
    if (rt::coin(8)) for (size_t i = 0; i < x.size(); i++) if (I.es[i].first == (int)S.root || I.es[i].second == (int)S.root) x[i] = 0;
    bool lp = rt::coin(); S.setx(x, lp); SCIP_SOL* sol = lp ? nullptr : &S.sol; S.scip.add_row_infeasible = rt::coin(8);
    bool dj = !rt::coin(3), mf = !rt::coin(3); int entry = rt::rnd(0, 2), pre = rt::coin() ? 0 : rt::rnd(1, 5); bool hasnode = !rt::coin(6);
    NodeEventhdlr h(&S.scip); S.scip.node = S.node(1); SCIP_Node* cur = S.node(2, S.scip.node);
    if (hasnode) { SCIPincludeObjEventhdlr(&S.scip, &h, FALSE); h.scip_exec(&S.scip, &h.raw_, nullptr, nullptr); S.scip.node = cur; h.scip_exec(&S.scip, &h.raw_, nullptr, nullptr); h.incrementNumSecDisjointTour(&S.scip, pre); h.incrementNumSecMaxflowMincut(&S.scip, 2 * pre); }
    auto comp = S.comps(S.support()); std::map<int, std::set<int>> cs; for (int v = 0; v < n; v++) cs[comp[v]].insert(v); int root = S.root; auto& rc = cs[comp[root]];
    bool dis = false; for (auto& c : cs) if (c.first != comp[root] && c.second.size() >= 2) dis = true;
    // which vertices have a cut below two to the root (clearly / possibly)
    std::vector<int> rv(rc.begin(), rc.end()); std::set<int> must; std::vector<std::set<int>> sides;
    for (int m = 1; m < (1 << rv.size()); m++) { std::set<int> A; for (size_t i = 0; i < rv.size(); i++) if (m >> i & 1) A.insert(rv[i]); if (A.count(root)) continue; double c = cutValue(S, A, rc); if (c < 2 + 1e-4) sides.push_back(A); if (c < 2 - 1e-4) for (int v : A) must.insert(v); }
    rt::input(S.str() + " disjoint=" + std::to_string(dj) + " maxflow=" + std::to_string(mf) + (lp ? " (LP solution)" : ""), (dis && dj) || (mf && must.size() && must.size() + 1 < rc.size()));
    SCIP_RESULT res = SCIP_DIDNOTFIND; SCIP_RETCODE r; PCTSPconshdlrSubtour H(&S.scip, dj, mf); S.hdlr = H.raw_;
    if (entry == 0) r = PCTSPseparateSubtour(&S.scip, &S.hdlr, nullptr, 0, 0, sol, &res, dj, mf);
    else if (lp) { res = SCIP_DIDNOTRUN; r = H.scip_sepalp(&S.scip, &S.hdlr, nullptr, 0, 0, &res); }
    else r = H.scip_sepasol(&S.scip, &S.hdlr, nullptr, 0, 0, sol, &res);
    check(r == SCIP_OKAY, "the call failed"); check((int)boost::num_edges(S.g) == (int)I.es.size() && S.vm.size() == I.es.size(), "the graph or the variable map was modified");
    std::vector<Row> rows; for (auto q : S.scip.allrows) { rows.push_back(S.row(q)); check(q->lhs <= -S.scip.inf && q->rhs == 0, "wrong sides"); check(!q->local, "a row is only locally valid"); }
    // the disjoint-tour rows, as a multiset
    std::vector<Row> want; if (dj) for (auto& c : cs) if (c.first != comp[root] && c.second.size() >= 2) for (int t : c.second) want.push_back(sec(S, c.second, root, t));
    check(rows.size() >= want.size(), "a vertex of a component without the root got no disjoint-tour cut"); std::vector<Row> got(rows.begin(), rows.begin() + want.size()); size_t nd = want.size();
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); check(got == want, "the disjoint-tour cuts are not one per vertex of every component without the root, over the whole component");
    if (!mf) check(rows.size() == nd, "a cut was added that belongs to no component");
    else { std::set<int> have;
      for (size_t i = nd; i < rows.size(); i++) { bool ok = false; for (auto& A : sides) { std::set<int> B; for (int v : rv) if (!A.count(v)) B.insert(v); for (int t : A) if (rows[i] == sec(S, A, root, t) || rows[i] == sec(S, B, root, t)) { ok = true; have.insert(t); } } check(ok, "a max-flow cut is not over one side of a cut below two that separates its target from the root"); }
      for (int t : must) check(have.count(t), "a vertex with flow below two from the root got no max-flow cut"); }
    if (hasnode) { auto a = h.getNodeStats(&S.scip), b = h.getNodeStats(S.nodes[0]); check((int)a.num_sec_disjoint_tour == pre + (int)nd, "the number of disjoint-tour cuts is misreported"); check((int)a.num_sec_maxflow_mincut == 2 * pre + (int)(rows.size() - nd), "the number of max-flow cuts is misreported"); check(b.num_sec_disjoint_tour == 0 && b.num_sec_maxflow_mincut == 0, "cuts were booked at another node"); }
    S.scip.eventhdlrs.clear(); } }
