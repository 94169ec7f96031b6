#include "scipinst.hh"
#include "pctsp/cost_cover.hh"
#include "pctsp/cycle_cover.hh"
using rt::check;
typedef std::vector<std::vector<int>> Covers;
// covers added since constraint number `from`: sorted vertex of each cover, checking the shape of every constraint
static std::multiset<int> covers(SInst& S, size_t from, int loopOfRoot) {
  std::multiset<int> out; std::map<int, int> vertexOf; for (int v = 0; v < S.I.n; v++) vertexOf[S.eid(v, v)] = v;
  check(S.scip.allconss.size() == S.scip.conss.size(), "a constraint was created but not added");
  for (size_t i = from; i < S.scip.conss.size(); i++) { auto c = S.scip.conss[i]; check(c->vars.size() == 2 && c->vals.size() == 2, "a cover inequality does not have two variables"); check(c->vals[0] == 1 && c->vals[1] == 1 && c->rhs == 1 && c->lhs <= -S.scip.inf, "a cover inequality is not 'sum <= 1'"); check(!c->local, "a cover inequality is only locally valid");
    std::multiset<int> vs; for (auto v : c->vars) { check(S.idx.count(v) && vertexOf.count(S.idx[v]), "a cover inequality is not over vertex variables"); vs.insert(vertexOf[S.idx[v]]); }
    auto it = vs.find(loopOfRoot); check(it != vs.end(), "a cover inequality does not hold the root variable"); vs.erase(it); out.insert(*vs.begin()); }
  return out; }
static std::multiset<int> exceeding(const std::vector<long>& d, long b) { std::multiset<int> s; for (size_t v = 0; v < d.size(); v++) if (d[v] > b) s.insert(v); return s; }
static std::vector<long> dist(const Inst& I, int root) { std::vector<long> d(I.n, LONG_MAX / 4); d[root] = 0; for (int k = 0; k < I.n; k++) for (size_t i = 0; i < I.es.size(); i++) { int u = I.es[i].first, v = I.es[i].second; d[v] = std::min(d[v], d[u] + I.cost[i]); d[u] = std::min(d[u], d[v] + I.cost[i]); } return d; }
void rt_run() {
  while (rt::more(0.6)) {
    SInst S; int n = rt::rnd(1, 8); int big = rt::coin(8) ? 400000000 : 12; Inst I = randInst(n, rt::rnd(0, 100), big, 9, true); S.build(I, rt::rnd(0, n - 1), 3, rt::coin());
    auto dd = dist(I, S.root); std::vector<int> pd; bool sp = rt::coin(); std::vector<long> d;
    if (sp) for (auto x : dd) d.push_back(2 * x); else for (int i = 0; i < n; i++) { pd.push_back(rt::coin(8) ? INT_MAX : rt::rnd(0, 12)); d.push_back(pd.back()); }
    auto cm = boost::get(boost::edge_weight, S.g);
    if (sp) { check(includeShortestPathCostCover(&S.scip, S.g, cm, S.root) == SCIP_OKAY, "include failed"); } else check(includeDisjointPathsCostCover(&S.scip, pd) == SCIP_OKAY, "include failed");
    CostCoverEventHandler* h = sp ? getShortestPathCostCoverEventHandler(&S.scip) : getDisjointPathsCostCoverEventHandler(&S.scip); check(h != nullptr, "the event handler was not included");
    check(h->getNumConssAdded() == 0 && h->getNumConssAddedInitSol() == 0, "counters do not start at zero");
    auto bound = [&]() -> int { int k = rt::rnd(0, 5); if (k == 0) { long x = d[rt::rnd(0, n - 1)]; return x >= INT_MAX ? INT_MAX - 1 : (int)x; } if (k == 1) return big * 2 > 0 ? rt::rnd(0, big * 2) : 5; return rt::rnd(0, 24); };
    unsigned init = 0, later = 0; std::string log;
    auto desc = [&]() { rt::input(S.str() + (sp ? " shortest-path distances" : " distances=" + rt::seq(pd)) + log, n > 1); };
    if (rt::coin()) { int b = bound(); log += " initial:" + std::to_string(b); desc(); auto p = h->getPathDistances(); size_t from = S.scip.conss.size(); unsigned k = separateThenAddCostCoverInequalities(&S.scip, p, b);
      auto w = exceeding(d, b); check(covers(S, from, S.root) == w, "the covers of the initial solution are not exactly those of the vertices above the bound"); check(k == w.size(), "the number of added inequalities is wrong"); if (rt::coin(4)) h->setNumConssAddedInitSol(rt::rnd(0, 9)); h->setNumConssAddedInitSol(k); init = k; }
    for (int q = rt::rnd(0, 4); q > 0; q--) { int b = bound(); log += " solution:" + std::to_string(b); desc(); S.scip.upper = b + (rt::coin(3) ? 0.5 : rt::coin(4) ? 0.9 : 0.0); size_t from = S.scip.conss.size(); SCIP_Eventhdlr eh; SCIP_Event ev; check(h->scip_exec(&S.scip, &eh, &ev, nullptr) == SCIP_OKAY, "the event failed");
      auto w = exceeding(d, b); check(covers(S, from, S.root) == w, "the covers of an improving solution are not exactly those of the vertices above the bound"); later += w.size();
      check(h->getNumConssAdded() == init + later && h->getNumConssAddedInitSol() == init, "the counts of added inequalities are wrong"); }
    desc(); check(h->getNumConssAdded() == init + later && h->getNumConssAddedInitSol() == init, "the counts of added inequalities are wrong");
    unsigned tot = sp ? getNShortestPathCostCoverCutsAdded(&S.scip) : getNDisjointPathsCostCoverCutsAdded(&S.scip); check(tot == init + later, "the total is wrong");
    std::vector<int> dv; for (auto x : d) dv.push_back(x > INT_MAX ? INT_MAX : (int)x); int b = bound(); std::vector<int> want; for (int v = 0; v < n; v++) if (dv[v] > b) want.push_back(v);
    log += " bound:" + std::to_string(b); desc(); auto sv = separateCostCoverPaths(S.g, dv, b); check(ints(sv) == want, "the separated vertices are not those above the bound");
    std::vector<SCIP_VAR*> vs; std::set<int> vi; for (size_t i = 0; i < I.es.size(); i++) if (rt::coin()) { vs.push_back(S.var[i]); vi.insert(i); } size_t from = S.scip.conss.size(); check(addCoverInequality(&S.scip, vs) == SCIP_OKAY, "failed");
    check(S.scip.conss.size() == from + 1, "not one cover inequality"); auto c = S.scip.conss.back(); std::set<int> ci; for (auto v : c->vars) ci.insert(S.idx[v]); check(ci == vi && c->vars.size() == vs.size() && c->rhs == (double)vs.size() - 1 && c->lhs <= -S.scip.inf, "a cover inequality is not 'sum <= size - 1'"); for (double v : c->vals) check(v == 1, "a cover coefficient is not one");
  }
  while (rt::more()) { // cycle cover
    SInst S; int n = rt::rnd(1, 8); Inst I = randInst(n, rt::rnd(0, 100), 9, 9, true); bool tr = rt::coin(); int total = 0; for (int p : I.prize) total += p; S.build(I, rt::rnd(0, n - 1), rt::rnd(0, total + 1), tr);
    auto cc = new CycleCoverConshdlr(&S.scip); SCIPincludeObjConshdlr(&S.scip, cc, true); unsigned cuts = 0; std::string log;
    for (int q = rt::rnd(1, 4); q > 0; q--) {
      std::vector<double> x; int z = rt::rnd(0, 90); for (size_t i = 0; i < I.es.size(); i++) x.push_back(randVal(z)); S.setx(x, true); S.scip.add_row_infeasible = rt::coin(4);
      auto c = S.comps(S.support()); std::set<int> comp; int prize = 0; for (int v = 0; v < n; v++) if (c[v] == c[S.root]) { comp.insert(v); prize += I.prize[v]; }
      if (rt::coin(3)) S.quota = prize; bool viol = prize < S.quota; log += " quota=" + std::to_string(S.quota); rt::input(S.str() + log + " separation " + std::to_string(q), viol);
      check(isCycleCoverViolated(&S.scip, rt::coin() ? nullptr : &S.sol, S.pd) == viol, "a cycle cover is reported violated wrongly"); SCIP_RESULT fr = SCIP_DIDNOTRUN; check(cc->scip_check(&S.scip, &S.hdlr, nullptr, 0, &S.sol, 0, 0, 0, 0, &fr) == SCIP_OKAY && fr == (viol ? SCIP_INFEASIBLE : SCIP_FEASIBLE), "the check of a solution is wrong");
      size_t before = S.scip.allrows.size(), badded = S.scip.rows.size(); SCIP_RESULT res = SCIP_DIDNOTFIND; bool direct = rt::coin(3); SCIP_RETCODE rc = direct ? separateCycleCover(&S.scip, &S.hdlr, &S.sol, &res) : cc->scip_sepalp(&S.scip, &S.hdlr, nullptr, 0, 0, &res); check(rc == SCIP_OKAY, "separation failed");
      check(S.scip.allrows.size() == before + (viol ? 1 : 0), "a cycle-cover row is not built exactly when the component's prize is below the quota"); bool added = S.scip.rows.size() > badded;
      if (viol) { auto r = S.scip.allrows.back(); std::map<int, double> want; double act = 0; for (size_t i = 0; i < I.es.size(); i++) { auto e = I.es[i]; if (comp.count(e.first) && comp.count(e.second)) { want[i] = e.first == e.second ? -1 : 1; act += want[i] * x[i]; } }
        check(S.row(r) == want && r->rhs == -1 && r->lhs <= -S.scip.inf && !r->local, "the cycle-cover row is not 'inside edges <= inside vertices - 1' over the root's component"); if (act + 1 > 1.1e-6) check(added, "a violated cycle-cover row was not added"); if (act + 1 < 9e-7) check(!added, "a satisfied cycle-cover row was added"); }
      check(res == (!added ? SCIP_DIDNOTFIND : S.scip.add_row_infeasible ? SCIP_CUTOFF : SCIP_SEPARATED), "the result does not say whether the row was added"); if (added && !direct) cuts++;
      check(cc->getNumConssAdded() == cuts && getNumCycleCoverCutsAdded(&S.scip) == cuts, "the number of cycle covers is wrong"); } } }
