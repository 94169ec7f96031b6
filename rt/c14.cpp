#include "scipinst.hh"
using rt::check;
static double rval() { static const double vs[] = {0, 0, 1e-10, -1e-10, 1e-12, 1e-7, 0.25, 0.5, 1.0/3, 0.999999, 1, 1, 1.0 - 1e-10, 1.0 + 1e-10, 2, 2.0 - 1e-10, 1.5, 0.1, 5e-7, -0.5, 1.7, 1e-6}; return vs[rt::rnd(0, 21)]; }
void rt_run() {
  while (rt::more()) {
    SInst S; int n = rt::rnd(1, 8); Inst I = randInst(n, rt::rnd(0, 100), 9, 9, true);
    bool missing = rt::coin(5); // drop one self loop
    if (missing) { int v = rt::rnd(0, n - 1); Inst K; K.n = n; K.prize = I.prize; for (size_t i = 0; i < I.es.size(); i++) if (I.es[i].first != v || I.es[i].second != v) K.add(I.es[i].first, I.es[i].second, I.cost[i]); I = K; }
    S.build(I, 0, 3, rt::coin()); std::vector<double> x; for (size_t i = 0; i < I.es.size(); i++) x.push_back(rval());
    bool lp = rt::coin(); S.setx(x, true); SCIP_SOL* sol = lp ? nullptr : &S.sol; if (!lp) for (auto& p : S.lp.val) p.second = 7;
    auto sup = S.support(); rt::input(S.str() + (lp ? " (LP solution)" : ""), !sup.empty() && sup.size() < I.es.size());
    // variable map of a part of the edges: entries outside the map must not appear
    PCTSPedgeVariableMap part; std::set<int> inpart; for (auto& kv : S.vm) { int i = S.idx[kv.second]; if (I.es[i].first == I.es[i].second || !rt::coin(4)) { part[kv.first] = kv.second; inpart.insert(i); } }
    for (size_t i = 0; i < I.es.size(); i++) check(isVarPositive(&S.scip, sol, S.var[i]) == (x[i] > 0 && !SInst::zero(x[i])), "a variable is called positive wrongly");
    for (int k = 0; k < 2; k++) {
      auto& m = k ? part : S.vm; auto es = getSolutionEdges(&S.scip, S.g, sol, m, rt::coin()); std::set<int> got; 
      for (auto& e : es) { int i = S.eid(boost::source(e, S.g), boost::target(e, S.g)); check(i >= 0, "an edge is not in the graph"); check(got.insert(i).second, "an edge is reported twice"); }
      std::set<int> want; for (int i : sup) if (!k || inpart.count(i)) want.insert(i);
      check(got == want, "the edges read back are not exactly the used ones");
      auto cap = getCapacityVectorFromSol(&S.scip, S.g, sol, m); check(cap.size() == es.size(), "capacities do not match the edges one to one");
      auto es2 = getSolutionEdges(&S.scip, S.g, sol, m); check(es2 == es, "the order of the edges changes");
      for (size_t j = 0; j < es.size(); j++) { double v = x[S.eid(boost::source(es[j], S.g), boost::target(es[j], S.g))]; double d = cap[j] - 1e6 * v; check(d <= 1 && d >= -1, "a capacity is not the scaled value of its edge"); for (double q : {1.0, 2.0}) if (SInst::zero(v - q)) check(cap[j] == (long)(1e6 * q), "a value within tolerance of an integer is not scaled exactly"); }
      auto vp = getVertexPairVectorFromEdgeSubset(S.g, es); check(vp.size() == es.size(), "vertex pairs do not match the edges"); for (size_t j = 0; j < es.size(); j++) check((int)S.eid(vp[j].first, vp[j].second) == S.eid(boost::source(es[j], S.g), boost::target(es[j], S.g)), "a vertex pair is not its edge");
      check(m.size() == (k ? part.size() : S.vm.size()), "the variable map was changed"); }
    PCTSPgraph sg(I.n); getSolutionGraph(&S.scip, S.g, sg, sol, S.vm); check(boost::num_edges(sg) == sup.size(), "the solution graph has a wrong number of edges"); for (int i : sup) check(boost::edge(I.es[i].first, I.es[i].second, sg).second, "a used edge is missing in the solution graph");
    auto fg = filterGraphByPositiveEdgeVars(&S.scip, S.g, sol, S.vm); std::set<int> fe; for (auto e : boost::make_iterator_range(boost::edges(fg))) fe.insert(S.eid(boost::source(e, S.g), boost::target(e, S.g)));
    std::set<int> pos; for (size_t i = 0; i < x.size(); i++) if (x[i] > 0 && !SInst::zero(x[i])) pos.insert(i); check(fe == pos, "the filtered graph does not consist of the positive edges");
    std::vector<int> want; bool all = true; for (int v = 0; v < n; v++) { int l = S.eid(v, v); if (l < 0) all = false; else if (x[l] > 0 && !SInst::zero(x[l])) want.push_back(v); }
    try { auto vs = getSolutionVertices(&S.scip, S.g, sol, S.vm); check(all, "a missing self loop is not reported"); check(std::vector<int>(vs.begin(), vs.end()) == want, "the vertices are not exactly those with a positive self loop, in order"); }
    catch (const EdgeNotFoundException&) { check(!all, "an edge-not-found error although all self loops exist"); } } }
