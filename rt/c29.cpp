#include "graphs.hh"
#include "pctsp/algorithms.hh"
using rt::check;
typedef std::vector<std::pair<PCTSPvertex, PCTSPvertex>> Pairs;
static void clean(Scip& S) { for (auto v : S.vars) delete v; for (auto c : S.allconss) delete c; for (auto s : S.sols) delete s; S.sols.clear(); }
// one more candidate whose ones are exactly `want`
static void only(Scip& S, const std::set<SCIP_Var*>& want, size_t before) {
  check(S.sols.size() == before + 1, "not exactly one starting solution is handed over");
  std::set<SCIP_Var*> one; for (auto& kv : S.sols.back()->val) { check(kv.first != nullptr, "a NULL variable is set"); check(kv.second == 0 || kv.second == 1, "a variable of the starting solution is neither zero nor one"); if (kv.second == 1) one.insert(kv.first); }
  for (auto v : want) check(one.count(v), "an edge of the tour or the self loop of a vertex on it is not one in the starting solution");
  for (auto v : one) check(want.count(v), "the starting solution uses an edge or a self loop that is not of the given tour"); }
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(1, 8), kind = rt::rnd(0, 3); bool loops = kind != 3 || rt::coin(); Inst I = randInst(n, rt::rnd(20, 100), 20, 9, loops); std::vector<int> plain, all; for (size_t i = 0; i < I.es.size(); i++) { all.push_back(i); if (I.es[i].first != I.es[i].second) plain.push_back(i); }
    PCTSPgraph g; I.fill(g); std::vector<PCTSPedge> ed; for (auto& e : I.es) ed.push_back(boost::edge(e.first, e.second, g).first);
    auto& from = rt::coin(4) ? all : plain; std::vector<int> w; int k = from.empty() ? 0 : rt::rnd(0, rt::coin(3) ? 12 : (int)std::min<size_t>(from.size(), 5)); for (int i = 0; i < k; i++) w.push_back(from[rt::rnd(0, (int)from.size() - 1)]);
    std::ostringstream o; o << I.str() << " start=["; for (int i : w) o << "(" << I.es[i].first << "," << I.es[i].second << ") "; o << "]";
    std::set<int> touch; for (int i : w) { touch.insert(I.es[i].first); touch.insert(I.es[i].second); }
    Scip S; 
    if (kind == 0) { rt::input(o.str() + " edges of vertex pairs and vertices of edges", w.size() > 1); Pairs ps; bool bad = false; for (int i : w) { auto p = I.es[i]; if (rt::coin()) std::swap(p.first, p.second); ps.push_back({(PCTSPvertex)p.first, (PCTSPvertex)p.second}); }
      if (rt::coin(3)) { int u = rt::rnd(0, n - 1), v = rt::rnd(0, n - 1); if (!I.has(u, v)) { bad = true; ps.insert(ps.begin() + rt::rnd(0, (int)ps.size()), {(PCTSPvertex)u, (PCTSPvertex)v}); } }
      bool thrown = false; std::vector<PCTSPedge> r; try { r = edgesFromVertexPairs(g, ps); } catch (const EdgeNotFoundException&) { thrown = true; } check(thrown == bad, bad ? "a pair that is not an edge is not reported" : "an edge is reported as missing");
      if (!bad) { check(r.size() == w.size(), "not one edge per pair"); for (size_t i = 0; i < w.size(); i++) check(r[i] == ed[w[i]], "a pair is turned into another edge"); }
      std::vector<PCTSPedge> q; for (int i : w) q.push_back(ed[i]); auto f = q.begin(), l = q.end(); auto vs = getVerticesOfEdges(g, f, l); check(vs.size() == touch.size(), "the vertices of the edges are not each given once"); std::set<int> vset(vs.begin(), vs.end()); check(vset == touch, "the vertices of the edges are wrong"); continue; }
    if (kind == 1 || kind == 3) { // a hand made variable map; sometimes with a variable missing
      std::map<PCTSPedge, SCIP_VAR*> vm; std::vector<SCIP_Var*> own; for (auto& e : ed) { auto v = new SCIP_Var(); own.push_back(v); vm[e] = v; }
      int gone = -1; if (!all.empty() && rt::coin(3)) { gone = all[rt::rnd(0, (int)all.size() - 1)]; if (rt::coin()) vm.erase(ed[gone]); else vm[ed[gone]] = nullptr; }
      bool noloop = false, novar = false; std::set<SCIP_Var*> want; for (int i : w) { if (i == gone) novar = true; want.insert(own[i]); }
      for (int v : touch) { if (!I.has(v, v)) { noloop = true; continue; } for (size_t i = 0; i < I.es.size(); i++) if (I.es[i].first == v && I.es[i].second == v) { if ((int)i == gone) novar = true; want.insert(own[i]); } }
      rt::input(o.str() + " handed over, variable missing for edge " + std::to_string(gone), w.size() > 1);
      std::vector<PCTSPedge> h; for (int i : w) h.push_back(ed[i]); auto f = h.begin(), l = h.end(); SCIP_HEUR* heur = nullptr; int got = 0; try { SCIP_RETCODE rc = addHeuristicEdgesToSolver(&S, g, heur, vm, f, l); check(rc == SCIP_OKAY, "handing over the start failed"); } catch (const NoSelfLoopFoundException&) { got = 1; } catch (const VariableIsNullException&) { got = 2; }
      check((got == 1) == noloop, noloop ? "a missing self loop is not reported" : "a self loop is reported as missing"); check((got == 2) == (!noloop && novar), !noloop && novar ? "a missing variable is not reported" : "a variable is reported as missing");
      if (got) check(S.sols.empty(), "a start is handed over although an error is reported"); else only(S, want, 0);
      clean(S); for (auto v : own) delete v; continue; }
    int root = rt::rnd(0, n - 1), quota = rt::rnd(0, 10); PCTSPvertex r = root; std::string name = "t"; bool lists = rt::coin(); rt::input(o.str() + " root=" + std::to_string(root) + (lists ? " whole model from edge lists" : " whole model"), w.size() > 1); std::map<PCTSPedge, SCIP_VAR*> vm;
    if (!lists) { std::vector<PCTSPedge> h; for (int i : w) h.push_back(ed[i]); auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g); vm = modelPrizeCollectingTSP(&S, g, h, cm, pm, quota, r, name); S.probdata = nullptr; 
      std::set<SCIP_Var*> want; for (int i : w) want.insert(vm.at(ed[i])); for (int v : touch) want.insert(vm.at(boost::edge(v, v, g).first)); if (w.empty()) check(S.sols.empty(), "a start is handed over though none was given"); else only(S, want, 0); }
    else { PCTSPgraph g2; Pairs el, hp; std::map<std::pair<PCTSPvertex, PCTSPvertex>, CostNumberType> cd; std::map<PCTSPvertex, PrizeNumberType> pd; for (size_t i = 0; i < I.es.size(); i++) { std::pair<PCTSPvertex, PCTSPvertex> p(I.es[i].first, I.es[i].second); el.push_back(p); if (rt::coin()) std::swap(p.first, p.second); cd[p] = I.cost[i]; } for (int v = 0; v < n; v++) pd[v] = I.prize[v];
      for (int i : w) { std::pair<PCTSPvertex, PCTSPvertex> p(I.es[i].first, I.es[i].second); if (rt::coin()) std::swap(p.first, p.second); hp.push_back(p); }
      bool bad = false; if (rt::coin(4)) { int u = rt::rnd(0, n - 1), v = rt::rnd(0, n - 1); if (!I.has(u, v)) { bad = true; hp.push_back({(PCTSPvertex)u, (PCTSPvertex)v}); } }
      bool thrown = false; try { vm = modelPrizeCollectingTSP(&S, g2, el, hp, cd, pd, quota, r, name); } catch (const EdgeNotFoundException&) { thrown = true; } S.probdata = nullptr; check(thrown == bad, bad ? "a start that uses a pair that is not an edge is not reported" : "an edge of the start is reported as missing");
      if (bad) check(S.sols.empty(), "a start is handed over although an error is reported"); else { check((int)boost::num_vertices(g2) == n, "the graph has other vertices");
        std::set<SCIP_Var*> want; for (int i : w) want.insert(vm.at(boost::edge(I.es[i].first, I.es[i].second, g2).first)); for (int v : touch) want.insert(vm.at(boost::edge(v, v, g2).first)); if (w.empty()) check(S.sols.empty(), "a start is handed over though none was given"); else only(S, want, 0);
        check(S.vars.size() == I.es.size() , "not one variable per edge");
        for (size_t i = 0; i < I.es.size(); i++) check(vm.at(boost::edge(I.es[i].first, I.es[i].second, g2).first)->obj == I.cost[i], "the objective coefficient of an edge is not its given cost"); } }
    clean(S); } }
