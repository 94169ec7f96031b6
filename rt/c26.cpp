#include "graphs.hh"
#include "/repo/pctsp/pypctsp.cpp"
using rt::check;
typedef std::vector<std::pair<PCTSPvertex, PCTSPvertex>> VE; typedef std::list<std::pair<PCTSPvertex, PCTSPvertex>> LE; typedef std::list<PCTSPvertex> LV; typedef std::vector<PCTSPvertex> VV;
typedef std::map<std::pair<PCTSPvertex, PCTSPvertex>, CostNumberType> CD; typedef std::map<PCTSPvertex, PrizeNumberType> PD; typedef std::map<PCTSPvertex, CostNumberType> DD;
// stand-ins: which level is asked for, and what the solver is called with
static int lastLevel = -1;
int getBoostLevelFromPyLevel(int l) { return l * 7 + 3; }
void PCTSPinitLogging(int l) { lastLevel = l; }
static std::string solved;
template <class A> static std::string show(const A& a) { std::ostringstream o; o << a; return o.str(); }
std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(SCIP* scip, PCTSPgraph& graph, std::vector<PCTSPedge>& h, EdgeCostMap& cost, VertexPrizeMap& prize, PrizeNumberType& quota, PCTSPvertex& root, int bmd, unsigned int bs, bool ccd, bool ccs, bool cyc,
   std::vector<int> dpc, std::string name, bool sdt, double gap, bool mf, int tail, int freq, bool simple, std::filesystem::path dir, float tl) {
  std::ostringstream o; o << (void*)scip << " es"; VE r;
  for (auto e : boost::make_iterator_range(boost::edges(graph))) { o << " " << boost::source(e, graph) << "-" << boost::target(e, graph) << ":" << cost[e]; r.push_back({boost::source(e, graph), boost::target(e, graph)}); }
  o << " h"; for (auto e : h) o << " " << boost::source(e, graph) << "-" << boost::target(e, graph);
  o << " p"; for (int v = 0; v < (int)boost::num_vertices(graph); v++) o << " " << prize[v];
  o << " q" << quota << " r" << root << " b" << bmd << "," << bs << " cc" << ccd << ccs << cyc << " d"; for (auto x : dpc) o << " " << x;
  o << " n" << name << " s" << sdt << "," << gap << "," << mf << "," << tail << "," << freq << "," << simple << " " << dir.string() << " " << tl;
  solved = o.str(); return r;
}
std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(SCIP*, PCTSPgraph&, std::vector<std::pair<PCTSPvertex, PCTSPvertex>>&, std::vector<std::pair<PCTSPvertex, PCTSPvertex>>&, std::map<std::pair<PCTSPvertex, PCTSPvertex>, CostNumberType>&, std::map<PCTSPvertex, PrizeNumberType>&, PrizeNumberType&, PCTSPvertex&, std::string&) { return {}; }
struct Case { Inst I; LV tour; std::vector<PCTSPvertex> id; std::map<int,int> nw; VE ve; CD cd; PD pd; LV pt; };
static Case mk() {
  Case c; int n = rt::rnd(3, 7), k = rt::rnd(3, n); c.I = tourInst(n, k, rt::rnd(40, 100), 20, 12, c.tour);
  std::set<PCTSPvertex> s; while ((int)s.size() < n) s.insert(rt::rnd(0, 40)); c.id.assign(s.begin(), s.end()); std::shuffle(c.id.begin(), c.id.end(), rt::rng);
  // a vertex without an edge is not part of the native graph
  std::set<int> used; for (auto& e : c.I.es) { used.insert(e.first); used.insert(e.second); }
  for (size_t i = 0; i < c.I.es.size(); i++) { auto e = c.I.es[i]; c.ve.push_back({c.id[e.first], c.id[e.second]}); auto key = std::make_pair(c.id[e.first], c.id[e.second]); c.cd[key] = c.I.cost[i]; }
  for (int v : used) c.pd[c.id[v]] = c.I.prize[v];
  for (auto& e : c.I.es) for (int v : {e.first, e.second}) if (!c.nw.count(v)) { int m = c.nw.size(); c.nw[v] = m; }
  for (auto v : c.tour) c.pt.push_back(c.id[v]);
  return c; }
static void refGraph(const Case& c, PCTSPgraph& g) { VE e; for (auto& x : c.I.es) boost::add_edge(c.nw.at(x.first), c.nw.at(x.second), g);
  auto w = boost::get(boost::edge_weight, g); auto p = boost::get(boost::vertex_distance, g);
  for (size_t i = 0; i < c.I.es.size(); i++) w[boost::edge(c.nw.at(c.I.es[i].first), c.nw.at(c.I.es[i].second), g).first] = c.I.cost[i];
  for (auto& x : c.nw) p[x.second] = c.I.prize[x.first]; }
template <class F> static F fn(pybind11::module_& m, const char* n, F) { auto it = m.fns.find(n); check(it != m.fns.end(), std::string("the module binds no ") + n); F* f = std::any_cast<F>(&it->second); if (!f) { printf("UNDECIDED\tthe signature bound as %s is not the expected one\n", n); fflush(stdout); _exit(0); } return *f; }
void rt_run() {
  pybind11::module_ m; pybind11_init_libpypctsp(m);
  auto collapse_b = fn(m, "collapse_bind", (VV(*)(LE&, LV&, CD&, PD&, PrizeNumberType&, PCTSPvertex&, bool, int))0);
  auto pe = fn(m, "path_extension_bind", (VV(*)(VE&, LV&, CD&, PD&, PCTSPvertex&, int, int, int))0);
  auto peu = fn(m, "path_extension_until_prize_feasible_bind", (VV(*)(VE&, LV&, CD&, PD&, PCTSPvertex&, PrizeNumberType&, int, int, int))0);
  auto eu = fn(m, "extension_until_prize_feasible_bind", (VV(*)(VE&, LV&, CD&, PD&, PrizeNumberType&))0);
  auto pec = fn(m, "path_extension_collapse_bind", (VV(*)(VE&, LV&, CD&, PD&, PCTSPvertex&, PrizeNumberType&, bool, int, int, int))0);
  auto eug = fn(m, "extension_unitary_gain_bind", (VV(*)(VE&, LV&, CD&, PD&, int))0);
  auto solve = fn(m, "solve_pctsp_bind", (VE(*)(py::object&, VE&, VE&, CD&, PD&, PrizeNumberType&, PCTSPvertex&, int, unsigned int, bool, bool, bool, DD&, int, std::string&, bool, double, bool, int, int, bool, std::filesystem::path, float))0);
  while (rt::more()) {
    Case c = mk(); int step = rt::rnd(1, 3), depth = rt::rnd(2, 4), log = 10 * rt::rnd(0, 5); bool sp = rt::coin(); long tot = 0; for (auto& x : c.pd) tot += x.second;
    PrizeNumberType quota = rt::rnd(0, tot); int rootv = ints(c.tour)[0]; PCTSPvertex root = c.id[rootv], nroot = c.nw[rootv];
    PCTSPgraph g; refGraph(c, g); auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g);
    std::map<int, PCTSPvertex> old; for (auto& x : c.nw) old[x.second] = c.id[x.first];
    LV t; for (auto v : c.tour) t.push_back(c.nw[v]);
    int which = rt::rnd(0, 6);
    std::ostringstream o; o << c.I.str() << " ids=" << rt::seq(c.id) << " tour=" << rt::seq(c.tour) << " root=" << rootv << " quota=" << quota << " step=" << step << " depth=" << depth << " shortest=" << sp << " log=" << log;
    static const char* nm[] = {"collapse_bind", "path_extension_bind", "path_extension_until_prize_feasible_bind", "extension_until_prize_feasible_bind", "path_extension_collapse_bind", "extension_unitary_gain_bind", "solve_pctsp_bind"};
    rt::input(std::string(nm[which]) + " " + o.str(), true);
    VV r, want; LE le(c.ve.begin(), c.ve.end()); LV lt = t; std::list<PCTSPvertex> w; lastLevel = -1;
    switch (which) {
    case 0: { auto x = collapse(g, lt, cm, pm, quota, nroot, sp); w.assign(x.begin(), x.end()); r = collapse_b(le, c.pt, c.cd, c.pd, quota, root, sp, log); break; }
    case 1: pathExtension(g, lt, cm, pm, nroot, step, depth); w = lt; r = pe(c.ve, c.pt, c.cd, c.pd, root, step, depth, log); break;
    case 2: pathExtensionUntilPrizeFeasible(g, lt, cm, pm, nroot, quota, step, depth); w = lt; r = peu(c.ve, c.pt, c.cd, c.pd, root, quota, step, depth, log); break;
    case 3: extensionUntilPrizeFeasible(g, lt, cm, pm, quota); w = lt; r = eu(c.ve, c.pt, c.cd, c.pd, quota); break;
    case 4: { auto x = pathExtensionCollapse(g, lt, cm, pm, quota, nroot, sp, depth, step); w.assign(x.begin(), x.end()); r = pec(c.ve, c.pt, c.cd, c.pd, root, quota, sp, depth, step, log); break; }
    case 5: extensionUnitaryGain(g, lt, cm, pm); w = lt; r = eug(c.ve, c.pt, c.cd, c.pd, log); break;
    case 6: {
      py::object model; PyObject po; char mark; po.p = &mark; model.o = &po; DD dd; std::vector<int> dn(c.nw.size()); for (auto& x : c.nw) { dd[c.id[x.first]] = rt::rnd(0, 50); dn[x.second] = dd[c.id[x.first]]; }
      VE h; std::vector<PCTSPedge> hn; for (auto a = c.tour.begin(), b = std::next(a); b != c.tour.end(); ++a, ++b) { h.push_back({c.id[*a], c.id[*b]}); }
      std::string name = "n" + std::to_string(rt::rnd(0, 99)); int bmd = rt::rnd(-1, 5), tail = rt::rnd(-1, 6), freq = rt::rnd(1, 9); unsigned bs = rt::rnd(0, 4); bool f[6]; for (bool& x : f) x = rt::coin(); double gap = rt::rnd(0, 100) / 100.0; float tl = rt::rnd(1, 1000); std::filesystem::path dir("/d" + std::to_string(rt::rnd(0, 9)));
      auto res = solve(model, c.ve, h, c.cd, c.pd, quota, root, bmd, bs, f[0], f[1], f[2], dd, log, name, f[3], gap, f[4], tail, freq, f[5], dir, tl);
      std::string got = solved; for (auto a = t.begin(), b = std::next(a); b != t.end(); ++a, ++b) hn.push_back(boost::edge(*a, *b, g).first);
      // heuristic edges as the stand-in prints them from the native graph
      solvePrizeCollectingTSP((SCIP*)&mark, g, hn, cm, pm, quota, nroot, bmd, bs, f[0], f[1], f[2], dn, name, f[3], gap, f[4], tail, freq, f[5], dir, tl);
      check(got == solved, "the solver is called with other arguments: " + got + " instead of " + solved);
      check(res == c.ve, "the returned edges do not carry the caller's vertices"); break; }
    }
    if (which != 3) check(lastLevel == log * 7 + 3, "the log level of the caller is not the one that is set");
    if (which == 6) continue;
    for (auto v : w) want.push_back(old[v]);
    check(r == want, "the binding returns " + rt::seq(r) + ", the library routine with these arguments " + rt::seq(want));
  }
}
