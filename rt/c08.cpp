#include "scipinst.hh"
using rt::check; typedef std::vector<std::pair<int, int>> EL;
// one simple cycle: non-empty, no loops, degree two everywhere it touches, connected
static bool single(const EL& es) {
  if (es.empty()) return false; std::map<int, int> deg, par;
  std::function<int(int)> find = [&](int v) { return par[v] == v ? v : par[v] = find(par[v]); };
  for (auto& e : es) { if (e.first == e.second) return false; for (int v : {e.first, e.second}) { deg[v]++; if (!par.count(v)) par[v] = v; } }
  for (auto& e : es) par[find(e.first)] = find(e.second);
  for (auto& d : deg) if (d.second != 2 || find(d.first) != find(es[0].first)) return false;
  return true; }
template <class T> static void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rt::rnd(0, (int)i - 1)]); }
// edges of some shape on the vertices 0..n-1: cycles, cycles with tails or chords, paths, mixtures
static std::set<std::pair<int, int>> shape(int n) {
  std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; shuffle(p); std::set<std::pair<int, int>> s; auto add = [&](int u, int v) { if (u != v) s.insert({std::min(u, v), std::max(u, v)}); };
  int k = rt::rnd(0, 7);
  if (k == 0) { int z = rt::rnd(0, 100); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (rt::rnd(0, 99) < z) add(i, j); return s; }
  int pos = 0; bool first = true;
  while (pos < n) { int len = (first && k <= 3) ? rt::rnd(std::min(3, n), n) : rt::rnd(1, n - pos); len = std::min(len, n - pos); if (first && (k == 4 || k == 5)) len = std::min(3 + rt::rnd(0, 2), n - pos);
    bool close = first ? k != 7 : (k == 4 || rt::coin()); for (int i = 0; i + 1 < len; i++) add(p[pos + i], p[pos + i + 1]); if (close && len >= 3) add(p[pos], p[pos + len - 1]);
    if (k == 5 && !first && len) add(p[rt::rnd(0, pos - 1)], p[pos]);      // hangs on what is there
    pos += len; first = false; if (k <= 3) break; }
  if (k == 3 || k == 6) add(rt::rnd(0, n - 1), rt::rnd(0, n - 1));
  if (k == 2 && !s.empty() && rt::coin()) s.erase(*s.begin());
  return s; }
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(1, 9); auto sub = shape(n); EL all(sub.begin(), sub.end()); Inst I; I.n = n; std::set<std::pair<int, int>> have(sub.begin(), sub.end());
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!have.count({i, j}) && rt::coin(3)) all.push_back({i, j});
    for (int i = 0; i < n; i++) { I.prize.push_back(1); if (!rt::coin(3)) all.push_back({i, i}); }
    shuffle(all); for (auto& e : all) { if (rt::coin()) std::swap(e.first, e.second); I.add(e.first, e.second, 1); }
    SInst S; S.build(I, rt::rnd(0, n - 1), 1, rt::coin()); bool loops = rt::coin(6);
    std::vector<PCTSPedge> es; EL used; std::vector<int> ids; for (size_t i = 0; i < I.es.size(); i++) { auto e = I.es[i]; bool in = sub.count({std::min(e.first, e.second), std::max(e.first, e.second)}) || (loops && e.first == e.second && rt::coin(3)); if (in) { ids.push_back(i); used.push_back(e); } }
    std::vector<int> order = ids; shuffle(order); EL given; for (int i : order) { auto e = I.es[i]; auto be = boost::edge(e.first, e.second, S.g).first; es.push_back(be); given.push_back(e); }
    std::ostringstream o; o << I.str() << " edges:"; for (auto& e : given) o << " " << e.first << "-" << e.second;
    bool want = single(given); rt::input(o.str(), want || given.size() >= 3);
    auto keep = es; check(isSimpleCycle(S.g, es) == want, want ? "a single simple cycle was rejected" : "edges that are not a single simple cycle were accepted"); check(es == keep, "the list of edges was modified");
    // the whole graph
    { Inst W; W.n = n; EL we; std::vector<int> deg(n, 0); for (auto& e : given) if (e.first != e.second) { W.add(e.first, e.second, 1); we.push_back(e); deg[e.first]++; deg[e.second]++; } for (int i = 0; i < n; i++) W.prize.push_back(1);
      bool whole = single(we); for (int d : deg) whole = whole && d == 2; PCTSPgraph g; W.fill(g); std::vector<int> comp(n, 0); check(isGraphSimpleCycle(g, comp) == whole, "the whole-graph variant is wrong"); check((int)boost::num_edges(g) == (int)we.size(), "the graph was modified"); }
    // candidate solutions, through the callbacks of the constraint handler
    bool tiny = rt::coin(4); std::vector<double> x(I.es.size(), 0.0); for (size_t i = 0; i < x.size(); i++) { auto e = I.es[i]; bool in = std::find(ids.begin(), ids.end(), (int)i) != ids.end(); x[i] = e.first == e.second ? (rt::coin() ? 1 : 0) : in ? (rt::coin(3) ? 0.5 : 1) : tiny && rt::coin() ? 1e-10 : 0; }
    EL sup; for (auto& e : used) if (e.first != e.second) sup.push_back(e); bool cyc = single(sup);
    bool lp = rt::coin(); S.setx(x, lp); if (!lp) for (size_t i = 0; i < x.size(); i++) S.lp.val[S.var[i]] = rt::coin() ? 1 : 0;
    int vw = rt::rnd(0, 3); if (vw == 1 && x.empty()) vw = 0; /* a problem without variables is out of scope */ rt::input(o.str() + " solution " + S.str() + " view=" + std::to_string(vw), cyc || sup.size() >= 3);
    SCIP_RESULT res = SCIP_DIDNOTRUN; PCTSPconshdlrSubtour H(&S.scip, true, 0.01, true, 2, 1); SCIP_SOL* sol = lp ? nullptr : &S.sol; S.scip.node = S.node(1, nullptr, 0.0); bool got;
    if (vw == 0) { got = isSolSimpleCycle(&S.scip, sol, &res); check(res == SCIP_DIDNOTRUN, "the result was set by the test alone"); }
    else { SCIP_RETCODE r;
      if (vw == 1) r = H.scip_check(&S.scip, &S.hdlr, nullptr, 0, sol, FALSE, FALSE, FALSE, FALSE, &res);
      else { EL ls; for (size_t i = 0; i < x.size(); i++) { auto e = I.es[i]; double v = S.lp.val[S.var[i]]; if (e.first != e.second && v > 1e-9) ls.push_back(e); } cyc = single(ls);
        r = vw == 2 ? H.scip_enfops(&S.scip, &S.hdlr, nullptr, 0, 0, FALSE, FALSE, &res) : H.scip_enfolp(&S.scip, &S.hdlr, nullptr, 0, 0, FALSE, &res); }
      check(r == SCIP_OKAY, "the callback failed"); check(res == SCIP_FEASIBLE || res == SCIP_INFEASIBLE, "the verdict is neither feasible nor infeasible"); got = res == SCIP_FEASIBLE; }
    check(got == cyc, cyc ? "a tour was rejected" : "a solution that is not one tour was accepted"); } }
