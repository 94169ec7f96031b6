#include "graphs.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
using rt::check;
static void good(const Inst& I, const std::vector<int>& a, const std::vector<int>& b, int root, const std::string& who) {
  std::string bad = badTour(I, b); check(bad.empty(), who + ": the result is not a simple closed tour: " + bad + " " + rt::seq(b));
  check(b.front() == root && b.back() == root, who + ": the result does not start and end at the root");
  check(tourPrize(I, b) >= tourPrize(I, a), who + ": the prize went down"); }
static void one(const Inst& I, const std::list<PCTSPvertex>& t0, int step, int depth, int quota) {
  PCTSPgraph g; I.fill(g); auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g);
  auto a = ints(t0); PCTSPvertex root = t0.front(); int k = (int)a.size() - 1;
  rt::input(I.str() + " tour=" + rt::seq(a) + " step=" + std::to_string(step) + " depth=" + std::to_string(depth) + " quota=" + std::to_string(quota), step < k && depth >= 2);
  if (step < k) {
    auto t = t0; std::vector<float> loss(k); std::vector<bool> feas(k); std::vector<std::list<PCTSPvertex>> paths(k); int s = step, d = depth;
    findExtensionPaths(g, t, cm, pm, root, s, d, loss, feas, paths);
    check(t == t0, "findExtensionPaths changed the tour");
    for (int i = 0; i < k; i++) if (feas[i]) {
      auto p = ints(paths[i]); int j = (i + step) % k;
      check(p.size() >= 2 && p.front() == a[i] && p.back() == a[j], "a replacement path has other end points than the section it replaces");
      std::set<int> stay, sec; for (int q = 0; q <= step; q++) sec.insert(a[(i + q) % k]); for (int q = 0; q < k; q++) { int v = a[q]; bool inner = false; for (int z = 1; z < step; z++) if ((i + z) % k == q) inner = true; if (!inner) stay.insert(v); }
      std::set<int> u; for (size_t q = 0; q + 1 < p.size(); q++) { check(I.has(p[q], p[q + 1]), "a replacement path uses a missing edge"); check(u.insert(p[q]).second, "a replacement path repeats a vertex"); if (q) check(!stay.count(p[q]), "the interior of a replacement path uses a vertex that stays in the tour"); } } }
  { auto t = t0; pathExtension(g, t, cm, pm, root, step, depth); good(I, a, ints(t), root, "pathExtension"); }
  { auto t = t0; int q = quota, s = step, d = depth; pathExtensionUntilPrizeFeasible(g, t, cm, pm, root, q, s, d); good(I, a, ints(t), root, "pathExtensionUntilPrizeFeasible"); }
  if (step == 1) { auto t = t0; extensionUnitaryLoss(g, t, cm, pm, root); good(I, a, ints(t), root, "extensionUnitaryLoss"); }
  check((int)boost::num_vertices(g) == I.n && boost::num_edges(g) == I.es.size(), "the graph was changed");
}
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(3, 10), k = rt::rnd(2, std::min(n, 7)); std::list<PCTSPvertex> t;
    int maxc = rt::coin() ? 10 : rt::coin() ? 2 : 1000, maxp = rt::coin() ? 10 : rt::coin() ? 2 : 300;
    Inst I = tourInst(n, k, rt::coin(4) ? 100 : rt::rnd(0, 90), maxc, maxp, t);
    if (rt::coin()) { std::set<int> in(t.begin(), t.end()); for (int v = 0; v < n; v++) if (in.count(v) && !rt::coin(4)) I.prize[v] = rt::rnd(0, 2); }
    if (rt::coin(3)) I.prize[t.front()] += rt::rnd(0, 50);
    long tot = 0; for (int p : I.prize) tot += p;
    one(I, t, rt::coin(4) ? rt::rnd(1, 6) : rt::rnd(1, std::max(1, k - 1)), rt::rnd(1, 6), rt::coin() ? (int)tot : rt::rnd(0, (int)tot + 1));
  }
}
