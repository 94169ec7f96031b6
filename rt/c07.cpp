#include "graphs.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
using rt::check;
static void one(const Inst& I, const std::list<PCTSPvertex>& t0, int quota, bool sp, int depth, int step) {
  PCTSPgraph g; I.fill(g); auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g);
  auto a = ints(t0); auto t = t0; PCTSPvertex root = t0.front(); PrizeNumberType q = quota;
  rt::input(I.str() + " tour=" + rt::seq(a) + " quota=" + std::to_string(quota) + " shortest_paths=" + std::to_string(sp) + " depth=" + std::to_string(depth) + " step=" + std::to_string(step), a.size() > 3);
  auto b = ints(pathExtensionCollapse(g, t, cm, pm, q, root, sp, depth, step));
  check((int)boost::num_vertices(g) == I.n && boost::num_edges(g) == I.es.size(), "the graph was changed");
  check(!b.empty() || tourPrize(I, a) < quota, "nothing is returned although the input tour meets the quota");
  if (b.empty()) return;
  std::string bad = badTour(I, b); check(bad.empty(), "the result is not a simple closed tour: " + bad + " " + rt::seq(b));
  check(b.front() == (int)root && b.back() == (int)root, "the result does not start and end at the root");
  check(tourPrize(I, b) >= quota, "the result collects less than the quota: " + rt::seq(b));
  if (tourPrize(I, a) >= quota) check(tourCost(I, b) <= tourCost(I, a), "the result costs more than the input tour: " + rt::seq(b));
}
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(3, 10), k = rt::rnd(2, std::min(n, 7)); std::list<PCTSPvertex> t;
    int maxc = rt::coin() ? 10 : rt::coin() ? 2 : 1000, maxp = rt::coin() ? 10 : rt::coin() ? 2 : 300;
    Inst I = tourInst(n, k, rt::coin(4) ? 100 : rt::rnd(0, 90), maxc, maxp, t);
    for (size_t i = 0; i < I.es.size(); i++) { I.cost[i] += 1; I.cm[{std::min(I.es[i].first, I.es[i].second), std::max(I.es[i].first, I.es[i].second)}] = I.cost[i]; }
    auto a = ints(t); long base = tourPrize(I, a), tot = 0; for (int p : I.prize) tot += p;
    int q = rt::coin(3) ? (int)base + rt::rnd(-1, 1) : rt::coin() ? rt::rnd(0, (int)base) : rt::rnd((int)base, (int)tot + 1);
    one(I, t, std::max(0, q), rt::coin(), rt::coin() ? 2 : rt::rnd(1, 6), rt::coin() ? 1 : rt::rnd(1, 6));
  }
}
