#include "graphs.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
using rt::check;
static void one(const Inst& I, const std::list<PCTSPvertex>& t0, int root, int quota, bool sp) {
  PCTSPgraph g; I.fill(g); auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g);
  auto a = ints(t0); auto t = t0;
  rt::input(I.str() + " tour=" + rt::seq(a) + " root=" + std::to_string(root) + " quota=" + std::to_string(quota) + " shortest_paths=" + std::to_string(sp), a.size() > 3);
  auto b = ints(collapse(g, t, cm, pm, (PrizeNumberType)quota, (PCTSPvertex)root, sp));
  check(t == t0, "collapse changed its input tour");
  std::string bad = badTour(I, b); check(bad.empty(), "the collapsed tour is not a simple closed tour: " + bad + " " + rt::seq(b));
  check(b.front() == root && b.back() == root, "the collapsed tour does not start and end at the root");
  check(tourPrize(I, b) >= quota, "the collapsed tour collects less than the quota: " + rt::seq(b));
  check(tourCost(I, b) <= tourCost(I, a), "the collapsed tour costs more than the input tour: " + rt::seq(b));
  check((int)boost::num_vertices(g) == I.n && boost::num_edges(g) == I.es.size(), "the graph was changed");
}
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(2, 10), k = rt::rnd(2, std::min(n, 8)); std::list<PCTSPvertex> t;
    int maxc = rt::coin() ? 10 : rt::coin() ? 2 : 1000, maxp = rt::coin() ? 10 : rt::coin() ? 2 : 300;
    Inst I = tourInst(n, k, rt::coin(4) ? 100 : rt::rnd(0, 90), maxc, maxp, t);
    for (size_t i = 0; i < I.es.size(); i++) { I.cost[i] += 1; I.cm[{std::min(I.es[i].first, I.es[i].second), std::max(I.es[i].first, I.es[i].second)}] = I.cost[i]; }
    auto a = ints(t); long base = tourPrize(I, a);
    int root = rt::coin() ? a[0] : a[rt::rnd(0, k - 1)];
    one(I, t, root, rt::coin(3) ? (int)base : rt::coin() ? rt::rnd((int)base / 2, (int)base) : rt::rnd(0, (int)base), rt::coin());
  }
}
