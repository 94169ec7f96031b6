#include "graphs.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
using rt::check;
// is there a vertex outside t whose insertion at some place has a positive unitary gain?
static bool gainLeft(const Inst& I, const std::vector<int>& t) {
  std::set<int> in(t.begin(), t.end());
  for (int v = 0; v < I.n; v++) { if (in.count(v)) continue;
    for (size_t i = 0; i + 1 < t.size(); i++) if (I.has(t[i], v) && I.has(v, t[i + 1])) {
      float d = (float)(I.c(t[i], v) + I.c(v, t[i + 1]) - I.c(t[i], t[i + 1])); if ((float)I.prize[v] / d > 0.0f) return true; } }
  return false; }
static void extended(const Inst& I, const std::vector<int>& a, const std::vector<int>& b, const std::string& who) {
  std::string bad = badTour(I, b); check(bad.empty(), who + ": the result is not a simple closed tour: " + bad);
  check(a[0] == b[0], who + ": the start vertex changed");
  std::set<int> s(a.begin(), a.end()); std::vector<int> k; for (int x : b) if (s.count(x)) k.push_back(x);
  check(k == a, who + ": an original vertex was lost or moved"); }
static void one(const Inst& I, const std::list<PCTSPvertex>& t0, long quota) {
  PCTSPgraph g; I.fill(g); auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g);
  auto a = ints(t0);
  rt::input(I.str() + " tour=" + rt::seq(a) + " quota=" + std::to_string(quota), (int)t0.size() - 1 < I.n);
  { auto t = t0; extensionUnitaryGain(g, t, cm, pm); extended(I, a, ints(t), "extensionUnitaryGain"); }
  { auto t = t0; extensionUntilPrizeFeasible(g, t, cm, pm, (int)quota); auto b = ints(t); extended(I, a, b, "extensionUntilPrizeFeasible");
    if (tourPrize(I, a) >= quota) check(a == b, "a tour that meets the quota was changed");
    check(tourPrize(I, b) >= quota || !gainLeft(I, b) || (long)b.size() - (long)a.size() > I.n, "extensionUntilPrizeFeasible stopped below the quota although a vertex with positive gain remains"); }
  check((int)boost::num_vertices(g) == I.n && boost::num_edges(g) == I.es.size(), "the graph was changed");
}
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(2, 9), k = rt::rnd(2, n); std::list<PCTSPvertex> t;
    int maxc = rt::coin() ? 10 : rt::coin() ? 2 : 1000, maxp = rt::coin() ? 10 : rt::coin() ? 1 : 300;
    Inst I = tourInst(n, k, rt::coin(4) ? 100 : rt::rnd(0, 100), maxc, maxp, t, rt::coin(4));
    if (rt::coin(4)) for (auto& p : I.prize) p -= rt::rnd(0, maxp);
    if (rt::coin(6)) for (size_t i = 0; i < I.es.size(); i++) { I.cost[i] -= rt::rnd(0, maxc); I.cm[{std::min(I.es[i].first, I.es[i].second), std::max(I.es[i].first, I.es[i].second)}] = I.cost[i]; }
    auto a = ints(t); long base = tourPrize(I, a), tot = 0; for (int p : I.prize) tot += p;
    long q = rt::coin() ? base + rt::rnd(-2, 3) : rt::coin() ? tot + rt::rnd(-2, 1) : rt::rnd(0, 30);
    one(I, t, q);
  }
}
