#include "graphs.hh"
#include "pctsp/walk.hh"
#include "pctsp/heuristic.hh"
using rt::check;
template <class L> void walkCase(Inst& I, PCTSPgraph& g, L w) {
  auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g);
  auto v = ints(w); L orig = w;
  bool ok = true; long want = 0, pr = 0; for (size_t i = 0; i + 1 < v.size(); i++) { if (!I.has(v[i], v[i+1])) ok = false; else want += I.c(v[i], v[i+1]); }
  for (int x : v) pr += I.prize[x];
  bool threw = false; long got = 0;
  try { got = totalCost(g, w, cm); } catch (EdgeNotFoundException&) { threw = true; }
  check(threw == !ok, ok ? "cost of a walk along edges raised an edge-not-found error" : "no edge-not-found error for a walk with a missing edge");
  if (ok) check(got == want, "walk cost is not the sum over its consecutive pairs");
  check(totalPrize(pm, w) == pr, "walk prize is not the sum over its vertices");
  check(w == orig, "the walk was modified");
}
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(1, 7); Inst I = randInst(n, rt::rnd(20, 100), 9, 9, rt::coin(), rt::coin(4)); PCTSPgraph g; I.fill(g);
    for (int r = 0; r < 6; r++) {
      int L = rt::rnd(0, 8); std::list<PCTSPvertex> w;
      if (L > 0) { int x = rt::rnd(0, n - 1); w.push_back(x);
        while ((int)w.size() < L) { std::vector<int> nb; for (int y = 0; y < n; y++) if (I.has(x, y)) nb.push_back(y); if (nb.empty() || rt::coin(12)) x = rt::rnd(0, n - 1); else x = nb[rt::rnd(0, nb.size() - 1)]; w.push_back(x); } }
      rt::input(I.str() + " walk=" + rt::seq(w), L >= 2);
      walkCase(I, g, w); walkCase(I, g, std::vector<PCTSPvertex>(w.begin(), w.end()));
      auto pm = boost::get(boost::vertex_distance, g); auto cm = boost::get(boost::edge_weight, g);
      long all = 0; for (int p : I.prize) all += p; check(totalPrizeOfGraph(g, pm) == all, "graph prize is not the sum over all vertices");
      if (L >= 1) { auto t = w; long s = 0; auto v = ints(w); for (size_t i = 0; i + 1 < v.size(); i++) s += I.prize[v[i]];
        check(totalPrizeOfTour(pm, t) == s, "tour prize does not leave out exactly the last vertex"); check(t == w, "the tour was modified");
        }
      { long s = 0; for (int x : ints(w)) s += I.prize[x]; std::vector<PCTSPvertex> wv(w.begin(), w.end()); for (int d = -1; d <= 1; d++) { PrizeNumberType q = s + d; auto a = w.begin(), b = w.end(); check(isPrizeFeasible(pm, q, a, b) == (s >= q), "prize-feasibility test"); check(isPrizeFeasible(pm, q, wv) == (s >= q), "prize-feasibility test"); } }
      std::vector<PCTSPedge> ev; std::list<PCTSPedge> el; long ec = 0;
      for (int k = rt::rnd(0, 4); k > 0 && !I.es.empty(); k--) { int i = rt::rnd(0, I.es.size() - 1); auto e = boost::edge(I.es[i].first, I.es[i].second, g).first; ev.push_back(e); el.push_back(e); ec += I.cost[i]; }
      check(totalCost(ev, cm) == ec && totalCost(el, cm) == ec, "cost of an edge list is not the sum of the edge costs");
    }
  }
}
