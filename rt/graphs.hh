// Graph instances for the drivers (an independent edge-list view next to the boost graph).
#ifndef VERIF_GRAPHS_HH
#define VERIF_GRAPHS_HH
#include "rt.hh"
#include "pctsp/graph.hh"
#include <algorithm>
struct Inst {
  int n = 0; std::vector<std::pair<int,int>> es; std::vector<int> cost, prize;
  std::map<std::pair<int,int>, int> cm;
  void add(int u, int v, int c) { es.push_back({u, v}); cost.push_back(c); cm[{std::min(u, v), std::max(u, v)}] = c; }
  bool has(int u, int v) const { return cm.count({std::min(u, v), std::max(u, v)}) > 0; }
  int c(int u, int v) const { return cm.at({std::min(u, v), std::max(u, v)}); }
  std::string str() const { std::ostringstream o; o << "n=" << n << " edges="; for (size_t i = 0; i < es.size(); i++) o << "(" << es[i].first << "," << es[i].second << "):" << cost[i] << " "; o << "prize=" << rt::seq(prize); return o.str(); }
  void fill(PCTSPgraph& g) const {
    for (int i = 0; i < n; i++) boost::add_vertex(g);
    auto w = boost::get(boost::edge_weight, g); auto p = boost::get(boost::vertex_distance, g);
    for (size_t i = 0; i < es.size(); i++) { auto e = boost::add_edge(es[i].first, es[i].second, g); w[e.first] = cost[i]; }
    for (int i = 0; i < n; i++) p[i] = prize[i];
  }
};
// random simple graph: cycle of `cyc` vertices plus random chords
inline Inst randInst(int n, int density /*percent*/, int maxc, int maxp, bool loops, bool neg = false) {
  Inst I; I.n = n; std::vector<std::pair<int,int>> all;
  for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (rt::rnd(0, 99) < density) all.push_back(rt::coin() ? std::make_pair(u, v) : std::make_pair(v, u));
  if (loops) for (int u = 0; u < n; u++) all.push_back({u, u});
  std::shuffle(all.begin(), all.end(), rt::rng);
  for (auto& e : all) I.add(e.first, e.second, rt::rnd(neg ? -maxc : 0, maxc));
  for (int i = 0; i < n; i++) I.prize.push_back(rt::rnd(0, maxp));
  return I;
}
// random instance that contains the closed tour t; t has k distinct vertices
inline Inst tourInst(int n, int k, int density, int maxc, int maxp, std::list<PCTSPvertex>& t, bool loops = false) {
  std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i; std::shuffle(perm.begin(), perm.end(), rt::rng);
  std::vector<int> c(perm.begin(), perm.begin() + k);
  std::set<std::pair<int,int>> s; for (int i = 0; i < k; i++) s.insert({std::min(c[i], c[(i + 1) % k]), std::max(c[i], c[(i + 1) % k])});
  for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (rt::rnd(0, 99) < density) s.insert({u, v});
  std::vector<std::pair<int,int>> all(s.begin(), s.end());
  if (loops) for (int u = 0; u < n; u++) all.push_back({u, u});
  std::shuffle(all.begin(), all.end(), rt::rng);
  Inst I; I.n = n; for (auto& e : all) { if (rt::coin()) std::swap(e.first, e.second); I.add(e.first, e.second, rt::rnd(0, maxc)); }
  for (int i = 0; i < n; i++) I.prize.push_back(rt::rnd(0, maxp));
  t.clear(); for (int x : c) t.push_back(x); t.push_back(c[0]);
  return I;
}
inline long tourPrize(const Inst& I, const std::vector<int>& t) { long s = 0; for (size_t i = 0; i + 1 < t.size(); i++) s += I.prize[t[i]]; return s; }
inline long tourCost(const Inst& I, const std::vector<int>& t) { long s = 0; for (size_t i = 0; i + 1 < t.size(); i++) s += I.c(t[i], t[i + 1]); return s; }
template <class L> std::vector<int> ints(const L& l) { std::vector<int> r; for (auto x : l) r.push_back((int)x); return r; }
// empty string when t is a closed tour of I that repeats no vertex (other than its end)
inline std::string badTour(const Inst& I, const std::vector<int>& t) {
  if (t.size() < 2) return "tour has fewer than two entries";
  if (t.front() != t.back()) return "tour is not closed";
  std::set<int> s; for (size_t i = 0; i + 1 < t.size(); i++) { if (t[i] < 0 || t[i] >= I.n) return "vertex out of range"; if (!s.insert(t[i]).second) return "a vertex is repeated"; if (!I.has(t[i], t[i + 1])) return "consecutive vertices are not joined by an edge"; }
  return ""; }
#endif
