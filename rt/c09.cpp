#include "graphs.hh"
#include "pctsp/data_structures.hh"
#include <boost/graph/connected_components.hpp>
using rt::check;
typedef std::vector<std::vector<PCTSPvertex>> VV;
static VV want(int n, int k, const std::vector<int>& id) { VV v(k); for (int i = 0; i < n; i++) v[id[i]].push_back(i); return v; }
static VV big(const VV& v) { VV r; for (auto& l : v) if (l.size() > 1) r.push_back(l); return r; }
static bool hard(const VV& v) { bool s = false; for (auto& l : v) { if (l.size() <= 1) s = true; else if (s) return true; } return false; }
template <class G> void one(G& g, int n, int k, std::vector<int> id, const std::string& what) {
  VV e = want(n, k, id); rt::input(what + " n=" + std::to_string(n) + " components=" + std::to_string(k) + " labels=" + rt::seq(id), n > 0 && hard(e));
  int k2 = k; auto id2 = id; VV v = getConnectedComponentsVectors(g, k2, id2);
  check(v == e, "the component lists are not exactly the vertices of each label in vertex order"); check(k2 == k && id2 == id, "an argument was modified");
  VV v2 = v; VV f = getNonSingularConnectedComponentVectors(v2); check(f == big(e), "filtering does not keep exactly the components with more than one vertex"); check(v2 == v, "the component lists were modified by the filter");
  check(getNonSingularConnectedComponentVectors(g, k2, id2) == big(e), "the graph overload does not keep exactly the components with more than one vertex"); check(k2 == k && id2 == id, "an argument was modified"); }
void rt_run() {
  while (rt::more(0.5)) { int n = rt::rnd(0, 14), k = rt::rnd(1, 8); PCTSPgraph g(n); std::vector<int> id; for (int i = 0; i < n; i++) id.push_back(rt::rnd(0, k - 1)); one(g, n, n ? k : rt::rnd(0, 3), id, "labels"); }
  while (rt::more()) { Inst I = randInst(rt::rnd(0, 12), rt::rnd(0, 30), 5, 5, rt::coin()); PCTSPgraph g; I.fill(g); int n = boost::num_vertices(g); std::vector<int> id(n); 
    if (rt::coin()) { int k = n ? boost::connected_components(g, id.data()) : 0; one(g, n, k, id, "components of " + I.str()); }
    else { std::set<std::pair<int,int>> keep; for (auto e : boost::make_iterator_range(boost::edges(g))) if (rt::coin(3)) keep.insert({(int)boost::source(e, g), (int)boost::target(e, g)});
      auto f = [&](const PCTSPedge& e) { return keep.count({(int)e.m_source, (int)e.m_target}) > 0; };
      std::function<bool(const PCTSPedge&)> ff = f; auto fg = boost::make_filtered_graph(g, ff); int k = n ? boost::connected_components(fg, id.data()) : 0; one(fg, n, k, id, "filtered components of " + I.str()); } }
}
