#include "graphs.hh"
#include "pctsp/exception.hh"
#include "pctsp/renaming.hh"
using rt::check;
typedef boost::bimap<PCTSPvertex, int> BM;
void rt_run() {
  while (rt::more()) {
    int k = rt::rnd(1, 9); std::set<int> s; while ((int)s.size() < k) s.insert(rt::coin(3) ? rt::rnd(0, 12) : rt::coin() ? rt::rnd(-40, 40) : rt::rnd(-2000000000, 2000000000));
    std::vector<int> ids(s.begin(), s.end()); std::shuffle(ids.begin(), ids.end(), rt::rng);
    auto any = [&] { return ids[rt::rnd(0, k - 1)]; };
    { // vertices
      std::vector<int> v; for (int L = rt::rnd(0, 14); L > 0; L--) v.push_back(any());
      rt::input("vertices=" + rt::seq(v), s.size() > 1 && v.size() > s.size());
      std::vector<int> order; for (int x : v) if (std::find(order.begin(), order.end(), x) == order.end()) order.push_back(x);
      auto want = [&](int x) { return (PCTSPvertex)(std::find(order.begin(), order.end(), x) - order.begin()); };
      BM b; auto c = v; renameVertices(b, c); check(c == v, "the vertex list was modified");
      check(b.size() == order.size(), "not one id per distinct vertex");
      for (int x : order) check(b.right.find(x) != b.right.end() && b.right.at(x) == want(x), "ids are not 0..k-1 in order of first appearance");
      BM b2; std::list<int> l(v.begin(), v.end()); renameVertices(b2, l); check(b2.size() == order.size(), "not one id per distinct vertex");
      for (int x : order) check(b2.right.find(x) != b2.right.end() && b2.right.at(x) == want(x), "ids are not 0..k-1 in order of first appearance");
      auto nv = getNewVertices(b, v); check(nv.size() == v.size(), "translation changes the length"); for (size_t i = 0; i < v.size(); i++) check(nv[i] == want(v[i]), "vertex translated to the wrong id");
      auto back = getOldVertices(b, nv); check(back == v, "translating vertices there and back is not the identity");
      std::list<PCTSPvertex> nl(nv.begin(), nv.end()); check(getOldVertices(b, nl) == v, "translating vertices there and back is not the identity");
      std::map<int, int> om; for (int x : order) om[x] = rt::rnd(-50, 50); auto keep = om;
      PCTSPgraph g; for (size_t i = 0; i < order.size(); i++) boost::add_vertex(g); auto pm = boost::get(boost::vertex_distance, g);
      fillRenamedVertexMap(pm, om, b); check(om == keep, "the prize map was modified"); for (int x : order) check(pm[want(x)] == om[x], "prize of a renamed vertex");
    }
    { // edges
      std::vector<std::pair<int,int>> e; for (int L = rt::rnd(0, 12); L > 0; L--) { int x = any(), y = rt::coin(5) ? x : any(); e.push_back({x, y}); }
      std::ostringstream o; for (auto& x : e) o << "(" << x.first << "," << x.second << ")"; rt::input("edges=" + o.str(), e.size() > 1);
      std::vector<int> order; for (auto& x : e) for (int y : {x.first, x.second}) if (std::find(order.begin(), order.end(), y) == order.end()) order.push_back(y);
      auto want = [&](int x) { return (PCTSPvertex)(std::find(order.begin(), order.end(), x) - order.begin()); };
      BM b; auto c = e; auto ne = renameEdges(b, c); check(c == e, "the edge list was modified");
      check(b.size() == order.size(), "not one id per distinct vertex"); check(ne.size() == e.size(), "number of renamed edges");
      for (int x : order) check(b.right.find(x) != b.right.end() && b.right.at(x) == want(x), "ids are not 0..k-1 in order of first appearance");
      for (size_t i = 0; i < e.size(); i++) check(ne[i].first == want(e[i].first) && ne[i].second == want(e[i].second), "renamed edge");
      check(getNewEdges(b, e) == ne, "edge translated to the wrong ids"); check(getOldEdges(b, ne) == e, "translating edges there and back is not the identity");
      PCTSPgraph g; for (size_t i = 0; i < order.size(); i++) boost::add_vertex(g); auto cm = boost::get(boost::edge_weight, g);
      std::set<std::pair<int,int>> in; for (auto& x : ne) { std::pair<int,int> y{std::min(x.first, x.second), std::max(x.first, x.second)}; if (in.insert(y).second && !rt::coin(25)) boost::add_edge(x.first, x.second, g); }
      std::map<std::pair<int,int>, int> om; bool miss = false; std::map<std::pair<int,int>, int> sym;
      for (auto& x : e) { std::pair<int,int> y{std::min(x.first, x.second), std::max(x.first, x.second)}; if (!sym.count(y)) sym[y] = rt::rnd(-99, 99); om[x] = sym[y]; if (!boost::edge(want(x.first), want(x.second), g).second) miss = true; }
      if (!order.empty() && rt::coin(4)) { int x = order[rt::rnd(0, order.size() - 1)], y = order[rt::rnd(0, order.size() - 1)]; std::pair<int,int> z{std::min(x, y), std::max(x, y)}; if (!sym.count(z)) { sym[z] = 1; om[{x, y}] = 1; if (!boost::edge(want(x), want(y), g).second) miss = true; } }
      bool threw = false; auto keep = om; try { fillCostMapFromRenamedMap(g, cm, om, b); } catch (EdgeNotFoundException&) { threw = true; }
      check(threw == miss, "edge-not-found error for a missing edge, and only then"); check(om == keep, "the cost map was modified");
      if (!miss) for (auto& [x, y] : om) check(cm[boost::edge(want(x.first), want(x.second), g).first] == y, "cost of a renamed edge");
    }
  }
}
