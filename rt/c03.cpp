#include "graphs.hh"
#include "pctsp/walk.hh"
using rt::check;
static void one(std::vector<int> t, int root, bool simple) {
  std::list<PCTSPvertex> l(t.begin(), t.end()), orig = l;
  rt::input("tour=" + rt::seq(t) + " root=" + std::to_string(root), t.size() >= 3);
  auto r = ints(ReorderTourFromRoot<PCTSPvertex>(l, (PCTSPvertex)root));
  check(l == orig, "the input tour was modified");
  check(r.size() == t.size(), "the re-rooted tour has another length");
  check(r.front() == root && r.back() == root, "the re-rooted tour does not start and end at the root");
  int n = (int)t.size() - 1; bool rot = false;
  if (n == 0) rot = r == t;
  for (int k = 0; k < n && !rot; k++) { if (t[k] != root) continue; bool ok = true; for (int i = 0; i <= n; i++) if (r[i] != t[(k + i) % n]) ok = false; rot = ok; }
  check(rot, "the result is not a cyclic rotation of the input");
}
void rt_run() {
  for (int n = 1; n <= 7; n++) for (int root = 0; root < n; root++) { std::vector<int> t; for (int i = 0; i < n; i++) t.push_back(i); t.push_back(0); one(t, root, true); }
  while (rt::more()) {
    int n = rt::rnd(1, 8), m = rt::rnd(1, 12); std::vector<int> t; for (int i = 0; i < n; i++) t.push_back(rt::rnd(0, m)); 
    if (rt::coin()) { std::set<int> s; std::vector<int> u; for (int x : t) if (s.insert(x).second) u.push_back(x); t = u; }
    t.push_back(t[0]); one(t, t[rt::rnd(0, t.size() - 1)], false);
  }
}
