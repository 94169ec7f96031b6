#include "rt.hh"
#include "pctsp/graph.hh"
#include "pctsp/branching.hh"
#include "pctsp/logger.hh"
#include <climits>
using rt::check;
static int level(int py) { namespace t = boost::log::trivial; switch (py) { case 50: return t::fatal; case 40: return t::error; case 30: return t::warning; case 20: return t::info; case 10: return t::debug; case 0: return t::trace; } return t::info; }
struct R { std::string name; int pr, depth; };
static std::string str(const std::vector<R>& v) { std::ostringstream o; for (auto& r : v) o << " " << r.name << ":" << r.pr << "/" << r.depth; return o.str(); }
void rt_run() {
  static const int special[] = {INT_MIN, -1, 0, 1, 5, 9, 10, 11, 15, 20, 21, 25, 29, 30, 31, 35, 39, 40, 41, 45, 49, 50, 51, 100, INT_MAX};
  for (int v : special) { rt::input("python level " + std::to_string(v)); check(getBoostLevelFromPyLevel(v) == level(v), "wrong native log level"); }
  for (int v = -300; v <= 300; v++) { rt::input("python level " + std::to_string(v)); check(getBoostLevelFromPyLevel(v) == level(v), "wrong native log level"); }
  static const char* names[] = {"fullstrong", "relpscost", "mostinf", "leastinf", "pscost", "allfullstrong", "random", "cloud", "lookahead", "multaggr", "nodereopt", "vanillafullstrong", "inference", "distribution"};
  static const int prs[] = {-536870912, -10001, -10000, -9999, -1, 0, 50, 100, 999, 1000, 1001, 2000, 2499, 2500, 2501, 2999, 3000, 3001, 3999, 4000, 4001, 9999, 10000, 99999, 100000, 100001, 536870911};
  while (rt::more()) {
    SCIP s; std::vector<R> before; bool top = rt::coin(3);
    std::vector<std::string> nm(names, names + 14); for (int i = 13; i > 0; i--) std::swap(nm[i], nm[rt::rnd(0, i)]);
    nm.resize(rt::rnd(0, 14)); unsigned code = rt::rnd(0, 6); if (rt::coin(10)) code = 1000000 + rt::rnd(0, 5);
    bool hasStrong = false; for (auto& n : nm) if (n == "fullstrong") hasStrong = true;
    if (code == 2 && !hasStrong) nm.push_back("fullstrong");
    for (auto& n : nm) { auto r = new SCIP_Branchrule{n, prs[rt::rnd(0, 26)], rt::rnd(-1, 20), nullptr}; s.rules.push_back(r); before.push_back({n, r->priority, r->maxdepth}); }
    int depth = rt::rnd(-1, 30); bool two = rt::coin(4) && code != 2;
    rt::input("strategy " + std::to_string(code) + " depth " + std::to_string(depth) + str(before), nm.size() > 1);
    if (two) setBranchingStrategy(&s, code); else setBranchingStrategy(&s, code, depth);
    check(s.rules.size() == before.size(), "rules were added or removed");
    std::string chosen = code == 0 ? "relpscost" : (code == 1 || code == 2) ? "fullstrong" : "";
    int cp = 0; bool has = false; for (auto r : s.rules) if (r->name == chosen) { has = true; cp = r->priority; }
    for (size_t i = 0; i < before.size(); i++) { auto r = s.rules[i];
      check(r->name == before[i].name, "a rule was renamed");
      if (has && r->name != chosen) check(cp > r->priority, "the chosen rule does not have a strictly higher priority than " + r->name);
      if (chosen.empty()) check(r->priority == before[i].pr && r->maxdepth == before[i].depth, "an unknown strategy changes a rule");
      int want = code == 2 && r->name == "fullstrong" ? depth : before[i].depth;
      check(r->maxdepth == want, "wrong depth limit of " + r->name); }
    for (auto r : s.rules) delete r;
  }
}
