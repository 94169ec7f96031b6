#include "graphs.hh"
#include "pctsp/algorithms.hh"
SummaryStats getSummaryStatsFromSCIP(SCIP* scip);
using rt::check;
void rt_run() {
  while (rt::more()) {
    int n = rt::coin(3) ? rt::rnd(1, 4) : rt::rnd(1, 40), len = rt::rnd(1, 60); Scip S; std::vector<SCIP_Node> nodes(n + 1); std::vector<bool> seen(n + 1, false); std::vector<long> d(n + 1, 0), f(n + 1, 0);
    for (int i = 1; i <= n; i++) { nodes[i].number = i; nodes[i].lb = rt::rnd(0, 50); nodes[i].parent = i == 1 ? nullptr : &nodes[rt::rnd(1, i - 1)]; }
    NodeEventhdlr* h = new NodeEventhdlr(&S); SCIPincludeObjEventhdlr(&S, h, TRUE); SCIP_Eventhdlr* raw = &h->raw_; h->scip_initsol(&S, raw);
    check(S.caught.size() == 1 && (S.caught[0] & SCIP_EVENTTYPE_NODEFOCUSED), "the handler does not listen to node events");
    std::string desc; int cur = 0; bool back = false;
    std::vector<std::array<int, 3>> plan;
    for (int k = 0; k < len; k++) { int op = cur == 0 ? 0 : rt::rnd(0, 3); int a = 0;
      if (op == 0) { int p = rt::rnd(0, 3); a = cur == 0 && rt::coin() ? 1 : p == 0 && cur ? cur : rt::rnd(1, n); if (seen[a] && a != cur) back = true; cur = a; seen[a] = true; }
      else if (op < 3) a = rt::coin(3) ? 0 : rt::rnd(1, 9); else a = cur;
      plan.push_back({op, a, cur}); desc += (op == 0 ? " focus" : op == 1 ? " disjoint+" : op == 2 ? " flow+" : " event@") + std::to_string(a); }
    rt::input(desc, back);
    std::fill(seen.begin(), seen.end(), false);
    auto ok = [&]() { auto rows = h->getNodeStatsVector(); long sd = 0, sf = 0;
      for (int i = 1; i <= n; i++) if (seen[i]) { check((int)rows.size() >= i, "a visited node has no row"); auto& r = rows[i - 1]; check((int)r.node_id == i, "the row of a node has another id"); check(r.num_sec_disjoint_tour == d[i], "the disjoint-tour cuts of a node are miscounted"); check(r.num_sec_maxflow_mincut == f[i], "the max-flow cuts of a node are miscounted"); 
        auto q = h->getNodeStats(&nodes[i]); check(q.node_id == r.node_id && q.num_sec_disjoint_tour == d[i] && q.num_sec_maxflow_mincut == f[i], "the statistics of a node are not its row"); sd += d[i]; sf += f[i]; }
      check(numDisjointTourSECs(rows) == sd && numMaxflowMincutSECs(rows) == sf, "a total is not the sum of its column");
      auto s = getSummaryStatsFromSCIP(&S); check(s.num_sec_disjoint_tour == sd && s.num_sec_maxflow_mincut == sf, "a total in the summary is not the sum of its column"); };
    for (auto& p : plan) { S.node = &nodes[p[2]];
      if (p[0] == 0 || p[0] == 3) { seen[p[2]] = true; S.upper = rt::rnd(0, 90); h->scip_exec(&S, raw, nullptr, nullptr); }
      else if (p[0] == 1) { h->incrementNumSecDisjointTour(&S, p[1]); d[p[2]] += p[1]; } else { h->incrementNumSecMaxflowMincut(&S, p[1]); f[p[2]] += p[1]; }
      auto q = h->getNodeStats(&S); check((int)q.node_id == p[2], "the statistics of the current node are those of another"); if (rt::coin(6)) ok(); }
    ok(); S.eventhdlrs.clear(); delete h;
    // totals of arbitrary rows
    std::vector<NodeStats> rows(rt::rnd(0, 9)); long a = 0, b = 0; for (auto& r : rows) { r = NodeStats{}; r.node_id = rt::rnd(0, 9); r.num_sec_disjoint_tour = rt::rnd(0, 99); r.num_sec_maxflow_mincut = rt::rnd(0, 99); r.num_cost_cover_disjoint_paths = rt::rnd(0, 99); a += r.num_sec_disjoint_tour; b += r.num_sec_maxflow_mincut; }
    check(numDisjointTourSECs(rows) == a && numMaxflowMincutSECs(rows) == b, "a total is not the sum of its column"); } }
