#include "scipinst.hh"
#include <deque>
using rt::check;
static std::vector<double> want(const std::vector<double>& h, int w) { if (w < 1) return {}; size_t n = h.size(), k = std::min<size_t>(n, w); return std::vector<double>(h.end() - k, h.end()); }
static bool tail(const std::vector<double>& l, double th, int w) { return w >= 1 && (int)l.size() == w && l.size() >= 2 && l.front() - l.back() < th; }
static double rgap() { static const double vs[] = {0, 0.5, 0.25, 1, 1e20, 0.01, 0.011, 0.125, 3}; return rt::coin() ? vs[rt::rnd(0, 8)] : rt::rnd(0, 1000) / 128.0; }
void rt_run() {
  while (rt::more(0.6)) {
    int w = rt::rnd(-1, 8), n = rt::rnd(1, 40); double th = rt::coin() ? rgap() : -rgap(); std::list<double> l; std::vector<double> h;
    bool down = rt::coin(3);
    for (int i = 0; i < n; i++) { double x = rgap(); if (down && !h.empty()) x = std::max(0.0, h.back() - x / 8); if (rt::coin(4) && !h.empty()) x = h[rt::rnd(0, h.size() - 1)]; h.push_back(x);
      rt::input("W=" + std::to_string(w) + " threshold=" + std::to_string(th) + " gaps=" + rt::seq(h), w >= 1);
      double y = x; int w2 = w; double t2 = th; pushIntoRollingLpGapList(l, y, w2);
      auto e = want(h, w); check(std::vector<double>(l.begin(), l.end()) == e, "the rolling list is not the last W gaps, oldest first");
      check(isNodeTailingOff(l, t2, w2) == tail(e, th, w), "tailing off is reported for the wrong lists");
      check(y == x && w2 == w && t2 == th && std::vector<double>(l.begin(), l.end()) == e, "an argument was modified"); } }
  // through the callback: every node has its own list
  while (rt::more()) {
    SInst S; Inst I; I.n = 6; for (auto e : {std::make_pair(0,1),{1,2},{0,2},{3,4},{4,5},{3,5}}) I.add(e.first, e.second, 1); for (int i = 0; i < 6; i++) { I.add(i, i, 0); I.prize.push_back(1); }
    S.build(I, 0, 3, rt::coin()); S.setx(std::vector<double>(12, 1.0), true);
    int w = rt::rnd(-1, 4); double th = rgap() / 4; PCTSPconshdlrSubtour c(&S.scip, true, th, true, w, 1);
    std::map<int, std::vector<double>> h; std::string log;
    for (int k = rt::rnd(1, 16); k > 0; k--) { int id = rt::rnd(1, 3); double lb = rt::rnd(0, 64); S.scip.primal = 64; S.scip.node = S.node(id, nullptr, lb); int st = rt::rnd(0, 3); S.scip.lpstat = (SCIP_LPSOLSTAT)st;
      double gap = SCIPcomputeGap(SCIPepsilon(&S.scip), SCIPinfinity(&S.scip), SCIPgetPrimalbound(&S.scip), lb); h[id].push_back(gap);
      log += " node" + std::to_string(id) + ":" + std::to_string(gap) + "/lp" + std::to_string(st); rt::input("callback W=" + std::to_string(w) + " threshold=" + std::to_string(th) + log, w >= 1);
      int b0 = S.scip.branched; SCIP_RESULT res = SCIP_DIDNOTRUN; SCIP_RETCODE rc = c.scip_enfolp(&S.scip, &S.hdlr, nullptr, 0, 0, FALSE, &res); check(rc == SCIP_OKAY, "enfolp failed");
      bool t = tail(want(h[id], w), th, w) && (st == SCIP_LPSOLSTAT_OPTIMAL || st == SCIP_LPSOLSTAT_UNBOUNDEDRAY);
      check(S.scip.branched - b0 == (t ? 1 : 0), "branching is not requested exactly for nodes that are tailing off"); check(res == (t ? SCIP_BRANCHED : SCIP_INFEASIBLE), "wrong enforcement result"); } }
}
