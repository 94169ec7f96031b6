#include "scipinst.hh"
#include "pctsp/exception.hh"
using rt::check;
void rt_run() {
  while (rt::more()) {
    SInst S; int n = rt::rnd(2, 8); Inst I = randInst(n, rt::rnd(0, 100), 9, 9, true); bool tr = rt::coin();
    S.build(I, rt::rnd(0, n - 1), 3, tr); std::vector<double> x; int z = rt::rnd(0, 90); for (size_t i = 0; i < I.es.size(); i++) x.push_back(randVal(z));
    bool lp = rt::coin(); S.setx(x, lp); SCIP_SOL* sol = lp ? nullptr : &S.sol; S.scip.add_row_infeasible = rt::coin(4);
    std::vector<PCTSPvertex> all; for (int i = 0; i < n; i++) all.push_back(i); std::shuffle(all.begin(), all.end(), rt::rng);
    std::vector<PCTSPvertex> set(all.begin(), all.begin() + rt::rnd(0, n)); PCTSPvertex target = rt::rnd(0, n - 1), root = S.root;
    auto in = [&](PCTSPvertex v) { return std::find(set.begin(), set.end(), v) != set.end(); };
    bool ri = in(root), ti = in(target); rt::input(S.str() + " set=" + rt::seq(set) + " target=" + std::to_string(target) + (lp ? " (LP solution)" : ""), ri != ti && set.size() >= 2);
    SCIP_RESULT res = SCIP_DIDNOTFIND; auto set2 = set; PCTSPvertex r2 = root, t2 = target; bool threw = false;
    try { SCIP_RETCODE rc = addSubtourEliminationConstraint(&S.scip, &S.hdlr, S.g, set2, S.vm, r2, t2, sol, &res); check(rc == SCIP_OKAY, "the call failed"); }
    catch (const VertexNotFoundException&) { threw = true; check(!ri && !ti, "vertex-not-found although the set holds the root or the target"); }
    catch (const VertexInWrongSetException&) { threw = true; check(ri && ti, "wrong-set error although only one of root and target is in the set"); }
    check(threw == (ri == ti), "a set with both or neither of root and target is not rejected");
    check(set2 == set && r2 == root && t2 == target, "an argument was modified"); check(S.vm.size() == I.es.size() && (int)boost::num_edges(S.g) == (int)I.es.size(), "the graph or the variable map was modified");
    if (threw) { check(S.scip.rows.empty() && S.scip.allconss.empty(), "a row was added in spite of the rejection"); check(res == SCIP_DIDNOTFIND, "the result changed in spite of the rejection"); continue; }
    std::map<int, double> want; for (size_t i = 0; i < I.es.size(); i++) { auto e = I.es[i]; if (e.first != e.second && in(e.first) && in(e.second)) want[i] = 1; }
    for (auto v : set) if (ri || v != target) want[S.eid(v, v)] = -1; if (ri) want[S.eid(target, target)] = 1;
    check(S.scip.allrows.size() == 1, "not exactly one row was built"); SCIP_Row* row = S.scip.allrows[0]; for (auto& c : row->coefs) check(tr ? std::find(S.tvar.begin(), S.tvar.end(), c.first) != S.tvar.end() : true, "the row is not over transformed variables");
    check(S.row(row) == want, "the row does not have exactly the prescribed coefficients"); check(row->lhs <= -S.scip.inf && row->rhs == 0, "wrong sides"); check(!row->local, "the row is only locally valid");
    double act = 0; for (auto& w : want) act += w.second * x[w.first]; bool add = act > 1e-6;
    if (act < 9e-7 || act > 1.1e-6) { check(S.scip.rows.size() == (add ? 1u : 0u), "the row is not added exactly when the cut is efficacious"); check(res == (!add ? SCIP_DIDNOTFIND : S.scip.add_row_infeasible ? SCIP_CUTOFF : SCIP_SEPARATED), "the result does not say whether the row was added"); }
    else check((S.scip.rows.size() == 1) == (res != SCIP_DIDNOTFIND), "the result does not say whether the row was added"); } }
