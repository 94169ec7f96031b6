// A graph instance together with a recording mock of the solver: one variable per edge, one solution.
#ifndef VERIF_SCIPINST_HH
#define VERIF_SCIPINST_HH
#include "graphs.hh"
#include "pctsp/data_structures.hh"
#include "pctsp/sciputils.hh"
#include "pctsp/solution.hh"
#include "pctsp/separation.hh"
#include "pctsp/subtour_elimination.hh"
struct SInst {
  Inst I; PCTSPgraph g; SCIP scip; PCTSPedgeVariableMap vm; SCIP_Sol sol, lp; PCTSPvertex root = 0; int quota = 0; ProbDataPCTSP* pd = nullptr; SCIP_Conshdlr hdlr;
  std::vector<SCIP_Var*> var, tvar; std::vector<double> x; std::map<SCIP_Var*, int> idx; std::vector<SCIP_Node*> nodes;
  void build(const Inst& J, PCTSPvertex r, int q, bool trans) {
    I = J; root = r; quota = q; I.fill(g); hdlr.name = "h";
    auto w = boost::get(boost::edge_weight, g);
    for (size_t i = 0; i < I.es.size(); i++) {
      SCIP_VAR* v; SCIPcreateVar(&scip, &v, ("v" + std::to_string(i)).c_str(), 0, 1, I.cost[i], SCIP_VARTYPE_BINARY, 1, 0, 0, 0, 0, 0, 0); SCIPaddVar(&scip, v);
      SCIP_VAR* t = v; if (trans) { SCIPcreateVar(&scip, &t, ("t_v" + std::to_string(i)).c_str(), 0, 1, I.cost[i], SCIP_VARTYPE_BINARY, 1, 0, 0, 0, 0, 0, 0); v->trans = t; }
      var.push_back(v); tvar.push_back(t); idx[v] = i; idx[t] = i; vm[boost::edge(I.es[i].first, I.es[i].second, g).first] = v; }
    x.assign(I.es.size(), 0.0);
    pd = new ProbDataPCTSP(&g, &root, &vm, &quota); scip.probdata = pd; }
  void setx(const std::vector<double>& y, bool aslp) { x = y; for (size_t i = 0; i < y.size(); i++) { sol.val[var[i]] = y[i]; if (aslp) lp.val[var[i]] = y[i]; } scip.lpsol = &lp; }
  SCIP_Node* node(int k, SCIP_Node* parent = nullptr, double lb = 0) { nodes.push_back(new SCIP_Node{k, lb, parent}); return nodes.back(); }
  std::string str() const { std::ostringstream o; o << I.str() << " root=" << root << " quota=" << quota << " x=" << rt::seq(x); return o.str(); }
  std::map<int, double> row(SCIP_Row* r) { std::map<int, double> m; for (auto& c : r->coefs) { rt::check(idx.count(c.first), "the row contains an unknown variable"); rt::check(!m.count(idx[c.first]), "the row contains a variable twice"); m[idx[c.first]] = c.second; } return m; }
  int eid(int u, int v) const { for (size_t i = 0; i < I.es.size(); i++) if ((I.es[i].first == u && I.es[i].second == v) || (I.es[i].first == v && I.es[i].second == u)) return (int)i; return -1; }
  // component label of every vertex in the graph of the given edges (no loops needed)
  std::vector<int> comps(const std::vector<int>& edges) const { std::vector<int> c(I.n); for (int i = 0; i < I.n; i++) c[i] = i; bool ch = true; while (ch) { ch = false; for (int e : edges) { int a = c[I.es[e].first], b = c[I.es[e].second]; if (a != b) { int m = std::min(a, b); c[I.es[e].first] = c[I.es[e].second] = m; ch = true; } } } return c; }
  static bool zero(double v) { return v < 1e-9 && v > -1e-9; }
  std::vector<int> support() const { std::vector<int> s; for (size_t i = 0; i < x.size(); i++) if (I.es[i].first != I.es[i].second && x[i] > 0 && !zero(x[i])) s.push_back(i); return s; }
  ~SInst() { delete pd; for (auto n : nodes) delete n; for (size_t i = 0; i < var.size(); i++) { if (tvar[i] != var[i]) delete tvar[i]; delete var[i]; } for (auto r : scip.allrows) delete r; for (auto c : scip.allconss) delete c; }
};
// random values: 0, tiny, fractional, 1, 2
inline double randVal(int zeroPercent) { int k = rt::rnd(0, 99); if (k < zeroPercent) return 0; static const double vs[] = {1e-10, 1e-7, 0.25, 0.5, 1.0/3, 0.999999, 1.0, 1.0, 2.0, 1.0 - 1e-10, 1.5, 0.1}; return vs[rt::rnd(0, 11)]; }
#endif
