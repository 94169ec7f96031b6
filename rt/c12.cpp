#include "graphs.hh"
#include "pctsp/algorithms.hh"
using rt::check;
typedef std::map<SCIP_Var*, double> Lin;
static Lin lin(SCIP_Cons* c) { Lin l; check(c->vars.size() == c->vals.size(), "a constraint with a bad length"); for (size_t i = 0; i < c->vars.size(); i++) { check(c->vars[i] != nullptr, "a constraint over a NULL variable"); l[c->vars[i]] += c->vals[i]; } for (auto it = l.begin(); it != l.end();) if (it->second == 0) it = l.erase(it); else ++it; return l; }
struct Want { double lhs, rhs; Lin l; };
static void model(const Inst& I, PCTSPgraph& g, Scip& S, std::map<PCTSPedge, SCIP_VAR*>& vm, int root, int quota) {
  check(S.sense == SCIP_OBJSENSE_MINIMIZE, "the objective is not minimised");
  check(S.vars.size() == I.es.size() && vm.size() == I.es.size() && S.nvars_created == (int)I.es.size(), "not one variable per edge");
  std::vector<SCIP_Var*> var; std::set<SCIP_Var*> dist;
  for (size_t i = 0; i < I.es.size(); i++) { auto e = boost::edge(I.es[i].first, I.es[i].second, g).first; check(vm.count(e), "an edge without a variable"); auto v = vm[e]; var.push_back(v); dist.insert(v); check(v->type == SCIP_VARTYPE_BINARY && v->lb == 0 && v->ub == 1, "an edge variable is not binary"); check(v->obj == I.cost[i], "the objective coefficient of an edge is not its cost"); check(v->index >= 0, "a variable was not added"); }
  check(dist.size() == I.es.size(), "two edges share a variable");
  std::vector<Want> want; std::vector<SCIP_Var*> loop(I.n); for (size_t i = 0; i < I.es.size(); i++) if (I.es[i].first == I.es[i].second) loop[I.es[i].first] = var[i];
  { Want w{-S.inf, (double)-quota, {}}; for (int v = 0; v < I.n; v++) if (I.prize[v]) w.l[loop[v]] = -I.prize[v]; want.push_back(w); } { Want w{1, 1, {}}; w.l[loop[root]] = 1; want.push_back(w); }
  for (int v = 0; v < I.n; v++) { Want w{0, 0, {}}; w.l[loop[v]] = -2; for (size_t i = 0; i < I.es.size(); i++) if (I.es[i].first != I.es[i].second && (I.es[i].first == v || I.es[i].second == v)) w.l[var[i]] = 1; want.push_back(w); }
  std::vector<SCIP_Cons*> cs; for (auto c : S.conss) if (c->kind == "linear") cs.push_back(c);
  check(cs.size() == want.size(), "the number of linear constraints is not one per vertex plus two"); size_t made = 0; for (auto c : S.allconss) if (c->kind == "linear") made++; check(made == cs.size(), "a constraint was created but not added");
  std::vector<bool> used(cs.size(), false);
  for (size_t k = 0; k < want.size(); k++) { bool hit = false; for (size_t j = 0; j < cs.size() && !hit; j++) if (!used[j] && (cs[j]->lhs == want[k].lhs || (want[k].lhs <= -S.inf && cs[j]->lhs <= -S.inf)) && cs[j]->rhs == want[k].rhs && lin(cs[j]) == want[k].l) { used[j] = true; hit = true; }
    check(hit, k == 0 ? "the prize constraint is missing or wrong" : k == 1 ? "the root constraint is missing or wrong" : "the degree constraint of vertex " + std::to_string(k - 2) + " is missing or wrong"); }
  for (auto c : cs) { check(!c->local && !c->modifiable && c->check && c->enforce, "a model constraint is local, modifiable, unchecked or not enforced"); check(c->nrel == 1, "a constraint is not released once"); } }
static void clean(Scip& S) { for (auto v : S.vars) delete v; for (auto c : S.allconss) delete c; }
void rt_run() {
  while (rt::more()) {
    int n = rt::rnd(1, 8), kind = rt::rnd(0, 3); Inst I = randInst(n, rt::rnd(0, 100), 20, rt::coin(4) ? 0 : 9, kind != 1, rt::coin(4)); int root = rt::rnd(0, n - 1), total = 0; for (int p : I.prize) total += p; int quota = rt::rnd(-2, total + 3);
    if (kind == 2) { std::vector<size_t> ls; for (size_t i = 0; i < I.es.size(); i++) if (I.es[i].first == I.es[i].second) ls.push_back(i); size_t x = ls[rt::rnd(0, (int)ls.size() - 1)]; I.cm.erase(I.es[x]); I.es.erase(I.es.begin() + x); I.cost.erase(I.cost.begin() + x); }
    PCTSPgraph g; I.fill(g); Scip S; std::string d = I.str() + " root=" + std::to_string(root) + " quota=" + std::to_string(quota); PCTSPvertex r = root; auto cm = boost::get(boost::edge_weight, g); auto pm = boost::get(boost::vertex_distance, g);
    if (kind == 0 || kind == 2) { rt::input(d + " model of the graph as given", I.es.size() > (size_t)n);
      if (kind == 0) check(hasSelfLoopsOnAllVertices(g), "a graph with all self loops is said to lack one"); else check(!hasSelfLoopsOnAllVertices(g), "a missing self loop goes unnoticed");
      std::map<PCTSPedge, int> w; std::map<PCTSPedge, SCIP_VAR*> vm; putPrizeOntoEdgeWeights(g, pm, w); check(w.size() == I.es.size(), "not one weight per edge");
      for (size_t i = 0; i < I.es.size(); i++) check(w.at(boost::edge(I.es[i].first, I.es[i].second, g).first) == (I.es[i].first == I.es[i].second ? I.prize[I.es[i].first] : 0), "the weight of an edge is wrong");
      bool thrown = false; try { SCIP_RETCODE rc = PCTSPmodelWithoutSECs(&S, g, cm, w, quota, r, vm); check(rc == SCIP_OKAY, "modelling failed"); } catch (const EdgeNotFoundException&) { thrown = true; }
      if (kind == 2) { check(thrown, "a missing self loop is not reported"); clean(S); continue; } check(!thrown, "a missing self loop is reported though there is none"); model(I, g, S, vm, root, quota); }
    else { rt::input(d + (kind == 1 ? " without self loops" : "") + " whole model", I.es.size() > (size_t)n); // the whole model adds missing loops of cost zero
      if (kind == 1) { bool had = hasSelfLoopsOnAllVertices(g); check(!had, "a missing self loop goes unnoticed"); }
      std::vector<PCTSPedge> h; std::string name = "t"; auto vm = modelPrizeCollectingTSP(&S, g, h, cm, pm, quota, r, name);
      Inst J = I; if (kind == 1) for (int v = 0; v < n; v++) J.add(v, v, 0); check(boost::num_edges(g) == J.es.size(), "the graph does not hold its edges and one self loop per vertex"); model(J, g, S, vm, root, quota); S.probdata = nullptr; }
    clean(S); } }
