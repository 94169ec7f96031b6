// Mock of the part of the SCIP C API that /repo uses.  It records everything that
// is created so that a driver can inspect it; it never solves anything.
#ifndef VERIF_MOCK_SCIP_H
#define VERIF_MOCK_SCIP_H
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef unsigned int SCIP_Bool;
typedef double SCIP_Real;
typedef long long SCIP_Longint;
#define TRUE 1
#define FALSE 0

enum SCIP_Retcode { SCIP_OKAY = 1, SCIP_ERROR = 0, SCIP_PLUGINNOTFOUND = -11, SCIP_INVALIDDATA = -9, SCIP_PARAMETERUNKNOWN = -12 };
typedef enum SCIP_Retcode SCIP_RETCODE;
enum SCIP_Result { SCIP_DIDNOTRUN = 1, SCIP_DELAYED = 2, SCIP_DIDNOTFIND = 3, SCIP_FEASIBLE = 4, SCIP_INFEASIBLE = 5,
  SCIP_UNBOUNDED = 6, SCIP_CUTOFF = 7, SCIP_SEPARATED = 8, SCIP_NEWROUND = 9, SCIP_REDUCEDDOM = 10, SCIP_CONSADDED = 11,
  SCIP_CONSCHANGED = 12, SCIP_BRANCHED = 13, SCIP_SOLVELP = 14, SCIP_FOUNDSOL = 15 };
typedef enum SCIP_Result SCIP_RESULT;
enum SCIP_Status { SCIP_STATUS_UNKNOWN = 0, SCIP_STATUS_USERINTERRUPT = 1, SCIP_STATUS_NODELIMIT = 2, SCIP_STATUS_TOTALNODELIMIT = 3,
  SCIP_STATUS_STALLNODELIMIT = 4, SCIP_STATUS_TIMELIMIT = 5, SCIP_STATUS_MEMLIMIT = 6, SCIP_STATUS_GAPLIMIT = 7, SCIP_STATUS_SOLLIMIT = 8,
  SCIP_STATUS_BESTSOLLIMIT = 9, SCIP_STATUS_RESTARTLIMIT = 10, SCIP_STATUS_OPTIMAL = 11, SCIP_STATUS_INFEASIBLE = 12, SCIP_STATUS_UNBOUNDED = 13,
  SCIP_STATUS_INFORUNBD = 14, SCIP_STATUS_TERMINATE = 15 };
typedef enum SCIP_Status SCIP_STATUS;
enum SCIP_Varstatus { SCIP_VARSTATUS_ORIGINAL = 0, SCIP_VARSTATUS_LOOSE = 1, SCIP_VARSTATUS_COLUMN = 2, SCIP_VARSTATUS_FIXED = 3,
  SCIP_VARSTATUS_AGGREGATED = 4, SCIP_VARSTATUS_MULTAGGR = 5, SCIP_VARSTATUS_NEGATED = 6 };
typedef enum SCIP_Varstatus SCIP_VARSTATUS;
enum SCIP_Vartype { SCIP_VARTYPE_BINARY = 0, SCIP_VARTYPE_INTEGER = 1, SCIP_VARTYPE_IMPLINT = 2, SCIP_VARTYPE_CONTINUOUS = 3 };
typedef enum SCIP_Vartype SCIP_VARTYPE;
enum SCIP_Objsense { SCIP_OBJSENSE_MAXIMIZE = -1, SCIP_OBJSENSE_MINIMIZE = 1 };
typedef enum SCIP_Objsense SCIP_OBJSENSE;
enum SCIP_LPSolStat { SCIP_LPSOLSTAT_NOTSOLVED = 0, SCIP_LPSOLSTAT_OPTIMAL = 1, SCIP_LPSOLSTAT_INFEASIBLE = 2, SCIP_LPSOLSTAT_UNBOUNDEDRAY = 3,
  SCIP_LPSOLSTAT_OBJLIMIT = 4, SCIP_LPSOLSTAT_ITERLIMIT = 5, SCIP_LPSOLSTAT_TIMELIMIT = 6, SCIP_LPSOLSTAT_ERROR = 7 };
typedef enum SCIP_LPSolStat SCIP_LPSOLSTAT;
typedef unsigned int SCIP_PROPTIMING;
typedef unsigned int SCIP_PRESOLTIMING;
#define SCIP_PROPTIMING_BEFORELP 0x001u
#define SCIP_PROPTIMING_AFTERLPNODE 0x004u
#define SCIP_PRESOLTIMING_FAST 0x002u
#define SCIP_PRESOLTIMING_ALWAYS 0x01cu
typedef unsigned long long SCIP_EVENTTYPE;
#define SCIP_EVENTTYPE_NODEFOCUSED   (1ull << 26)
#define SCIP_EVENTTYPE_NODEFEASIBLE  (1ull << 27)
#define SCIP_EVENTTYPE_NODEINFEASIBLE (1ull << 28)
#define SCIP_EVENTTYPE_NODEBRANCHED  (1ull << 29)
#define SCIP_EVENTTYPE_NODESOLVED (SCIP_EVENTTYPE_NODEFEASIBLE|SCIP_EVENTTYPE_NODEINFEASIBLE|SCIP_EVENTTYPE_NODEBRANCHED)
#define SCIP_EVENTTYPE_NODEEVENT (SCIP_EVENTTYPE_NODEFOCUSED|SCIP_EVENTTYPE_NODESOLVED)
#define SCIP_EVENTTYPE_LPSOLVED (1ull << 32)
#define SCIP_EVENTTYPE_FIRSTLPSOLVED (1ull << 31)
#define SCIP_EVENTTYPE_BESTSOLFOUND (1ull << 34)
#define SCIP_EVENTTYPE_POORSOLFOUND (1ull << 33)
#define SCIP_MAXSTRLEN 1024
#define SCIP_MAXTREEDEPTH 1073741822
#define SCIP_INVALID 1e99

#define SCIP_CALL(x) do { SCIP_RETCODE _restat_; if ((_restat_ = (x)) != SCIP_OKAY) return _restat_; } while (0)
#define SCIP_CALL_EXC(x) do { SCIP_RETCODE _restat_; if ((_restat_ = (x)) != SCIP_OKAY) throw _restat_; } while (0)

typedef int SCIP_LOCKTYPE;
struct SCIP_Cons; struct SCIP_Conshdlr; struct SCIP_ConsData; struct SCIP_Eventhdlr; struct SCIP_EventData; struct SCIP_Event;
struct SCIP_Row; struct SCIP_Sol; struct SCIP_Var; struct SCIP_Node; struct SCIP_Branchrule; struct SCIP_Heur; struct SCIP_Messagehdlr;
struct SCIP_BranchruleData; struct SCIP_EventFilter; struct SCIP_MessagehdlrData;
struct Scip;
typedef Scip SCIP;
typedef SCIP_Cons SCIP_CONS; typedef SCIP_Conshdlr SCIP_CONSHDLR; typedef SCIP_ConsData SCIP_CONSDATA;
typedef SCIP_Eventhdlr SCIP_EVENTHDLR; typedef SCIP_EventData SCIP_EVENTDATA; typedef SCIP_Event SCIP_EVENT;
typedef SCIP_Row SCIP_ROW; typedef SCIP_Sol SCIP_SOL; typedef SCIP_Var SCIP_VAR; typedef SCIP_Node SCIP_NODE;
typedef SCIP_Branchrule SCIP_BRANCHRULE; typedef SCIP_BranchruleData SCIP_BRANCHRULEDATA; typedef SCIP_Heur SCIP_HEUR;
typedef SCIP_Messagehdlr SCIP_MESSAGEHDLR; typedef SCIP_MessagehdlrData SCIP_MESSAGEHDLRDATA;

struct SCIP_Var { std::string name; double lb, ub, obj; SCIP_VARTYPE type; SCIP_VARSTATUS status; int index; SCIP_Var* trans; int nrel; };
struct SCIP_Sol { std::map<SCIP_Var*, double> val; };
struct SCIP_Row { std::string name; double lhs, rhs; std::vector<std::pair<SCIP_Var*, double>> coefs; bool added, released, local, modifiable, removable; int flushes, caches; SCIP_Conshdlr* hdlr; };
struct SCIP_Cons { std::string name; double lhs, rhs; std::vector<SCIP_Var*> vars; std::vector<double> vals; bool added; int nrel; SCIP_Conshdlr* hdlr; std::string kind;
  bool initial, separate, enforce, check, propagate, local, modifiable, dynamic, removable, sticking; };
struct SCIP_Node { long long number; double lb; SCIP_Node* parent; };
struct SCIP_Branchrule { std::string name; int priority; int maxdepth; SCIP_BRANCHRULEDATA* data; };
struct SCIP_Conshdlr { std::string name; };
struct SCIP_Eventhdlr { std::string name; };
struct SCIP_Event { SCIP_EVENTTYPE type; };

namespace scip { class ObjProbData; class ObjConshdlr; class ObjEventhdlr; }

struct Scip {
  std::vector<SCIP_Var*> vars;
  std::vector<SCIP_Cons*> conss;     // added, in order
  std::vector<SCIP_Cons*> allconss;  // created
  std::vector<SCIP_Row*> rows;       // added, in order
  std::vector<SCIP_Row*> allrows;
  std::vector<SCIP_Sol*> sols;       // best first
  std::vector<SCIP_Branchrule*> rules;
  SCIP_Sol* lpsol = nullptr;
  SCIP_Node* node = nullptr;
  scip::ObjProbData* probdata = nullptr;
  std::map<std::string, scip::ObjConshdlr*> conshdlrs;
  std::map<std::string, scip::ObjEventhdlr*> eventhdlrs;
  std::map<std::string, SCIP_Conshdlr*> rawconshdlrs;
  std::map<std::string, double> params;
  std::vector<SCIP_EVENTTYPE> caught;
  SCIP_OBJSENSE sense = SCIP_OBJSENSE_MINIMIZE;
  SCIP_STATUS status = SCIP_STATUS_UNKNOWN;
  SCIP_LPSOLSTAT lpstat = SCIP_LPSOLSTAT_OPTIMAL;
  double lower = 0, upper = 1e20, primal = 1e20, lpobj = 0; long long nnodes = 0;
  double eps = 1e-9, inf = 1e20;
  int branched = 0;
  int nvars_created = 0;
  bool add_row_infeasible = false;   // what SCIPaddRow reports
  std::function<bool(SCIP_Row*)> infeasible_hook;
};

inline double SCIPepsilon(SCIP* s) { return s->eps; }
inline double SCIPinfinity(SCIP* s) { return s->inf; }
inline SCIP_Bool SCIPisZero(SCIP* s, double v) { return std::fabs(v) <= s->eps; }
inline SCIP_Bool SCIPisPositive(SCIP* s, double v) { return v > s->eps; }
inline SCIP_Bool SCIPisEQ(SCIP* s, double a, double b) { return std::fabs(a - b) <= s->eps; }
inline SCIP_Bool SCIPisFeasZero(SCIP* s, double v) { return std::fabs(v) <= 1e-6; }
inline SCIP_Bool SCIPisIntegral(SCIP* s, double v) { return std::fabs(v - std::floor(v + 0.5)) <= s->eps; }
inline double SCIPcomputeGap(double eps, double inf, double p, double d) {
  if (std::fabs(p - d) <= eps) return 0.0;
  if (std::fabs(p) <= eps || std::fabs(d) <= eps || std::fabs(p) >= inf || std::fabs(d) >= inf || p * d < 0) return inf;
  double ap = std::fabs(p), ad = std::fabs(d); return std::fabs((p - d) / (ap < ad ? ap : ad)); }

inline SCIP_RETCODE SCIPcreate(SCIP** s) { *s = new Scip(); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPfree(SCIP** s) { *s = nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsolve(SCIP* s) { return SCIP_OKAY; }
inline SCIP_STATUS SCIPgetStatus(SCIP* s) { return s->status; }
inline int SCIPgetNSols(SCIP* s) { return (int)s->sols.size(); }
inline SCIP_SOL* SCIPgetBestSol(SCIP* s) { return s->sols.empty() ? nullptr : s->sols[0]; }
inline SCIP_Longint SCIPgetNNodes(SCIP* s) { return s->nnodes; }
inline double SCIPgetLowerbound(SCIP* s) { return s->lower; }
inline double SCIPgetUpperbound(SCIP* s) { return s->upper; }
inline double SCIPgetPrimalbound(SCIP* s) { return s->primal; }
inline double SCIPgetDualbound(SCIP* s) { return s->lower; }
inline double SCIPgetLPObjval(SCIP* s) { return s->lpobj; }
inline SCIP_LPSOLSTAT SCIPgetLPSolstat(SCIP* s) { return s->lpstat; }

inline SCIP_RETCODE SCIPcreateVar(SCIP* s, SCIP_VAR** v, const char* name, double lb, double ub, double obj, SCIP_VARTYPE t, SCIP_Bool initial, SCIP_Bool removable, void*, void*, void*, void*, void*) {
  *v = new SCIP_Var{name ? std::string(name) : "x" + std::to_string(s->nvars_created), lb, ub, obj, t, SCIP_VARSTATUS_ORIGINAL, -1, nullptr, 0}; s->nvars_created++; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateVarBasic(SCIP* s, SCIP_VAR** v, const char* name, double lb, double ub, double obj, SCIP_VARTYPE t) {
  *v = new SCIP_Var{name ? std::string(name) : "x" + std::to_string(s->nvars_created), lb, ub, obj, t, SCIP_VARSTATUS_ORIGINAL, -1, nullptr, 0}; s->nvars_created++; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddVar(SCIP* s, SCIP_VAR* v) { v->index = (int)s->vars.size(); s->vars.push_back(v); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPreleaseVar(SCIP* s, SCIP_VAR** v) { if (*v) (*v)->nrel++; *v = nullptr; return SCIP_OKAY; }
inline SCIP_VAR** SCIPgetVars(SCIP* s) { return s->vars.data(); }
inline int SCIPgetNVars(SCIP* s) { return (int)s->vars.size(); }
inline SCIP_VAR** SCIPgetOrigVars(SCIP* s) { return s->vars.data(); }
inline int SCIPgetNOrigVars(SCIP* s) { return (int)s->vars.size(); }
inline SCIP_RETCODE SCIPgetTransformedVar(SCIP* s, SCIP_VAR* v, SCIP_VAR** tv) { *tv = (v && v->trans) ? v->trans : v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPgetTransformedVars(SCIP* s, int n, SCIP_VAR** v, SCIP_VAR** tv) { for (int i = 0; i < n; i++) SCIPgetTransformedVar(s, v[i], &tv[i]); return SCIP_OKAY; }
inline const char* SCIPvarGetName(SCIP_VAR* v) { return v->name.c_str(); }
inline SCIP_VARSTATUS SCIPvarGetStatus(SCIP_VAR* v) { return v->status; }
inline double SCIPvarGetObj(SCIP_VAR* v) { return v->obj; }
inline double SCIPgetSolVal(SCIP* s, SCIP_SOL* sol, SCIP_VAR* v) {
  SCIP_Sol* q = sol ? sol : s->lpsol; if (!q || !v) return 0.0;
  auto it = q->val.find(v); if (it != q->val.end()) return it->second;
  for (auto& p : q->val) if (p.first && p.first->trans == v) return p.second;
  return 0.0; }
inline SCIP_RETCODE SCIPcreateSol(SCIP* s, SCIP_SOL** sol, SCIP_HEUR* h) { *sol = new SCIP_Sol(); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetSolVal(SCIP* s, SCIP_SOL* sol, SCIP_VAR* v, double x) { sol->val[v] = x; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddSolFree(SCIP* s, SCIP_SOL** sol, SCIP_Bool* stored) { s->sols.push_back(*sol); *stored = TRUE; *sol = nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddSol(SCIP* s, SCIP_SOL* sol, SCIP_Bool* stored) { s->sols.push_back(sol); *stored = TRUE; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintSol(SCIP*, SCIP_SOL*, FILE*, SCIP_Bool) { return SCIP_OKAY; }

inline SCIP_RETCODE SCIPcreateConsLinear(SCIP* s, SCIP_CONS** c, const char* name, int n, SCIP_VAR** vars, double* vals, double lhs, double rhs,
  SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool sticking) {
  SCIP_Cons* k = new SCIP_Cons(); k->name = name; k->lhs = lhs; k->rhs = rhs; k->added = false; k->nrel = 0; k->hdlr = nullptr; k->kind = "linear";
  for (int i = 0; i < n; i++) { k->vars.push_back(vars[i]); k->vals.push_back(vals[i]); }
  k->initial = initial; k->separate = separate; k->enforce = enforce; k->check = check; k->propagate = propagate; k->local = local; k->modifiable = modifiable; k->dynamic = dynamic; k->removable = removable; k->sticking = sticking;
  s->allconss.push_back(k); *c = k; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP* s, SCIP_CONS** c, const char* name, int n, SCIP_VAR** vars, double* vals, double lhs, double rhs) {
  return SCIPcreateConsLinear(s, c, name, n, vars, vals, lhs, rhs, TRUE, TRUE, TRUE, TRUE, TRUE, FALSE, FALSE, FALSE, FALSE, FALSE); }
inline SCIP_RETCODE SCIPcreateConsBasicKnapsack(SCIP* s, SCIP_CONS** c, const char* name, int n, SCIP_VAR** vars, SCIP_Longint* w, SCIP_Longint cap) {
  std::vector<double> v(w, w + n); SCIP_RETCODE r = SCIPcreateConsBasicLinear(s, c, name, n, vars, v.data(), -s->inf, (double)cap); (*c)->kind = "knapsack"; return r; }
inline SCIP_RETCODE SCIPaddCoefLinear(SCIP* s, SCIP_CONS* c, SCIP_VAR* v, double x) { c->vars.push_back(v); c->vals.push_back(x); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddCons(SCIP* s, SCIP_CONS* c) { c->added = true; s->conss.push_back(c); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPreleaseCons(SCIP* s, SCIP_CONS** c) { (*c)->nrel++; *c = nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateCons(SCIP* s, SCIP_CONS** c, const char* name, SCIP_CONSHDLR* h, SCIP_CONSDATA* d, SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool sticking) {
  SCIP_RETCODE r = SCIPcreateConsLinear(s, c, name, 0, nullptr, nullptr, 0, 0, initial, separate, enforce, check, propagate, local, modifiable, dynamic, removable, sticking); (*c)->hdlr = h; (*c)->kind = "custom"; return r; }
inline SCIP_CONSHDLR* SCIPfindConshdlr(SCIP* s, const char* name) { auto it = s->rawconshdlrs.find(name); return it == s->rawconshdlrs.end() ? nullptr : it->second; }
inline SCIP_RETCODE SCIPgetConsNVars(SCIP* s, SCIP_CONS* c, int* n, SCIP_Bool* ok) { *n = (int)c->vars.size(); *ok = TRUE; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPgetConsVars(SCIP* s, SCIP_CONS* c, SCIP_VAR** v, int n, SCIP_Bool* ok) { for (int i = 0; i < n; i++) v[i] = c->vars[i]; *ok = TRUE; return SCIP_OKAY; }
inline double SCIPconsGetLhs(SCIP* s, SCIP_CONS* c, SCIP_Bool* ok) { *ok = TRUE; return c->lhs; }
inline double SCIPconsGetRhs(SCIP* s, SCIP_CONS* c, SCIP_Bool* ok) { *ok = TRUE; return c->rhs; }
inline double SCIPgetLhsLinear(SCIP*, SCIP_CONS* c) { return c->lhs; }
inline double SCIPgetRhsLinear(SCIP*, SCIP_CONS* c) { return c->rhs; }
inline const char* SCIPconsGetName(SCIP_CONS* c) { return c->name.c_str(); }
inline SCIP_Bool SCIPconsIsInitial(SCIP_CONS* c) { return c->initial; }
inline SCIP_Bool SCIPconsIsSeparated(SCIP_CONS* c) { return c->separate; }
inline SCIP_Bool SCIPconsIsEnforced(SCIP_CONS* c) { return c->enforce; }
inline SCIP_Bool SCIPconsIsChecked(SCIP_CONS* c) { return c->check; }
inline SCIP_Bool SCIPconsIsPropagated(SCIP_CONS* c) { return c->propagate; }
inline SCIP_Bool SCIPconsIsLocal(SCIP_CONS* c) { return c->local; }
inline SCIP_Bool SCIPconsIsModifiable(SCIP_CONS* c) { return c->modifiable; }
inline SCIP_Bool SCIPconsIsDynamic(SCIP_CONS* c) { return c->dynamic; }
inline SCIP_Bool SCIPconsIsRemovable(SCIP_CONS* c) { return c->removable; }
inline SCIP_Bool SCIPconsIsStickingAtNode(SCIP_CONS* c) { return c->sticking; }

inline SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP* s, SCIP_ROW** r, SCIP_CONSHDLR* h, const char* name, double lhs, double rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable) {
  *r = new SCIP_Row{name, lhs, rhs, {}, false, false, (bool)local, (bool)modifiable, (bool)removable, 0, 0, h}; s->allrows.push_back(*r); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateEmptyRowCons(SCIP* s, SCIP_ROW** r, SCIP_CONS* c, const char* name, double lhs, double rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable) {
  return SCIPcreateEmptyRowConshdlr(s, r, nullptr, name, lhs, rhs, local, modifiable, removable); }
inline SCIP_RETCODE SCIPcacheRowExtensions(SCIP* s, SCIP_ROW* r) { r->caches++; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPflushRowExtensions(SCIP* s, SCIP_ROW* r) { r->flushes++; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPaddVarToRow(SCIP* s, SCIP_ROW* r, SCIP_VAR* v, double x) { r->coefs.push_back({v, x}); return SCIP_OKAY; }
inline double mockRowActivity(SCIP* s, SCIP_SOL* sol, SCIP_ROW* r) { double a = 0; for (auto& c : r->coefs) a += c.second * SCIPgetSolVal(s, sol, c.first); return a; }
inline SCIP_Bool SCIPisCutEfficacious(SCIP* s, SCIP_SOL* sol, SCIP_ROW* r) { double a = mockRowActivity(s, sol, r); return (a > r->rhs + 1e-6 && r->rhs < s->inf) || (a < r->lhs - 1e-6 && r->lhs > -s->inf); }
inline SCIP_RETCODE SCIPaddRow(SCIP* s, SCIP_ROW* r, SCIP_Bool forcecut, SCIP_Bool* infeasible) { r->added = true; s->rows.push_back(r); *infeasible = s->infeasible_hook ? s->infeasible_hook(r) : s->add_row_infeasible; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPreleaseRow(SCIP* s, SCIP_ROW** r) { (*r)->released = true; *r = nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintRow(SCIP*, SCIP_ROW*, FILE*) { return SCIP_OKAY; }

inline scip::ObjProbData* SCIPgetObjProbData(SCIP* s) { return s->probdata; }
inline SCIP_RETCODE SCIPcreateObjProb(SCIP* s, const char* name, scip::ObjProbData* d, SCIP_Bool del) { s->probdata = d; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateProbBasic(SCIP* s, const char* name) { return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetObjsense(SCIP* s, SCIP_OBJSENSE o) { s->sense = o; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcatchEvent(SCIP* s, SCIP_EVENTTYPE t, SCIP_EVENTHDLR* h, SCIP_EVENTDATA* d, int* pos) { s->caught.push_back(t); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPdropEvent(SCIP* s, SCIP_EVENTTYPE t, SCIP_EVENTHDLR* h, SCIP_EVENTDATA* d, int pos) { for (size_t i = 0; i < s->caught.size(); i++) if (s->caught[i] == t) { s->caught.erase(s->caught.begin() + i); break; } return SCIP_OKAY; }
inline SCIP_EVENTTYPE SCIPeventGetType(SCIP_EVENT* e) { return e->type; }

inline SCIP_NODE* SCIPgetCurrentNode(SCIP* s) { return s->node; }
inline SCIP_NODE* SCIPgetFocusNode(SCIP* s) { return s->node; }
inline SCIP_Longint SCIPnodeGetNumber(SCIP_NODE* n) { return n->number; }
inline SCIP_NODE* SCIPnodeGetParent(SCIP_NODE* n) { return n->parent; }
inline double SCIPnodeGetLowerbound(SCIP_NODE* n) { return n->lb; }
inline SCIP_RETCODE SCIPgetChildren(SCIP* s, SCIP_NODE*** c, int* n) { *c = nullptr; *n = 0; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPbranchLP(SCIP* s, SCIP_RESULT* r) { s->branched++; *r = SCIP_BRANCHED; return SCIP_OKAY; }

inline SCIP_BRANCHRULE* SCIPfindBranchrule(SCIP* s, const char* n) { for (auto r : s->rules) if (r->name == n) return r; return nullptr; }
inline SCIP_BRANCHRULE** SCIPgetBranchrules(SCIP* s) { return s->rules.data(); }
inline int SCIPgetNBranchrules(SCIP* s) { return (int)s->rules.size(); }
inline const char* SCIPbranchruleGetName(SCIP_BRANCHRULE* r) { return r->name.c_str(); }
inline int SCIPbranchruleGetPriority(SCIP_BRANCHRULE* r) { return r->priority; }
inline int SCIPbranchruleGetMaxdepth(SCIP_BRANCHRULE* r) { return r->maxdepth; }
inline SCIP_BRANCHRULEDATA* SCIPbranchruleGetData(SCIP_BRANCHRULE* r) { return r->data; }
inline SCIP_RETCODE SCIPsetBranchrulePriority(SCIP* s, SCIP_BRANCHRULE* r, int p) { r->priority = p; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetBranchruleMaxdepth(SCIP* s, SCIP_BRANCHRULE* r, int d) { r->maxdepth = d; return SCIP_OKAY; }

inline SCIP_RETCODE SCIPsetIntParam(SCIP* s, const char* n, int v) { s->params[n] = v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetRealParam(SCIP* s, const char* n, double v) { s->params[n] = v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetBoolParam(SCIP* s, const char* n, SCIP_Bool v) { s->params[n] = v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetLongintParam(SCIP* s, const char* n, SCIP_Longint v) { s->params[n] = (double)v; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetStringParam(SCIP* s, const char* n, const char* v) { return SCIP_OKAY; }

#define SCIP_DECL_MESSAGEERROR(x) void x (SCIP_MESSAGEHDLR* messagehdlr, FILE* file, const char* msg)
#define SCIP_DECL_MESSAGEWARNING(x) void x (SCIP_MESSAGEHDLR* messagehdlr, FILE* file, const char* msg)
#define SCIP_DECL_MESSAGEDIALOG(x) void x (SCIP_MESSAGEHDLR* messagehdlr, FILE* file, const char* msg)
#define SCIP_DECL_MESSAGEINFO(x) void x (SCIP_MESSAGEHDLR* messagehdlr, FILE* file, const char* msg)
#define SCIP_DECL_MESSAGEHDLRFREE(x) SCIP_RETCODE x (SCIP_MESSAGEHDLR* messagehdlr)
struct SCIP_Messagehdlr { int dummy; };
template <typename... A> inline SCIP_RETCODE SCIPmessagehdlrCreate(SCIP_MESSAGEHDLR** m, A... a) { *m = new SCIP_Messagehdlr(); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPmessagehdlrRelease(SCIP_MESSAGEHDLR** m) { *m = nullptr; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPsetMessagehdlr(SCIP* s, SCIP_MESSAGEHDLR* m) { return SCIP_OKAY; }
inline SCIP_RETCODE SCIPcreateMessagehdlrDefault(SCIP_MESSAGEHDLR** m, SCIP_Bool, const char*, SCIP_Bool) { *m = new SCIP_Messagehdlr(); return SCIP_OKAY; }
inline void SCIPsetMessagehdlrLogfile(SCIP*, const char*) {}
inline void SCIPsetMessagehdlrQuiet(SCIP*, SCIP_Bool) {}
inline SCIP_MESSAGEHDLR* SCIPgetMessagehdlr(SCIP*) { return nullptr; }
inline void SCIPinfoMessage(SCIP* s, FILE* f, const char* fmt, ...) {}
inline void SCIPerrorMessage(const char* fmt, ...) {}
inline void SCIPmessagePrintError(const char* fmt, ...) {}
inline SCIP_RETCODE SCIPprintStatistics(SCIP*, FILE*) { return SCIP_OKAY; }
inline SCIP_RETCODE SCIPprintBestSol(SCIP*, FILE*, SCIP_Bool) { return SCIP_OKAY; }
inline SCIP_RETCODE SCIPwriteOrigProblem(SCIP*, const char*, const char*, SCIP_Bool) { return SCIP_OKAY; }
inline SCIP_RETCODE SCIPinitializeRandomSeed(SCIP* s, unsigned int seed) { return SCIP_OKAY; }
inline unsigned int SCIPinitializeRandomSeed_(SCIP* s, unsigned int seed) { return seed; }
inline void BMScheckEmptyMemory() {}
inline void BMSdisplayMemory() {}
#define MOCK_INC(n) inline SCIP_RETCODE n(SCIP* s) { return SCIP_OKAY; }
MOCK_INC(SCIPincludeDefaultPlugins) MOCK_INC(SCIPincludeConshdlrLinear) MOCK_INC(SCIPincludeConshdlrIntegral) MOCK_INC(SCIPincludeConshdlrKnapsack)
MOCK_INC(SCIPincludeConshdlrVarbound) MOCK_INC(SCIPincludeHeurDps) MOCK_INC(SCIPincludeHeurFeaspump) MOCK_INC(SCIPincludeNodeselBreadthfirst)
MOCK_INC(SCIPincludeNodeselDfs) MOCK_INC(SCIPincludeNodeselEstimate) MOCK_INC(SCIPincludeSepaGomory)
inline void mockAddRule(SCIP* s, const char* n, int p) { if (SCIPfindBranchrule(s, n)) return; auto r = new SCIP_Branchrule{n, p, -1, nullptr}; r->data = (SCIP_BRANCHRULEDATA*) r; s->rules.push_back(r); }
inline SCIP_RETCODE SCIPincludeBranchruleFullstrong(SCIP* s) { mockAddRule(s, "fullstrong", 0); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPincludeBranchruleRelpscost(SCIP* s) { mockAddRule(s, "relpscost", 10000); return SCIP_OKAY; }
inline SCIP_RETCODE SCIPincludeBranchruleMostinf(SCIP* s) { mockAddRule(s, "mostinf", 100); return SCIP_OKAY; }
#endif
