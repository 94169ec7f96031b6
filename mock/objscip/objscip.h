// Mock of the C++ wrapper classes of SCIP.
#ifndef VERIF_MOCK_OBJSCIP_H
#define VERIF_MOCK_OBJSCIP_H
#include "scip/scip.h"
#define SCIP_DECL_CONSCHECK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_SOL* sol, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool printreason, SCIP_Bool completely, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOPS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_Bool objinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* sourcecons, SCIP_CONS** targetcons)
#define SCIP_DECL_CONSLOCK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_LOCKTYPE locktype, int nlockspos, int nlocksneg)
#define SCIP_DECL_CONSPRINT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, FILE* file)
#define SCIP_DECL_CONSSEPALP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_RESULT* result)
#define SCIP_DECL_CONSSEPASOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_SOL* sol, SCIP_RESULT* result)
#define SCIP_DECL_EVENTFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA** eventdata)
#define SCIP_DECL_EVENTEXEC(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENT* event, SCIP_EVENTDATA* eventdata)
namespace scip {
class ObjProbData { public: virtual ~ObjProbData() {} };
class ObjConshdlr { public: std::string name_; SCIP_CONSHDLR raw_; int prio_[3]; int sepafreq_;
  ObjConshdlr(SCIP* s, const char* n, const char* d, int sp, int ep, int cp, int sf, int pf, int ef, int mr, SCIP_Bool ds, SCIP_Bool dp, SCIP_Bool nc, SCIP_PROPTIMING pt, SCIP_PRESOLTIMING prt)
    : name_(n) { raw_.name = n; prio_[0] = sp; prio_[1] = ep; prio_[2] = cp; sepafreq_ = sf; }
  virtual ~ObjConshdlr() {}
  virtual SCIP_DECL_CONSCHECK(scip_check) = 0;
  virtual SCIP_DECL_CONSENFOPS(scip_enfops) = 0;
  virtual SCIP_DECL_CONSENFOLP(scip_enfolp) = 0;
  virtual SCIP_DECL_CONSLOCK(scip_lock) = 0;
  virtual SCIP_DECL_CONSTRANS(scip_trans) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSPRINT(scip_print) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSSEPALP(scip_sepalp) { return SCIP_OKAY; }
  virtual SCIP_DECL_CONSSEPASOL(scip_sepasol) { return SCIP_OKAY; } };
class ObjEventhdlr { public: std::string name_; SCIP_EVENTHDLR raw_;
  ObjEventhdlr(SCIP* s, const char* n, const char* d) : name_(n) { raw_.name = n; }
  virtual ~ObjEventhdlr() {}
  virtual SCIP_DECL_EVENTFREE(scip_free) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTINIT(scip_init) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTEXIT(scip_exit) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTDELETE(scip_delete) { return SCIP_OKAY; }
  virtual SCIP_DECL_EVENTEXEC(scip_exec) = 0; };
}
inline SCIP_RETCODE SCIPincludeObjConshdlr(SCIP* s, scip::ObjConshdlr* h, SCIP_Bool del) { s->conshdlrs[h->name_] = h; s->rawconshdlrs[h->name_] = &h->raw_; return SCIP_OKAY; }
inline SCIP_RETCODE SCIPincludeObjEventhdlr(SCIP* s, scip::ObjEventhdlr* h, SCIP_Bool del) { s->eventhdlrs[h->name_] = h; return SCIP_OKAY; }
inline scip::ObjConshdlr* SCIPfindObjConshdlr(SCIP* s, const char* n) { auto it = s->conshdlrs.find(n); return it == s->conshdlrs.end() ? nullptr : it->second; }
inline scip::ObjEventhdlr* SCIPfindObjEventhdlr(SCIP* s, const char* n) { auto it = s->eventhdlrs.find(n); return it == s->eventhdlrs.end() ? nullptr : it->second; }
#endif
