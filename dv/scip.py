"""Model of the solver interface (SCIP) used by the proof units: a record of what the code hands to the
solver.  Pointers to variables, rows, constraints, nodes and branching rules are integers, 0 is NULL;
row, constraint, variable and rule number k is entry k - 1 of its list.  What the solver computes itself (values of a
solution, efficacy of a cut, infinity, tolerances) is uninterpreted."""
from .ir import E, Unsupported
from .cxx import LV

STRUCTS = {
  'BRule': [('name', 'Str'), ('priority', 'int'), ('maxdepth', 'int')],
  'Row': [('hdlr', 'int'), ('lhs', 'real'), ('rhs', 'real'), ('co', 'Seq<(int, real)>'), ('local', 'bool'), ('modifiable', 'bool'), ('removable', 'bool'), ('added', 'bool')],
  'Cons': [('lhs', 'real'), ('rhs', 'real'), ('co', 'Seq<(int, real)>'), ('flags', 'Seq<bool>'), ('added', 'bool')],
  'SVar': [('lb', 'real'), ('ub', 'real'), ('obj', 'real'), ('vtype', 'int'), ('added', 'bool')],
  'ProbDataPCTSP': [('quota_', 'int'), ('graph_', 'Graph'), ('root_vertex_', 'int'), ('edge_variable_map_', 'Map<int, int>')],
  'SNode': [('number', 'int'), ('parent', 'int'), ('lower', 'real')],
  'Scip': [('brules', 'Seq<BRule>'), ('rows', 'Seq<Row>'), ('conss', 'Seq<Cons>'), ('vars', 'Seq<SVar>'), ('probdata', 'ProbDataPCTSP'), ('nodes', 'Seq<SNode>'), ('current', 'int'), ('upper', 'real')],
}
FLD = {k: dict(v) for k, v in STRUCTS.items()}

def S(self, a):
    e = self.expr(a)
    if e.ty != 'Scip' or e.lv is None: raise Unsupported('solver argument is not a solver')
    return e.lv
def fld(lv, f, st='Scip'): return lv.sub(('fld', f, st), FLD[st][f])
def entry(self, lst, p, what):
    """entry number p of a list of solver objects (must be a valid pointer)"""
    self.ob(f'1 <= {p} <= {lst.read()}.len()', f'{what} pointer is valid')
    elt = lst.ty[4:-1]
    return lst.sub(('idx', f'({p} - 1)'), elt)
OK = lambda: E('1int', 'int')
def real(self, a): return self.coerce(self.expr(a), 'real').s
def boolean(self, a): return self.coerce(self.expr(a), 'bool').s
def out(self, a, val, ty='int'):
    e = self.expr(a)
    if e.lv is None: raise Unsupported('output argument is not an lvalue')
    if ty == 'bool' and e.ty == 'int': ty, val = 'int', f'(if {val} {{ 1int }} else {{ 0int }})'  # SCIP_Bool
    self.write(LV(e.lv.base, ty, e.lv.path), val)

# ---- branching rules
def getNBranchrules(self, a, n): return E(f'({fld(S(self, a[0]), "brules").read()}.len() as int)', 'int')
def getBranchrules(self, a, n):
    s = fld(S(self, a[0]), 'brules').read()
    return E(f'Seq::new({s}.len(), |i: int| i + 1)', 'Seq<int>')
def rule(self, a, sc=None): return None
def scip_of(self):
    """the solver the function works on (accessor functions of SCIP objects do not name it)"""
    for v in self.ctx.env.values():
        if v.ty == 'Scip': return v.lv if v.name is None else LV(v.name, 'Scip')
    raise Unsupported('no solver in scope')
def branchruleGetName(self, a, n): return E(entry(self, fld(scip_of(self), 'brules'), self.expr(a[0]).s, 'branching rule').sub(('fld', 'name', 'BRule'), 'Str').read(), 'Str')
def branchruleGetPriority(self, a, n): return E(entry(self, fld(scip_of(self), 'brules'), self.expr(a[0]).s, 'branching rule').sub(('fld', 'priority', 'BRule'), 'int').read(), 'int')
def branchruleGetMaxdepth(self, a, n): return E(entry(self, fld(scip_of(self), 'brules'), self.expr(a[0]).s, 'branching rule').sub(('fld', 'maxdepth', 'BRule'), 'int').read(), 'int')
def setBranchrulePriority(self, a, n):
    r = entry(self, fld(S(self, a[0]), 'brules'), self.expr(a[1]).s, 'branching rule')
    self.write(r.sub(('fld', 'priority', 'BRule'), 'int'), self.expr(a[2]).s); return OK()
def setBranchruleMaxdepth(self, a, n):
    r = entry(self, fld(S(self, a[0]), 'brules'), self.expr(a[1]).s, 'branching rule')
    self.write(r.sub(('fld', 'maxdepth', 'BRule'), 'int'), self.expr(a[2]).s); return OK()
def findBranchrule(self, a, n):
    s = fld(S(self, a[0]), 'brules').read(); return E(f'find_rule({s}, {self.expr(a[1]).s})', 'int')

# ---- solution values and tolerances
def getSolVal(self, a, n): S(self, a[0]); return E(f'sol_val({self.expr(a[1]).s}, {self.expr(a[2]).s})', 'real')
def isZero(self, a, n): return E(f'scip_zero({real(self, a[1])})', 'bool')
def infinity(self, a, n): return E('scip_infinity()', 'real')
def getTransformedVar(self, a, n): out(self, a[2], f'trans_var({self.expr(a[1]).s})'); return OK()
def varGetName(self, a, n): return E(f'var_name({self.expr(a[0]).s})', 'Str')

# ---- rows
def createEmptyRow(self, a, n):
    sc = S(self, a[0]); rows = fld(sc, 'rows')
    h = self.expr(a[2]).s
    r = f'Row {{ hdlr: {h}, lhs: {real(self, a[4])}, rhs: {real(self, a[5])}, co: Seq::empty(), local: {boolean(self, a[6])}, modifiable: {boolean(self, a[7])}, removable: {boolean(self, a[8])}, added: false }}'
    self.write(rows, f'{rows.read()}.push({r})')
    out(self, a[1], f'({rows.read()}.len() as int)'); return OK()
def nothing(self, a, n): return OK()
def addVarToRow(self, a, n):
    r = entry(self, fld(S(self, a[0]), 'rows'), self.expr(a[1]).s, 'row').sub(('fld', 'co', 'Row'), 'Seq<(int, real)>')
    self.write(r, f'{r.read()}.push(({self.expr(a[2]).s}, {real(self, a[3])}))'); return OK()
def isCutEfficacious(self, a, n):
    r = entry(self, fld(S(self, a[0]), 'rows'), self.expr(a[2]).s, 'row')
    return E(f'efficacious({self.expr(a[1]).s}, {r.read()})', 'bool')
def addRow(self, a, n):
    sc = S(self, a[0]); r = entry(self, fld(sc, 'rows'), self.expr(a[1]).s, 'row')
    out(self, a[3], f'row_infeasible({r.read()})', 'bool')
    self.write(r.sub(('fld', 'added', 'Row'), 'bool'), 'true'); return OK()
def release(self, a, n): out(self, a[1], '0int'); return OK()

# ---- linear constraints
def arr(self, a, n):
    """array argument with its length -> sequence of the first n entries"""
    e = self.expr(a)
    if e.ty.startswith('Seq<'):
        self.ob(f'0 <= {n} <= {e.s}.len()', 'array argument holds the stated number of entries')
        return e.s
    if e.s == '0int': self.ob(f'{n} == 0', 'NULL array has no entries'); return None
    raise Unsupported('array argument of type ' + e.ty)
def newcons(self, a, k, flags, lhs, rhs):
    sc = S(self, a[0]); cs = fld(sc, 'conss'); nn = self.expr(a[3]).s
    vs, co = arr(self, a[4], nn), arr(self, a[5], nn)
    l, r = real(self, a[lhs]), real(self, a[rhs])
    cov = f'Seq::new(({nn}) as nat, |i: int| ({vs}[i], {co}[i]))' if vs and co else 'Seq::<(int, real)>::empty()'
    self.write(cs, f'{cs.read()}.push(Cons {{ lhs: {l}, rhs: {r}, co: {cov}, flags: {flags}, added: false }})')
    out(self, a[1], f'({cs.read()}.len() as int)'); return OK()
def createConsLinear(self, a, n): return newcons(self, a, 0, 'seq![' + ', '.join(boolean(self, x) for x in a[8:18]) + ']', 6, 7)
def createConsBasicLinear(self, a, n): return newcons(self, a, 0, 'seq![true, true, true, true, true, false, false, false, false, false]', 6, 7)
def addCons(self, a, n):
    c = entry(self, fld(S(self, a[0]), 'conss'), self.expr(a[1]).s, 'constraint')
    self.write(c.sub(('fld', 'added', 'Cons'), 'bool'), 'true'); return OK()
def addCoefLinear(self, a, n):
    c = entry(self, fld(S(self, a[0]), 'conss'), self.expr(a[1]).s, 'constraint').sub(('fld', 'co', 'Cons'), 'Seq<(int, real)>')
    self.write(c, f'{c.read()}.push(({self.expr(a[2]).s}, {real(self, a[3])}))'); return OK()

# ---- variables
def createVar(self, a, n):
    sc = S(self, a[0]); vs = fld(sc, 'vars')
    r = f'SVar {{ lb: {real(self, a[3])}, ub: {real(self, a[4])}, obj: {real(self, a[5])}, vtype: {self.expr(a[6]).s}, added: false }}'
    self.write(vs, f'{vs.read()}.push({r})'); out(self, a[1], f'({vs.read()}.len() as int)'); return OK()
def createVarBasic(self, a, n): return createVar(self, a, n)
def addVar(self, a, n):
    v = entry(self, fld(S(self, a[0]), 'vars'), self.expr(a[1]).s, 'variable')
    self.write(v.sub(('fld', 'added', 'SVar'), 'bool'), 'true'); return OK()
def getVars(self, a, n):
    s = fld(S(self, a[0]), 'vars').read(); return E(f'Seq::new({s}.len(), |i: int| i + 1)', 'Seq<int>')
def getNVars(self, a, n): return E(f'({fld(S(self, a[0]), "vars").read()}.len() as int)', 'int')

# ---- problem data and nodes
def getObjProbData(self, a, n):
    p = fld(S(self, a[0]), 'probdata'); return E(p.read(), 'ProbDataPCTSP', lv=p)
def pd(f):
    def h(self, o, a, n):
        lv = o.lv.sub(('fld', f, 'ProbDataPCTSP'), FLD['ProbDataPCTSP'][f]) if o.lv else None
        return E(f'{o.s}.{f}', FLD['ProbDataPCTSP'][f], lv=lv)
    return h
def getCurrentNode(self, a, n): return E(fld(S(self, a[0]), 'current').read(), 'int')
def nodefield(f, ty):
    return lambda self, a, n: E(f'node_{f}({self.expr(a[0]).s})', ty)
def getUpperbound(self, a, n): return E(fld(S(self, a[0]), 'upper').read(), 'real')

CALLS = {
  'SCIPgetNBranchrules': getNBranchrules, 'SCIPgetBranchrules': getBranchrules, 'SCIPbranchruleGetName': branchruleGetName, 'SCIPbranchruleGetPriority': branchruleGetPriority,
  'SCIPbranchruleGetMaxdepth': branchruleGetMaxdepth, 'SCIPsetBranchrulePriority': setBranchrulePriority, 'SCIPsetBranchruleMaxdepth': setBranchruleMaxdepth, 'SCIPfindBranchrule': findBranchrule,
  'SCIPgetSolVal': getSolVal, 'SCIPisZero': isZero, 'SCIPinfinity': infinity, 'SCIPgetTransformedVar': getTransformedVar, 'SCIPvarGetName': varGetName,
  'SCIPcreateEmptyRowConshdlr': createEmptyRow, 'SCIPcacheRowExtensions': nothing, 'SCIPflushRowExtensions': nothing, 'SCIPaddVarToRow': addVarToRow, 'SCIPisCutEfficacious': isCutEfficacious, 'SCIPaddRow': addRow,
  'SCIPreleaseRow': release, 'SCIPreleaseCons': release, 'SCIPreleaseVar': release,
  'SCIPcreateConsLinear': createConsLinear, 'SCIPcreateConsBasicLinear': createConsBasicLinear, 'SCIPaddCons': addCons, 'SCIPaddCoefLinear': addCoefLinear,
  'SCIPcreateVar': createVar, 'SCIPcreateVarBasic': createVarBasic, 'SCIPaddVar': addVar, 'SCIPgetVars': getVars, 'SCIPgetNVars': getNVars,
  'SCIPgetObjProbData': getObjProbData, 'SCIPgetCurrentNode': getCurrentNode, 'SCIPnodeGetNumber': nodefield('number', 'int'), 'SCIPnodeGetLowerbound': nodefield('lower', 'real'), 'SCIPnodeGetParent': nodefield('parent', 'int'), 'SCIPgetUpperbound': getUpperbound,
}
MEMBERS = {'getInputGraph': pd('graph_'), 'getQuota': pd('quota_'), 'getRootVertex': pd('root_vertex_'), 'getEdgeVariableMap': pd('edge_variable_map_')}
BASE = {'__structs__': STRUCTS, '__calls__': CALLS, '__members__': MEMBERS}
PRELUDE = r'''
pub uninterp spec fn sol_val(sol: int, var: int) -> real;       // value of a variable in a solution (NULL: the LP solution)
pub uninterp spec fn scip_zero(x: real) -> bool;                // zero within the solver's tolerance
pub uninterp spec fn scip_infinity() -> real;
pub uninterp spec fn trans_var(v: int) -> int;                  // transformed counterpart of a variable
pub uninterp spec fn var_name(v: int) -> int;
pub uninterp spec fn efficacious(sol: int, row: Row) -> bool;
pub uninterp spec fn row_infeasible(row: Row) -> bool;
// result codes (enumeration of the solver)
pub open spec fn res_cutoff() -> int { 7 }
pub open spec fn res_separated() -> int { 8 }
pub uninterp spec fn node_number(n: int) -> int;
pub uninterp spec fn node_lower(n: int) -> real;
pub uninterp spec fn node_parent(n: int) -> int;
/// first rule of that name, NULL when there is none
pub open spec fn find_from(s: Seq<BRule>, name: int, k: int) -> int decreases s.len() - k { if k < 0 || k >= s.len() { 0 } else if s[k].name == name { k + 1 } else { find_from(s, name, k + 1) } }
pub open spec fn find_rule(s: Seq<BRule>, name: int) -> int { find_from(s, name, 0) }
pub proof fn lemma_find(s: Seq<BRule>, name: int, k: int)
    requires 0 <= k
    ensures ({ let p = find_from(s, name, k); (p == 0 && forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).name != name) || (k < p <= s.len() && s[p - 1].name == name && forall|i: int| k <= i < p - 1 ==> (#[trigger] s[i]).name != name) })
    decreases s.len() - k
{ if k < s.len() && s[k].name != name { lemma_find(s, name, k + 1); } }
'''
ASSUMPTIONS = ['the solver (SCIP) is not installed here: its interface is modelled by dv/scip.py (what is handed to it is recorded, what it computes is uninterpreted) and at run time by the recording mock in mock/']
