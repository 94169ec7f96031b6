"""Python front end: the `ast` of the functions of /repo/pctsp -> the same IR as the C++ one.

Python is untyped, so a contract names the type of each parameter; the types of locals follow
from the expressions (an empty literal takes the type the contract gives for that local, or that
of its annotation).  What it drops or idealises: docstrings, annotations, logging and messages;
lists/dicts/sets are values (an alias that is mutated in place afterwards is rejected); negative
list indices other than literal ones are obligations; library calls are the models below or the
handlers of the spec module.
"""
import ast, os
from .ir import *
from . import cxx
from .cxx import LV, Var, Ctx, FnTr, exc_code, exits, strip_exit, attach_rest, split_targs, vty, default_of, str_const, fix_returns, ends_with_return

REPO = '/repo'
MUTATORS = {'append', 'insert', 'extend', 'remove', 'pop', 'clear', 'reverse', 'sort', 'add', 'update', 'discard', 'setdefault', 'popleft', 'appendleft'}

class PyTypes:
    def __init__(self, structs): self.structs = structs

class PyModule:
    def __init__(self, files, specs, structs=None):
        self.files, self.specs = files, specs
        self.types = PyTypes({n: list(f) for n, f in (structs or {}).items()})
        self.fns, self.order, self.stack = {}, [], []
        self.inlined, self.dropped = set(), {'docstrings, annotations and message texts'}
        self.defs, self.consts, self.imports = {}, {}, {}
        self.enums, self.records, self.rec_defaults = {}, {}, {}
        trees = []
        for f in files:
            try: tree = ast.parse(open(os.path.join(REPO, f), encoding='utf-8').read())
            except (OSError, SyntaxError) as e: raise Unsupported(f'{f}: {e}')
            trees.append(tree)
            for n in tree.body:
                if isinstance(n, ast.FunctionDef): self.defs[n.name] = n
                elif isinstance(n, ast.ClassDef):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef): self.defs[n.name + '.' + m.name] = m
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): self.consts[n.targets[0].id] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: self.consts[n.target.id] = n.value
        for tree in trees:
            for n in tree.body:
                if isinstance(n, ast.ClassDef): self.enum_class(n)
        for tree in trees:
            for n in tree.body:
                if isinstance(n, ast.ClassDef) and any(ast.unparse(b).split('.')[-1] == 'BaseModel' for b in n.bases): self.record_class(n)
    def enum_class(self, n):
        bases = [ast.unparse(b) for b in n.bases]
        if not any(b.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum') for b in bases): return
        mem = {}
        for m in n.body:
            t = m.targets[0] if isinstance(m, ast.Assign) and len(m.targets) == 1 else m.target if isinstance(m, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and isinstance(m.value, ast.Constant): mem[t.id] = m.value.value
        self.enums[n.name] = ('int' if any(b.endswith('IntEnum') for b in bases) else 'Str', mem)
    def ann_type(self, a):
        """IR type of a field annotation; names the extraction does not know are opaque values"""
        s = ast.unparse(a)
        if s in ('int', 'bool'): return s
        if s == 'float': return 'real'
        if s in self.enums: return self.enums[s][0]
        if s in self.records: return s
        if isinstance(a, ast.Subscript) and ast.unparse(a.value).split('.')[-1] == 'Optional': return f'Opt<{self.ann_type(a.slice)}>'
        if isinstance(a, ast.Subscript) and ast.unparse(a.value).split('.')[-1] in ('List', 'list'): return f'Seq<{self.ann_type(a.slice)}>'
        if isinstance(a, ast.Subscript) and ast.unparse(a.value).split('.')[-1] == 'Tuple': return '(' + ', '.join(self.ann_type(x) for x in a.slice.elts) + ')'
        return 'Str'
    def record_class(self, n):
        fs, df = [], {}
        for m in n.body:
            if isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                fs.append((m.target.id, self.ann_type(m.annotation)))
                if m.value is not None: df[m.target.id] = m.value
            elif isinstance(m, ast.FunctionDef) and m.decorator_list and not all(ast.unparse(d) in ('staticmethod', 'classmethod') for d in m.decorator_list): raise Unsupported(f'{n.name}.{m.name}: decorated method (validator?)')
        self.records[n.name] = fs; self.rec_defaults[n.name] = df; self.types.structs[n.name] = fs
    def contract(self, name):
        l = self.specs.get(name)
        return l[0] if isinstance(l, list) else l
    def fn_named(self, name):
        if name in self.fns: return self.fns[name]
        if name not in self.defs: raise Unsupported(f'function {name} is not in the source')
        c = self.contract(name)
        if c is None: return None
        f = PyTr(self, self.defs[name], c)
        f.name = c.get('emit') or name.replace('.', '_')
        self.fns[name] = f          # visible to recursive calls
        self.stack.append(name)
        try: f.run()
        finally: self.stack.pop()
        self.order.append(f)
        return f
    # interface of cxx.Module used by run.py
    def fn_root(self, name): return self.fn_named(name)

def h_choice(self, n, want):
    """random.choice: some element, chosen by the environment"""
    e = self.ex(n.args[0])
    if not e.ty.startswith('Seq<'): raise Unsupported('random.choice of ' + e.ty)
    self.ob(f'{e.s}.len() > 0', 'random.choice from a non-empty list')
    i = self.tmp('arbitrary::<int>()', 'int', base='pick')
    self.emit(Assume(f'0 <= {i} < {e.s}.len()', 'random.choice returns an element of its argument'))
    return E(f'{e.s}[{i}]', e.ty[4:-1])
def h_nothing(self, n, want): return E('0int', 'unit')

class PyTr(FnTr):
    def __init__(self, mod, node, contract):
        super().__init__(mod, node, contract)
        self.globals_ = contract.get('globals', {})

    # ------------------------------------------------------------ driver
    def run(self):
        node, c = self.node, self.c
        self.ctx = Ctx()
        self.sig, self.pnames = [], []
        a = node.args
        if a.vararg or a.kwarg or a.posonlyargs: raise Unsupported('variable arguments')
        names = [x.arg for x in a.args + a.kwonlyargs]
        types = c['types']
        tl = list(types.values()) if isinstance(types, dict) else list(types)
        if len(tl) != len(names): raise Unsupported(f'{node.name}: {len(names)} parameters, contract knows {len(tl)}')
        for nm, ty in zip(names, tl):
            n = self.fresh(nm)
            self.sig.append((n, ty, self.mutable(ty), None)); self.pnames.append(n)
            self.ctx.env[nm] = Var(n, ty)
        self.rty = c.get('returns', 'unit'); self.ctx.ret_ty = self.rty
        self.hoisted = self.find_hoisted(node.body)
        for gn, gty in c.get('ghosts', []):
            self.sig.append((gn, gty, True, None)); self.pnames.append(gn); self.ctx.env['ghost ' + gn] = Var(gn, gty)
        pre = c.get('mutates')
        self.raises = c.get('raises', False) if node.name in self.mod.stack else False
        if pre is not None: self.outs = [(n, ty) for (n, ty, r, x), nm in zip(self.sig, names + [g for g, t in c.get('ghosts', [])]) if nm in pre or n in [self.pnames[i] for i, p in enumerate(c.get('params', names)) if p in pre]]
        self.cur = []
        body = self.compound({'kind': 'CompoundStmt', 'inner': node.body})
        self.body = self.hoist_decls() + body
        outs = [(n, ty) for (n, ty, r, x) in self.sig if r and n in self.mutated]
        if pre is not None and not set(outs) <= set(self.outs): raise Unsupported(f'{node.name} modifies {outs}, contract allows {pre}')
        if pre is None: self.outs = outs
        if c.get('raises'): self.raises = True
        fix_returns(self.body, self)
        if not ends_with_return(self.body):
            self.body.append(S('return', ret=None, e=E(self.result_tuple('0int', '0int' if self.rty == 'unit' else f'arbitrary::<{vty(self.rty)}>()'), '')))

    def mutable(self, ty):
        if ty.startswith('('): return any(self.mutable(x) for x in split_targs(ty[1:-1]))
        return ty.startswith(('Seq<', 'Set<', 'Map<')) or ty in self.mod.types.structs

    # names first bound inside a branch or loop but used after it need a declaration in front
    def find_hoisted(self, body):
        depth_bind, used = {}, {}
        def bind(t, path):
            if isinstance(t, ast.Name): depth_bind.setdefault(t.id, []).append((t.lineno, t.col_offset, path))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: bind(e, path)
        def uses(n, path):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): used.setdefault(x.id, []).append((x.lineno, path))
        def walk(stmts, path):
            for i, s in enumerate(stmts):
                p = path + (id(stmts),)
                if isinstance(s, (ast.Assign,)):
                    uses(s, p)
                    for t in s.targets: bind(t, p)
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)): uses(s, p); bind(s.target, p)
                elif isinstance(s, ast.For):
                    uses(s.iter, p); walk(s.body, p + (id(s.body),)); walk(s.orelse, p)
                    bind(s.target, p + (id(s.body), id(s.body)))
                elif isinstance(s, ast.While): uses(s.test, p); walk(s.body, p)
                elif isinstance(s, ast.If): uses(s.test, p); walk(s.body, p); walk(s.orelse, p)
                elif isinstance(s, (ast.Try, ast.With)): uses(s, p)
                else: uses(s, p)
        walk(body, ())
        out = set()
        for v, bs in depth_bind.items():
            bs = sorted(bs)
            # paths: a use is fine when some earlier binding's path is a prefix of the use's path
            for (ln, path) in used.get(v, []):
                ok = any(b[2] == path[:len(b[2])] and b[0] <= ln for b in bs)
                if not ok: out.add(v)
            for b in bs[1:]:
                f = bs[0]
                if not (f[2] == b[2][:len(f[2])]) and any(x[1][:len(f[2])] != f[2] for x in used.get(v, [])): out.add(v)
        return out
    def hoist_decls(self):
        return getattr(self, 'hoist_out', [])

    # ------------------------------------------------------------ statements
    def compound(self, n):
        save, self.cur = self.cur, []
        env = self.ctx.env
        self.ctx.env = dict(env)
        out = self.seq_of(n['inner'] if isinstance(n, dict) else n)
        self.ctx.env = env
        self.cur = save
        return out

    def stmt(self, n):
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant): return
            self.ex(n.value, stmt=True); return
        if isinstance(n, ast.Pass): return
        if isinstance(n, (ast.Import, ast.ImportFrom)): return
        if isinstance(n, ast.Assign):
            if len(n.targets) != 1: raise Unsupported('chained assignment')
            self.alias_check(n.targets[0], n.value, n)
            e = self.ex(n.value, want=self.want_for(n.targets[0]))
            self.bind(n.targets[0], e); return
        if isinstance(n, ast.AnnAssign):
            if n.value is None: return
            self.alias_check(n.target, n.value, n)
            w = self.want_for(n.target)
            e = self.ex(n.value, want=w)
            self.bind(n.target, e); return
        if isinstance(n, ast.AugAssign):
            t = self.ex(n.target)
            v = self.ex(n.value, want=t.ty)
            if t.lv is None: raise Unsupported('augmented assignment')
            r = self.binop(n.op, E(t.s, t.ty), v)
            self.assign(LV(t.lv.base, t.ty, t.lv.path), r); return
        if isinstance(n, ast.If):
            c = self.cond(n.test)
            a = self.compound(n.body); b = self.compound(n.orelse)
            if a or b: self.emit(If(c, a, b))
            return
        if isinstance(n, ast.While):
            if n.orelse: raise Unsupported('while-else')
            return self.loop(n.test, None, {'kind': 'CompoundStmt', 'inner': n.body}, 'while')
        if isinstance(n, ast.For): return self.for_(n)
        if isinstance(n, ast.Return):
            e = self.ex(n.value, want=self.rty) if n.value is not None else E('0int', 'unit')
            if self.rty == 'unit': e = E('0int', 'unit')
            elif e.ty != self.rty:
                e2 = self.coerce(e, self.rty)
                if e2.ty != self.rty: raise Unsupported(f'returns {e.ty}, contract says {self.rty}')
                e = e2
            self.do_return(e); return
        if isinstance(n, ast.Raise):
            x = n.exc
            nm = x.func.id if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) else x.id if isinstance(x, ast.Name) else None
            if nm is None: raise Unsupported('raise')
            self.do_raise(exc_code(nm)); return
        if isinstance(n, ast.Break):
            lp = self.loop_stack[-1]; lp['brk_used'] = True
            self.emit(S('set', name=lp['brk'], e=E('true', 'bool'), exit=lp['brk'], definite=True)); return
        if isinstance(n, ast.Continue):
            lp = self.loop_stack[-1]; lp['cont_used'] = True
            self.emit(S('set', name=lp['cont'], e=E('true', 'bool'), exit=lp['cont'], definite=True)); return
        if isinstance(n, ast.Assert):
            self.ob(self.cond(n.test), 'assert statement'); return
        if isinstance(n, ast.With):
            if len(n.items) != 1 or not isinstance(n.items[0].optional_vars, ast.Name): raise Unsupported('with')
            h = self.hook('with', ast.unparse(n.items[0].context_expr.func) if isinstance(n.items[0].context_expr, ast.Call) else None)
            if not h: raise Unsupported('with')
            e = h(self, n.items[0].context_expr)
            env = self.ctx.env; self.ctx.env = dict(env)
            self.ctx.env[n.items[0].optional_vars.id] = Var(e.s, e.ty)
            for s in self.seq_of(n.body): self.emit(s)
            self.ctx.env = env; return
        raise Unsupported('statement ' + type(n).__name__)

    def expr_stmt(self, n): raise Unsupported('increment expression')

    def want_for(self, t):
        if isinstance(t, ast.Name):
            v = self.ctx.env.get(t.id)
            if v is not None: return v.ty
            w = dict(x if isinstance(x, tuple) else (x, None) for x in self.c.get('locals', [])).get(t.id)
            if w: return w
            # contract locals renamed in the source: take the first empty-literal type by order
            return self.c.get('ltypes', {}).get(t.id)
        if isinstance(t, ast.Subscript) or isinstance(t, ast.Attribute):
            try:
                save, self.cur = self.cur, []
                m = self.mutated.copy()
                e = self.ex(t); self.cur = save; self.mutated = m
                return e.ty
            except Unsupported: self.cur = save; return None
        return None

    def alias_check(self, tgt, val, node):
        """`a = b` of mutable values is only a copy if neither is modified in place afterwards"""
        if not isinstance(val, (ast.Name, ast.Attribute, ast.Subscript)): return
        if isinstance(val, ast.Subscript) and isinstance(val.slice, ast.Slice): return
        try:
            save, self.cur = self.cur, []
            e = self.ex(val)
        finally: self.cur = save
        if not self.mutable(e.ty): return
        b = val
        while isinstance(b, (ast.Attribute, ast.Subscript)): b = b.value
        names = {b.id} if isinstance(b, ast.Name) else set()
        if isinstance(tgt, ast.Name): names.add(tgt.id)
        else: return self.alias_fail(names | {'?'}, node)
        self.alias_fail(names, node)
    def alias_fail(self, names, node):
        def root(x):
            while isinstance(x, (ast.Attribute, ast.Subscript)): x = x.value
            return x.id if isinstance(x, ast.Name) else None
        rebinds = {}
        for x in ast.walk(self.node):
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name): rebinds.setdefault(t.id, []).append(x.lineno)
        for x in ast.walk(self.node):
            nm = None; ln = getattr(x, 'lineno', 0)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS: nm = root(x.func.value)
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, (ast.Subscript, ast.Attribute)): nm = root(t)
            if nm in names:
                # a mutation before the alias statement is harmless when the name is bound afresh before it
                if ln < node.lineno and any(r < ln for r in rebinds.get(nm, [])): continue
                if ln < node.lineno and not self.loop_stack: continue
                raise Unsupported(f'{nm} is aliased and modified in place')

    def append_alias(self, val, e):
        """an object put into a list must not be modified in place afterwards"""
        if not isinstance(val, ast.Name) or not self.mutable(e.ty): return
        nm = val.id
        def root(x):
            while isinstance(x, (ast.Attribute, ast.Subscript)): x = x.value
            return x.id if isinstance(x, ast.Name) else None
        def mutations(top):
            for x in ast.walk(top):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and root(x.func.value) == nm: yield x.lineno
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) == nm: yield x.lineno
        def binds(top): return [x.lineno for x in ast.walk(top) if isinstance(x, (ast.Assign, ast.AnnAssign)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name) and t.id == nm] + [x.lineno for x in ast.walk(top) if isinstance(x, ast.For) and nm in [y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)]]
        bs = binds(self.node)
        for m in mutations(self.node):
            if m > val.lineno and not any(val.lineno < b < m for b in bs): raise Unsupported(f'{nm} is modified in place after it was appended')
        loops = [x for x in ast.walk(self.node) if isinstance(x, (ast.For, ast.While)) and x.lineno <= val.lineno <= x.end_lineno]
        if loops:
            inner = max(loops, key=lambda x: x.lineno)
            if any(True for _ in mutations(inner)) and not any(b <= m for b in binds(inner) for m in [min(mutations(inner))]): raise Unsupported(f'{nm} is modified in place after it was appended')

    def bind(self, t, e):
        if isinstance(t, ast.Name):
            v = self.ctx.env.get(t.id)
            if v is not None and v.ty == e.ty and v.name:
                self.mutated.add(v.name)
                self.emit(Set(v.name, e)); return
            if v is not None and v.ty != e.ty:
                e2 = self.coerce(e, v.ty)
                if e2.ty == v.ty: self.mutated.add(v.name); self.emit(Set(v.name, e2)); return
                if not self.loop_stack and t.id not in self.hoisted:
                    n = self.declare(t.id, e.ty, e); self.ctx.env[t.id] = Var(n, e.ty); return
                raise Unsupported(f'{t.id} changes its type from {v.ty} to {e.ty}')
            if t.id in self.hoisted:
                n = self.fresh(t.id); self.locals.append((n, e.ty))
                if not hasattr(self, 'hoist_out'): self.hoist_out = []
                self.hoist_out.append(Let(n, vty(e.ty), None))
                self.declare_everywhere(t.id, Var(n, e.ty))
                self.emit(Set(n, e)); return
            n = self.declare(t.id, e.ty, e); self.ctx.env[t.id] = Var(n, e.ty); return
        if isinstance(t, (ast.Tuple, ast.List)):
            if not e.ty.startswith('('): raise Unsupported('unpacking ' + e.ty)
            tys = split_targs(e.ty[1:-1])
            if len(tys) != len(t.elts): raise Unsupported('unpacking')
            tp = self.tmp(e.s, e.ty, base='tp')
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Name) and x.id == '_': continue
                self.bind(x, E(f'{tp}.{i}', tys[i]))
            return
        tgt = self.ex(t)
        if tgt.lv is None: raise Unsupported('assignment target')
        e = self.coerce(e, tgt.ty)
        if e.ty != tgt.ty: raise Unsupported(f'assigning {e.ty} to {tgt.ty}')
        self.write(LV(tgt.lv.base, tgt.ty, tgt.lv.path), e.s)
    def declare_everywhere(self, nm, v):
        self.ctx.env[nm] = v
        self.hoist_env = getattr(self, 'hoist_env', {}); self.hoist_env[nm] = v

    def for_(self, n):
        if n.orelse: raise Unsupported('for-else')
        it0 = n.iter
        src = self.ex(it0)
        live = None
        if src.lv is not None and src.ty.startswith('Seq<') and self.body_mutates(src.lv.base, n.body):
            live = self.freeze(src.lv)
        elif src.lv is not None and src.ty.startswith(('Map<', 'Set<')) and src.lv.path == () and self.body_mutates(src.lv.base, n.body):
            raise Unsupported('dict or set modified while iterated')
        seq, elt = self.iter_seq(src)
        it = None
        if live is None: sn = self.tmp(seq, f'Seq<{elt}>', base='range')
        else: sn = live.read()
        it = self.fresh('k'); self.emit(Let(it, 'int', E('0int', 'int')))
        env = self.ctx.env
        self.ctx.env = dict(env)
        def pre(): self.bind(n.target, E(f'{sn}[{it}]', elt))
        def post(): self.emit(Set(it, E(f'{it} + 1', 'int')))
        dec = f'{sn}.len() - {it}' if live is None else None
        auto = [f'0 <= {it} <= {sn}.len()'] if live is None else [f'0 <= {it}']
        self.loop(None, None, {'kind': 'CompoundStmt', 'inner': n.body}, 'range', pre_body=pre, cond_s=f'{it} < {sn}.len()', auto=auto, dec=dec, lid={'it': it, 'seq': sn}, post=post)
        self.ctx.env = env

    def body_mutates(self, base, body):
        """does the body (or anything it calls) modify the object held in ghost variable `base`?"""
        names = [k for k, v in self.ctx.env.items() if v.name == base]
        def root(x):
            while isinstance(x, (ast.Attribute, ast.Subscript)): x = x.value
            return x.id if isinstance(x, ast.Name) else None
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and root(x.func.value) in names: return True
                    if isinstance(x.func, ast.Name) and x.func.id in self.mod.defs and any(root(a) in names for a in x.args): return True
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) in names: return True
        return False

    def iter_seq(self, e):
        h = self.hook('iter', e.ty)
        if h: return h(self, e)
        if e.meta and e.meta.get('items_of'): return e.s, e.ty[4:-1]
        if e.ty.startswith('Map<'):
            k, v = split_targs(e.ty[4:-1]); return f'map_keys({e.s})', k
        return self.as_seq(e)
    def hook(self, kind, key):
        return self.mod.specs.get('__py__', {}).get((kind, key))

    def coerce(self, e, ty):
        if ty and ty.startswith('Opt<') and e.ty != ty:
            i = ty[4:-1]
            if e.ty == 'None': return E(f'Option::<{vty(i)}>::None', ty)
            e2 = self.coerce(e, i)
            return E(f'Some({e2.s})', ty) if e2.ty == i else e
        return super().coerce(e, ty)
    # ------------------------------------------------------------ expressions
    def cond(self, n):
        e = self.ex(n); return self.truth(e)
    def truth(self, e):
        if e.ty == 'bool': return e.s
        if e.ty.startswith(('Seq<', 'Set<')): return f'({e.s}.len() > 0)'
        if e.ty.startswith('Map<'): return f'({e.s}.dom().len() > 0)'
        if e.ty == 'int': return f'({e.s} != 0)'
        if e.ty.startswith('Opt<'):
            t = self.truth(E(f'{e.s}->0', e.ty[4:-1]))
            return f'({e.s} is Some && {t})'
        if e.ty == 'None': return 'false'
        raise Unsupported('truth value of ' + e.ty)

    def ex(self, n, want=None, stmt=False):
        m = getattr(self, 'p_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression ' + type(n).__name__)
        e = m(n, want, stmt) if type(n).__name__ == 'Call' else m(n, want)
        return e

    def p_Constant(self, n, want):
        v = n.value
        if v is True or v is False: return E('true' if v else 'false', 'bool')
        if isinstance(v, int): return E(f'{v}int' if v >= 0 else f'(-{-v}int)', 'int')
        if isinstance(v, float):
            from fractions import Fraction
            f = Fraction(str(v)); return E(f'({f.numerator}real / {f.denominator}real)', 'real')
        if isinstance(v, str): return E(str_const(v), 'Str', meta={'str': v})
        if v is None and want and want.startswith('Opt<'): return E(f'Option::<{vty(want[4:-1])}>::None', want)
        if v is None: return E('arbitrary::<int>()' if want is None else f'arbitrary::<{vty(want)}>()', want or 'None')
        raise Unsupported('constant')
    def p_JoinedStr(self, n, want): return E('arbitrary::<int>()', 'Str')
    def p_Name(self, n, want):
        v = self.ctx.env.get(n.id) or getattr(self, 'hoist_env', {}).get(n.id)
        if v is not None:
            if v.lv is not None and v.name is None: return E(v.lv.read(), v.ty, lv=v.lv)
            return E(v.name, v.ty, lv=LV(v.name, v.ty), meta={'var': v})
        g = self.hook('global', n.id)
        if g: return g(self)
        if n.id in self.mod.consts:
            try: return self.ex(self.mod.consts[n.id], want)
            except Unsupported: raise Unsupported('global ' + n.id)
        raise Unsupported('name ' + n.id)
    def p_Attribute(self, n, want):
        if isinstance(n.value, ast.Name) and n.value.id not in self.ctx.env:
            full = f'{n.value.id}.{n.attr}'
            if n.value.id in self.mod.enums and self.hook('global', full) is None:
                t, mem = self.mod.enums[n.value.id]
                if n.attr not in mem: raise Unsupported('enum member ' + full)
                return self.p_Constant(ast.Constant(mem[n.attr]), None)
            if full == 'sys.maxsize': return E('9223372036854775807int', 'int')
            g = self.hook('global', full)
            if g: return g(self)
        if isinstance(n.value, ast.Attribute):
            g = self.hook('global', ast.unparse(n))
            if g: return g(self)
        o = self.ex(n.value)
        h = self.hook('attr', (o.ty, n.attr))
        if h: return h(self, o)
        for f, t in self.mod.types.structs.get(o.ty) or []:
            if f == n.attr: return E(f'{o.s}.{f}', t, lv=o.lv.sub(('fld', f, o.ty), t) if o.lv else None)
        raise Unsupported(f'attribute {n.attr} of {o.ty}')
    def p_Subscript(self, n, want):
        o = self.ex(n.value)
        if isinstance(n.slice, ast.Slice):
            if not o.ty.startswith('Seq<') or n.slice.step is not None: raise Unsupported('slice')
            L = f'({o.s}.len() as int)'
            def bound(x, d):
                if x is None: return d, True
                if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant):
                    return f'(if {L} >= {x.operand.value} {{ {L} - {x.operand.value} }} else {{ 0int }})', True
                b = self.ex(x)
                self.ob(f'{b.s} >= 0', 'slice bound is not negative')
                return f'(if {b.s} < {L} {{ {b.s} }} else {{ {L} }})', False
            lo, _ = bound(n.slice.lower, '0int'); hi, _ = bound(n.slice.upper, L)
            return E(f'{o.s}.subrange({lo}, if {hi} < {lo} {{ {lo} }} else {{ {hi} }})' if n.slice.lower is not None and n.slice.upper is not None else f'{o.s}.subrange({lo}, {hi})', o.ty)
        h = self.hook('index', o.ty)
        if h: return h(self, o, n.slice)
        if o.ty.startswith('('):
            if not isinstance(n.slice, ast.Constant):
                raise Unsupported('tuple index')
            tys = split_targs(o.ty[1:-1]); i = n.slice.value
            if i < 0: i += len(tys)
            return E(f'{o.s}.{i}', tys[i], lv=o.lv.sub(('tup', i, len(tys)), tys[i]) if o.lv else None)
        if o.ty.startswith('Seq<'):
            s = n.slice
            if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant):
                i = E(f'({o.s}.len() - {s.operand.value})', 'int')
            else: i = self.ex(s)
            self.ob(f'0 <= {i.s} < {o.s}.len()', 'index is inside the list')
            elt = o.ty[4:-1]
            return E(f'{o.s}[{i.s}]', elt, lv=o.lv.sub(('idx', i.s), elt) if o.lv else None)
        if o.ty.startswith('Map<'):
            k = self.ex(n.slice); kt, vt = split_targs(o.ty[4:-1])
            if isinstance(n.ctx, ast.Load): self.ob(f'{o.s}.dom().contains({k.s})', 'key is in the dict')
            return E(f'{o.s}[{k.s}]', vt, lv=o.lv.sub(('pmap', k.s, None, kt), vt) if o.lv else None)
        raise Unsupported('index into ' + o.ty)
    def p_List(self, n, want):
        if not n.elts:
            if not want or not want.startswith('Seq<'): raise Unsupported('type of an empty list')
            return E(f'Seq::<{vty(want[4:-1])}>::empty()', want)
        es = [self.ex(x, want[4:-1] if want and want.startswith('Seq<') else None) for x in n.elts]
        return E('seq![' + ', '.join(e.s for e in es) + ']', f'Seq<{es[0].ty}>', meta={'elts': es})
    def p_Tuple(self, n, want):
        if want and want.startswith('Seq<'): return self.p_List(n, want)
        tys = split_targs(want[1:-1]) if want and want.startswith('(') else [None] * len(n.elts)
        es = [self.ex(x, t) for x, t in zip(n.elts, tys)]
        return E('(' + ', '.join(e.s for e in es) + ')', '(' + ', '.join(e.ty for e in es) + ')')
    def p_Dict(self, n, want):
        if not n.keys:
            if not want or not want.startswith('Map<'): raise Unsupported('type of an empty dict')
            return E(f'Map::<{", ".join(vty(x) for x in split_targs(want[4:-1]))}>::empty()', want)
        h = self.hook('dict', want) or self.hook('dict', None)
        if h: return h(self, n, want)
        s, ty = None, None
        for k, v in zip(n.keys, n.values):
            a, b = self.ex(k), self.ex(v)
            if s is None: ty = f'Map<{a.ty}, {b.ty}>'; s = f'Map::<{vty(a.ty)}, {vty(b.ty)}>::empty()'
            s = f'{s}.insert({a.s}, {b.s})'
        return E(s, ty)
    def p_Set(self, n, want):
        es = [self.ex(x) for x in n.elts]
        return E('set![' + ', '.join(e.s for e in es) + ']', f'Set<{es[0].ty}>')
    def p_UnaryOp(self, n, want):
        if isinstance(n.op, ast.Not): return E(f'!({self.cond(n.operand)})', 'bool')
        e = self.ex(n.operand)
        if isinstance(n.op, ast.USub): return E(f'(0{e.ty} - {e.s})' if e.ty in ('int', 'real') else self.fail('-'), e.ty)
        raise Unsupported('unary operator')
    def fail(self, w): raise Unsupported(w)
    def p_BoolOp(self, n, want):
        op = '&&' if isinstance(n.op, ast.And) else '||'
        cs = self.cond(n.values[0])
        for v in n.values[1:]:
            save, self.cur = self.cur, []
            c = self.cond(v); p = self.cur; self.cur = save
            g = f'({cs})' if op == '&&' else f'!({cs})'
            if any(s.k not in ('assert', 'glet') for s in p):
                # a call in the right operand: real short circuit
                t = self.fresh('cv'); self.emit(Let(t, 'bool', E(cs, 'bool')))
                self.emit(If(t if op == '&&' else f'!{t}', p + [Set(t, E(c, 'bool'))], []))
                cs = t; continue
            for s in p:
                if s.k == 'assert': self.emit(Assert(f'{g} ==> ({s.c})', s.what))
                else: self.emit(s)
            cs = f'({cs}) {op} ({c})'
        return E(f'({cs})', 'bool')
    def p_IfExp(self, n, want):
        c = self.cond(n.test); a = self.ex(n.body, want); b = self.ex(n.orelse, want)
        if want and want.startswith('Opt<'): a, b = self.coerce(a, want), self.coerce(b, want)
        elif a.ty.startswith('Opt<'): b = self.coerce(b, a.ty)
        elif b.ty.startswith('Opt<'): a = self.coerce(a, b.ty)
        if a.ty != b.ty: raise Unsupported(f'conditional of {a.ty} and {b.ty}')
        return E(f'(if {c} {{ {a.s} }} else {{ {b.s} }})', a.ty)
    def p_BinOp(self, n, want):
        a, b = self.ex(n.left, want), self.ex(n.right, want)
        return self.binop(n.op, a, b)
    def binop(self, op, a, b):
        h = self.hook('binop', (type(op).__name__, a.ty))
        if h: return h(self, a, b)
        if isinstance(op, ast.BitOr) and a.ty in self.mod.types.structs: raise Unsupported('|')
        if a.ty == 'Str' or b.ty == 'Str': return E('arbitrary::<int>()', 'Str')
        if a.ty.startswith('Seq<') and isinstance(op, ast.Add) and b.ty == a.ty: return E(f'({a.s} + {b.s})', a.ty)
        if a.ty.startswith('Set<'):
            m = {ast.Sub: 'difference', ast.BitOr: 'union', ast.BitAnd: 'intersect'}.get(type(op))
            if m and b.ty == a.ty: return E(f'{a.s}.{m}({b.s})', a.ty)
        if 'real' in (a.ty, b.ty): a, b = self.coerce(a, 'real'), self.coerce(b, 'real')
        else: a, b = self.coerce(a, 'int'), self.coerce(b, 'int')
        if a.ty not in ('int', 'real') or a.ty != b.ty: raise Unsupported(f'operator on {a.ty} and {b.ty}')
        o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*'}.get(type(op))
        if o: return E(f'({a.s} {o} {b.s})', a.ty)
        if isinstance(op, ast.FloorDiv) and a.ty == 'int':
            self.ob(f'{b.s} > 0', 'divisor is positive'); return E(f'({a.s} / {b.s})', 'int')
        if isinstance(op, ast.Mod) and a.ty == 'int':
            self.ob(f'{b.s} > 0', 'divisor is positive'); return E(f'({a.s} % {b.s})', 'int')
        raise Unsupported('operator ' + type(op).__name__)
    def p_Compare(self, n, want):
        parts = []; left = self.ex(n.left)
        for op, r in zip(n.ops, n.comparators):
            right = self.ex(r, left.ty)
            parts.append(self.cmp(op, left, right)); left = right
        return E('(' + ' && '.join(parts) + ')' if len(parts) > 1 else parts[0], 'bool')
    def cmp(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = '!' if isinstance(op, ast.NotIn) else ''
            h = self.hook('in', b.ty)
            if h: return neg + '(' + h(self, a, b) + ')'
            if b.meta and b.meta.get('elts') is not None: return neg + '(' + ' || '.join(self.cmp(ast.Eq(), a, e) for e in b.meta['elts']) + ')'
            if b.ty.startswith('Map<'): return f'{neg}{b.s}.dom().contains({a.s})'
            if b.ty.startswith(('Seq<', 'Set<')): return f'{neg}{b.s}.contains({a.s})'
            if b.ty.startswith('('):
                return neg + '(' + ' || '.join(self.cmp(ast.Eq(), a, E(f'{b.s}.{i}', t)) for i, t in enumerate(split_targs(b.ty[1:-1]))) + ')'
            raise Unsupported('membership in ' + b.ty)
        o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: '==', ast.IsNot: '!='}[type(op)]
        if a.ty != b.ty and o in ('==', '!=') and (a.ty.startswith('Opt<') or b.ty.startswith('Opt<')):
            w = a.ty if a.ty.startswith('Opt<') else b.ty
            a, b = self.coerce(a, w), self.coerce(b, w)
            if a.ty != b.ty: raise Unsupported(f'comparison of {a.ty} and {b.ty}')
        if a.ty != b.ty:
            if 'real' in (a.ty, b.ty): a, b = self.coerce(a, 'real'), self.coerce(b, 'real')
            elif {a.ty, b.ty} <= {'int', 'bool'}: a, b = self.coerce(a, 'int'), self.coerce(b, 'int')
            else: raise Unsupported(f'comparison of {a.ty} and {b.ty}')
        if o in ('<', '<=', '>', '>=') and a.ty not in ('int', 'real'): raise Unsupported('order on ' + a.ty)
        if a.ty.startswith('Seq<'): return f'({a.s} {"=~=" if o == "==" else "!~="} {b.s})' if o == '==' else f'!({a.s} =~= {b.s})'
        return f'({a.s} {o} {b.s})'
    def p_DictComp(self, n, want): return self.comp(n, want)
    def p_ListComp(self, n, want):
        g = n.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async: raise Unsupported('list comprehension')
        src = self.ex(g[0].iter); s, elt = self.iter_seq(src)
        x = self.fresh('ci')
        env = self.ctx.env; self.ctx.env = dict(env)
        self.bind_pure(g[0].target, E(f'{s}[{x}]', elt))
        save, self.cur = self.cur, []
        e = self.ex(n.elt, want[4:-1] if want else None)
        p = self.cur; self.cur = save; self.ctx.env = env
        for q in p:
            if q.k != 'assert': raise Unsupported('comprehension')
            self.emit(Assert(f'forall|{x}: int| 0 <= {x} < {s}.len() ==> ({q.c})', q.what))
        return E(f'Seq::new({s}.len(), |{x}: int| {e.s})', f'Seq<{e.ty}>')
    def bind_pure(self, t, e):
        if isinstance(t, ast.Name): self.ctx.env[t.id] = Var(e.s, e.ty); return
        tys = split_targs(e.ty[1:-1])
        for i, x in enumerate(t.elts): self.bind_pure(x, E(f'{e.s}.{i}', tys[i]))
    def comp(self, n, want):
        g = n.generators
        if len(g) != 1 or not isinstance(g[0].target, ast.Name) or not isinstance(n.key, ast.Name) or n.key.id != g[0].target.id: raise Unsupported('dict comprehension')
        src = self.ex(g[0].iter); s, elt = self.iter_seq(src)
        x = self.fresh('ck')
        env = self.ctx.env; self.ctx.env = dict(env); self.ctx.env[n.key.id] = Var(x, elt)
        save, self.cur = self.cur, []
        cs = [self.cond(c) for c in g[0].ifs]
        vt = split_targs(want[4:-1])[1] if want and want.startswith('Map<') else None
        v = self.ex(n.value, vt)
        p = self.cur; self.cur = save; self.ctx.env = env
        dom = ' && '.join([f'{s}.contains({x})'] + cs)
        for q in p:
            if q.k != 'assert': raise Unsupported('comprehension')
            self.emit(Assert(f'forall|{x}: {vty(elt)}| {dom} ==> ({q.c})', q.what))
        ds = f'{s}.to_set()' + (f'.filter(|{x}: {vty(elt)}| ' + ' && '.join(cs) + ')' if cs else '')
        return E(f'Map::new({ds}, |{x}: {vty(elt)}| {v.s})', f'Map<{elt}, {v.ty}>')

    # ------------------------------------------------------------ calls
    def p_Call(self, n, want, stmt=False):
        f = n.func
        full = None
        try: full = ast.unparse(f)
        except Exception: pass
        h = self.hook('call', full)
        if h: return h(self, n, want)
        if isinstance(f, ast.Name):
            if f.id in self.mod.defs and (self.mod.contract(f.id) is not None): return self.user(f.id, n)
            if f.id in self.mod.records and f.id not in self.ctx.env: return self.construct(f.id, n)
            b = getattr(self, 'b_' + f.id, None)
            if b: return b(n, want)
            if f.id in self.mod.defs: return self.inline_py(f.id, n)
            raise Unsupported('call of ' + f.id)
        if isinstance(f, ast.Attribute):
            o = self.ex(f.value)
            h = self.hook('method', (o.ty, f.attr))
            if h: return h(self, o, n)
            m = getattr(self, 'o_' + f.attr, None)
            if m: return m(o, n, stmt)
            raise Unsupported(f'method {f.attr} of {o.ty}')
        raise Unsupported('call')
    def args(self, n, names=None, wants=None):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords): raise Unsupported('starred arguments')
        if names is None:
            if n.keywords: raise Unsupported('keyword arguments')
            return [self.ex(a) for a in n.args]
        out = {}
        for nm, a in zip(names, n.args): out[nm] = a
        for k in n.keywords:
            if k.arg not in names: raise Unsupported('keyword ' + k.arg)
            out[k.arg] = k.value
        return out

    def user(self, name, n):
        d = self.mod.defs[name]
        f = self.mod.fn_named(name)
        names = [x.arg for x in d.args.args + d.args.kwonlyargs]
        got = self.args(n, names)
        defaults = dict(zip([x.arg for x in d.args.args][len(d.args.args) - len(d.args.defaults):], d.args.defaults))
        defaults.update({x.arg: v for x, v in zip(d.args.kwonlyargs, d.args.kw_defaults) if v is not None})
        argv, outs = [], {}
        for (sn, sty, byref, cont), nm in zip(f.sig, names):
            a = got.get(nm, defaults.get(nm))
            if a is None: raise Unsupported('missing argument ' + nm)
            v = self.ex(a, sty); v = self.coerce(v, sty)
            if v.ty != sty: raise Unsupported(f'{name}: argument {nm} is {v.ty}, contract says {sty}')
            argv.append(v.s)
            if v.lv is not None: outs[sn] = v
        r = self.fresh('r')
        self.emit(Call(r, f.name, argv))
        for i, (on, oty) in enumerate(f.outs):
            v = outs.get(on)
            if v is None: continue
            self.write(LV(v.lv.base, oty, v.lv.path), f'{r}@.{i + 2}')
        if f.raises:
            save, self.cur = self.cur, []
            self.do_raise(f'{r}@.0'); st = self.cur; self.cur = save
            for s in st:
                if s.k == 'set': s.definite = False
            self.emit(S('if', c=f'{r}@.0 != 0', a=st, b=[]))
        return E(f'{r}@.1', f.rty)

    def inline_py(self, name, n):
        d = self.mod.defs[name]
        if getattr(self, 'pydepth', 0) > 6: raise Unsupported('inlining too deep')
        names = [x.arg for x in d.args.args + d.args.kwonlyargs]
        got = self.args(n, names)
        defaults = dict(zip([x.arg for x in d.args.args][len(d.args.args) - len(d.args.defaults):], d.args.defaults))
        self.mod.inlined.add(name); self.pydepth = getattr(self, 'pydepth', 0) + 1
        outer = self.ctx; c = Ctx(outer); c.env = {}
        for nm in names:
            a = got.get(nm, defaults.get(nm))
            if a is None: raise Unsupported('missing argument ' + nm)
            v = self.ex(a)
            if v.lv is not None and self.mutable(v.ty): c.env[nm] = Var(None, v.ty, lv=self.freeze(v.lv))
            else:
                g = self.declare(nm, v.ty, v); c.env[nm] = Var(g, v.ty)
        body = [x for x in d.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        rets = [x for x in ast.walk(d) if isinstance(x, ast.Return)]
        self.ctx = c; hs, self.hoisted = self.hoisted, self.find_hoisted(d.body); lst, self.loop_stack = self.loop_stack, []
        nd, self.node = self.node, d
        try:
            if not rets or (len(rets) == 1 and body[-1] is rets[0]):
                c.done = 'NODONE'
                save, self.cur = self.cur, []
                st = self.seq_of(body[:-1] if rets else body); self.cur = save
                ex = exits(st)
                for s in st: self.emit(s)
                if not rets or rets[0].value is None: return E('0int', 'unit')
                if ex: raise Unsupported('inlined function may raise')
                e = self.ex(rets[0].value)
                return E(self.tmp(e.s, e.ty, base='rv'), e.ty) if not e.ty.startswith('fn') else e
            # several returns: find the type first
            rt = None
            ann = d.returns
            save, self.cur = self.cur, []
            c.ret_ty = self.c.get('inline_types', {}).get(name)
            self.cur = save
            if c.ret_ty is None:
                m = {'bool': 'bool', 'int': 'int'}.get(ast.unparse(ann) if ann is not None else '')
                if m is None and all(isinstance(r.value, (ast.Compare, ast.BoolOp)) or (isinstance(r.value, ast.Constant) and isinstance(r.value.value, bool)) for r in rets): m = 'bool'
                if m is None: raise Unsupported(f'return type of {name}')
                c.ret_ty = m
            c.done = self.fresh('done'); self.emit(Let(c.done, 'bool', E('false', 'bool')))
            c.ret_var = self.fresh('ret'); self.emit(Let(c.ret_var, vty(c.ret_ty), None))
            rty, self.rty = self.rty, c.ret_ty
            save, self.cur = self.cur, []
            st = self.seq_of(body); self.cur = save; self.rty = rty
            strip_exit(st, c.done)
            for s in st: self.emit(s)
            return E(c.ret_var, c.ret_ty)
        finally:
            self.ctx = outer; self.hoisted = hs; self.loop_stack = lst; self.pydepth -= 1; self.node = nd

    def construct(self, name, n):
        """pydantic record: keyword arguments, class defaults for the rest"""
        if n.args or any(k.arg is None for k in n.keywords): raise Unsupported('positional arguments of a record')
        fs = self.mod.records[name]; kw = {k.arg: k.value for k in n.keywords}; out = []
        if set(kw) - {f for f, t in fs}: raise Unsupported(f'{name}: unknown field {sorted(set(kw) - dict(fs).keys())}')
        val = {f: self.ex(kw[f], t) for f, t in sorted(fs, key=lambda x: list(kw).index(x[0]) if x[0] in kw else -1) if f in kw}
        for f, t in fs:
            v = val.get(f)
            if v is None:
                d = self.mod.rec_defaults[name].get(f)
                if d is None: raise Unsupported(f'{name}: field {f} is missing')
                v = self.ex(d, t)
            v = self.coerce(v, t)
            if v.ty != t: raise Unsupported(f'{name}.{f} is {t}, gets {v.ty}')
            out.append(f'{f}: {v.s}')
        return E(f'{name} {{ {", ".join(out)} }}', name)

    # builtins
    def one(self, n):
        a = self.args(n)
        if len(a) != 1: raise Unsupported('arguments')
        return a[0]
    def b_len(self, n, want):
        e = self.one(n)
        h = self.hook('len', e.ty)
        if h: return h(self, e)
        if e.ty.startswith(('Seq<', 'Set<')): return E(f'({e.s}.len() as int)', 'int')
        if e.ty.startswith('Map<'): return E(f'({e.s}.dom().len() as int)', 'int')
        raise Unsupported('len of ' + e.ty)
    def b_list(self, n, want):
        if not n.args: return self.p_List(ast.List(elts=[]), want)
        e = self.one(n); s, elt = self.iter_seq(e); return E(s, f'Seq<{elt}>')
    b_tuple = b_list
    def b_set(self, n, want):
        if not n.args:
            if not want: want = 'Set<int>'
            return E(f'Set::<{vty(want[4:-1])}>::empty()', want)
        e = self.one(n)
        if e.ty.startswith('Set<'): return E(e.s, e.ty)
        s, elt = self.iter_seq(e); return E(f'{s}.to_set()', f'Set<{elt}>')
    def b_dict(self, n, want):
        if not n.args: return self.p_Dict(ast.Dict(keys=[], values=[]), want)
        e = self.one(n)
        if e.ty.startswith('Map<'): return E(e.s, e.ty)
        raise Unsupported('dict()')
    def b_range(self, n, want):
        a = self.args(n)
        lo, hi = ('0int', a[0].s) if len(a) == 1 else (a[0].s, a[1].s)
        if len(a) > 2: raise Unsupported('range step')
        return E(f'int_range({lo}, {hi})', 'Seq<int>')
    def b_zip(self, n, want):
        a = self.args(n)
        if len(a) != 2: raise Unsupported('zip')
        (s1, t1), (s2, t2) = self.iter_seq(a[0]), self.iter_seq(a[1])
        return E(f'zip_seq({s1}, {s2})', f'Seq<({t1}, {t2})>')
    def b_enumerate(self, n, want):
        e = self.one(n); s, t = self.iter_seq(e)
        return E(f'enum_seq({s})', f'Seq<(int, {t})>')
    def b_reversed(self, n, want):
        e = self.one(n); s, t = self.iter_seq(e); return E(f'{s}.reverse()', f'Seq<{t}>')
    def b_sorted(self, n, want):
        e = self.one(n); s, t = self.iter_seq(e)
        if t != 'int': raise Unsupported('sorted')
        return E(f'sorted_seq({s})', 'Seq<int>')
    def b_int(self, n, want):
        e = self.one(n); e = self.coerce(e, 'int')
        if e.ty != 'int': raise Unsupported('int()')
        return e
    def b_str(self, n, want): return E('arbitrary::<int>()', 'Str')
    def b_bool(self, n, want): return E(self.truth(self.one(n)), 'bool')
    def b_print(self, n, want): return E('0int', 'unit')
    def b_min(self, n, want):
        a = self.args(n)
        if len(a) != 2: raise Unsupported('min')
        return E(f'(if {a[1].s} < {a[0].s} {{ {a[1].s} }} else {{ {a[0].s} }})', a[0].ty)
    def b_max(self, n, want):
        a = self.args(n)
        if len(a) != 2: raise Unsupported('max')
        return E(f'(if {a[1].s} > {a[0].s} {{ {a[1].s} }} else {{ {a[0].s} }})', a[0].ty)
    # methods of lists, dicts, sets
    def lvo(self, o):
        if o.lv is None: raise Unsupported('modification of a temporary')
        return LV(o.lv.base, o.ty, o.lv.path)
    def o_append(self, o, n, stmt):
        if not o.ty.startswith('Seq<'): raise Unsupported('append to ' + o.ty)
        a = self.coerce(self.ex(n.args[0], o.ty[4:-1]), o.ty[4:-1]); lv = self.lvo(o)
        if a.ty != o.ty[4:-1]: raise Unsupported(f'append {a.ty} to {o.ty}')
        self.append_alias(n.args[0], a)
        self.write(lv, f'{lv.read()}.push({a.s})'); return E('0int', 'unit')
    def o_extend(self, o, n, stmt):
        a = self.one(n); lv = self.lvo(o); s, t = self.iter_seq(a)
        if f'Seq<{t}>' != o.ty: raise Unsupported('extend')
        self.write(lv, f'({lv.read()} + {s})'); return E('0int', 'unit')
    def o_insert(self, o, n, stmt):
        i, a = self.args(n); lv = self.lvo(o)
        if not o.ty.startswith('Seq<'): raise Unsupported('insert')
        self.ob(f'0 <= {i.s} <= {lv.read()}.len()', 'insertion point is inside the list')
        self.write(lv, f'{lv.read()}.insert({i.s}, {a.s})'); return E('0int', 'unit')
    def o_pop(self, o, n, stmt):
        if not o.ty.startswith('Seq<'): raise Unsupported('pop')
        lv = self.lvo(o)
        self.ob(f'{lv.read()}.len() > 0', 'pop from a non-empty list')
        if not n.args:
            t = self.tmp(f'{lv.read()}.last()', o.ty[4:-1], base='popped')
            self.write(lv, f'{lv.read()}.drop_last()')
        elif isinstance(n.args[0], ast.Constant) and n.args[0].value == 0:
            t = self.tmp(f'{lv.read()}[0]', o.ty[4:-1], base='popped')
            self.write(lv, f'{lv.read()}.subrange(1, {lv.read()}.len() as int)')
        else: raise Unsupported('pop')
        return E(t, o.ty[4:-1])
    def o_remove(self, o, n, stmt):
        a = self.one(n); lv = self.lvo(o)
        if o.ty.startswith('Seq<'):
            self.ob(f'{lv.read()}.contains({a.s})', 'removed element is in the list')
            t = self.tmp(f'find_pos({lv.read()}, 0, {lv.read()}.len() as int, {a.s})', 'int', base='at')
            self.write(lv, f'{lv.read()}.remove({t})')
        elif o.ty.startswith('Set<'):
            self.ob(f'{lv.read()}.contains({a.s})', 'removed element is in the set')
            self.write(lv, f'{lv.read()}.remove({a.s})')
        else: raise Unsupported('remove')
        return E('0int', 'unit')
    def o_add(self, o, n, stmt):
        if not o.ty.startswith('Set<'): raise Unsupported('add')
        a = self.one(n); lv = self.lvo(o); self.write(lv, f'{lv.read()}.insert({a.s})'); return E('0int', 'unit')
    def o_discard(self, o, n, stmt):
        if not o.ty.startswith('Set<'): raise Unsupported('discard')
        a = self.one(n); lv = self.lvo(o); self.write(lv, f'{lv.read()}.remove({a.s})'); return E('0int', 'unit')
    def o_update(self, o, n, stmt):
        a = self.one(n); lv = self.lvo(o)
        if o.ty.startswith('Set<'):
            s = a.s if a.ty.startswith('Set<') else self.iter_seq(a)[0] + '.to_set()'
            self.write(lv, f'{lv.read()}.union({s})'); return E('0int', 'unit')
        if o.ty.startswith('Map<') and a.ty == o.ty:
            self.write(lv, f'{lv.read()}.union_prefer_right({a.s})'); return E('0int', 'unit')
        raise Unsupported('update')
    def o_reverse(self, o, n, stmt):
        lv = self.lvo(o); self.write(lv, f'{lv.read()}.reverse()'); return E('0int', 'unit')
    def o_sort(self, o, n, stmt):
        if n.args or n.keywords or o.ty != 'Seq<int>': raise Unsupported('sort')
        lv = self.lvo(o); self.write(lv, f'sorted_seq({lv.read()})'); return E('0int', 'unit')
    def o_clear(self, o, n, stmt):
        lv = self.lvo(o); self.write(lv, default_of(o.ty, {})); return E('0int', 'unit')
    def o_copy(self, o, n, stmt): return E(o.s, o.ty)
    def o_items(self, o, n, stmt):
        if not o.ty.startswith('Map<'): raise Unsupported('items')
        k, v = split_targs(o.ty[4:-1]); return E(f'map_entries({o.s})', f'Seq<({k}, {v})>', meta={'items_of': o})
    def o_keys(self, o, n, stmt):
        k, v = split_targs(o.ty[4:-1]); return E(f'map_keys({o.s})', f'Seq<{k}>')
    def o_values(self, o, n, stmt):
        k, v = split_targs(o.ty[4:-1]); return E(f'map_values({o.s})', f'Seq<{v}>')
    def o_get(self, o, n, stmt):
        a = self.args(n)
        if o.ty.startswith('Map<') and len(a) == 2: return E(f'mget({o.s}, {a[0].s}, {a[1].s})', split_targs(o.ty[4:-1])[1])
        raise Unsupported('get')
    def o_union(self, o, n, stmt): a = self.one(n); return E(f'{o.s}.union({a.s})', o.ty)
    def o_difference(self, o, n, stmt): a = self.one(n); return E(f'{o.s}.difference({a.s})', o.ty)
    def o_index(self, o, n, stmt):
        a = self.one(n); self.ob(f'{o.s}.contains({a.s})', 'searched element is in the list')
        return E(f'find_pos({o.s}, 0, {o.s}.len() as int, {a.s})', 'int')
