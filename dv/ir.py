"""Structured intermediate representation shared by the C++ and the Python front end,
and its printer to Verus.

A translated function is a list of statements over *ghost* values (mathematical
ints, reals, sequences, maps, sets).  Nothing here knows about a property: contracts and
invariants come from the spec modules (dv/spec/*.py), statements come from the
current source of /repo.
"""
import re

class Unsupported(Exception):
    """The source uses a construct outside the extracted subset."""

class E:
    """A pure spec expression."""
    __slots__ = ('s', 'ty', 'cont', 'lv', 'meta')
    def __init__(self, s, ty, cont=None, lv=None, meta=None):
        self.s, self.ty, self.cont, self.lv, self.meta = s, ty, cont, lv, meta
    def __repr__(self): return f'E({self.s}:{self.ty})'

# ---- statements -------------------------------------------------------------
class S:
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

def Let(name, ty, e): return S('let', name=name, ty=ty, e=e)
def Set(name, e): return S('set', name=name, e=e)
def If(c, a, b): return S('if', c=c, a=a, b=b)
def While(cond, body, lid, pre=None, src=None, kind='while', auto=None, dec=None): return S('while', cond=cond, body=body, lid=lid, pre=pre or [], src=src, kind=kind, auto=auto or [], dec=dec)
def Assert(c, what): return S('assert', c=c, what=what)
def Assume(c, what): return S('assume', c=c, what=what)
def Return(e): return S('return', e=e)
def Call(res, fn, args): return S('call', res=res, fn=fn, args=args)
def Hint(text): return S('hint', text=text)
def Mark(label): return S('mark', label=label)

def substitute(text, table):
    """$name -> value, longest names first."""
    def rep(m):
        n = m.group(1)
        if n in table: return table[n]
        raise Unsupported(f'spec refers to ${n}, which the source does not declare')
    return re.sub(r'\$([A-Za-z_][A-Za-z_0-9]*)', rep, text)

class Printer:
    """Prints one function.  Every obligation gets a tag so that a Verus error line can be
    mapped back to it."""
    def __init__(self, fname, spec, names, rty):
        self.fname, self.spec, self.names, self.rty = fname, spec, names, rty
        self.out = []
        self.tags = []           # (tag)
        self.nloop = 0
        self.nret = 0
        self.loop_labels = []
        self.tmp = 0
        self.consumed_hints = set()
        self.scopes = [set()]
        self.local_names = set()
        self.inv_names = {}

    def tag(self, what):
        t = f'{self.fname}::{what}'
        n = sum(1 for x in self.tags if x == t or x.startswith(t + '#'))
        if n: t += f'#{n+1}'
        self.tags.append(t)
        return t

    def w(self, ind, s, tag=None):
        self.out.append('    ' * ind + s + (f' /*OB {tag} BO*/' if tag else ''))

    def sub(self, t, extra=None):
        tab = dict(self.names)
        if extra: tab.update(extra)
        return substitute(t, tab)

    def hint(self, ind, label, extra=None):
        h = self.spec.get('hints', {}).get(label)
        if h and label.split(':')[0] in ('return', 'decl') and not self.in_scope(h, extra): h = None
        if h:
            self.consumed_hints.add(label)
            txt = self.sub(h, extra).strip()
            for i, line in enumerate(txt.split('\n')):
                self.w(ind, line)
            # assertions inside hints are obligations too
            for m in re.finditer(r'\bassert\b', txt): self.tags.append(f'{self.fname}::hint {label}')

    def block(self, stmts, ind):
        self.scopes.append(set())
        for st in stmts: self.stmt(st, ind)
        self.scopes.pop()

    def in_scope(self, text, extra=None):
        for m in re.finditer(r'\$([A-Za-z_][A-Za-z_0-9]*)', text):
            if m.group(1) == 'retval':
                if not (extra or {}).get('retval'): return False
                continue
            if m.group(1) in ('exc', 'rng'): continue
            v = self.names.get(m.group(1))
            if v is None: return False
            if v in self.local_names and not any(v in s for s in self.scopes): return False
        return True

    def stmt(self, st, ind):
        k = st.k
        if k == 'let':
            init = st.e.s if st.e is not None else f'arbitrary::<{st.ty}>()'
            self.w(ind, f'let ghost mut {st.name}: {st.ty} = {init};')
            self.scopes[-1].add(st.name)
            for nm in self.inv_names.get(st.name, []): self.hint(ind, 'decl:' + nm)
        elif k == 'glet':
            self.w(ind, f'let ghost {st.name}: {st.ty} = {st.e.s};')
            self.scopes[-1].add(st.name)
        elif k == 'set':
            self.w(ind, f'proof {{ {st.name} = {st.e.s}; }}')
            for nm in self.inv_names.get(st.name, []): self.hint(ind, 'set:' + nm)
        elif k == 'assert':
            self.w(ind, f'assert({st.c});', self.tag(st.what))
        elif k == 'assume':
            self.w(ind, f'proof {{ assume({st.c}); }} // ASSUMED {st.what}')
        elif k == 'if':
            self.w(ind, f'if branch(Ghost({st.c})) {{')
            self.block(st.a, ind + 1)
            if st.b:
                self.w(ind, '} else {')
                self.block(st.b, ind + 1)
            self.w(ind, '}')
        elif k == 'call':
            self.w(ind, f'let {st.res} = {st.fn}({", ".join("Ghost(" + a + ")" for a in st.args)});', self.tag(f'precondition of {st.fn}'))
        elif k == 'return':
            self.nret += 1
            self.hint(ind, f'return:{self.nret}')
            self.hint(ind, 'return', {'retval': st.ret} if st.ret else None)
            self.w(ind, f'return Ghost({st.e.s});', self.tag('postcondition at return'))
        elif k == 'hint':
            for line in st.text.split('\n'): self.w(ind, line)
        elif k == 'mark':
            self.hint(ind, st.label)
        elif k == 'while':
            self.nloop += 1
            n = self.nloop
            ls = self.spec.get('loops', [])
            if n > len(ls): raise Unsupported(f'{self.fname}: loop {n} ({st.kind}) has no invariant in the contract')
            L = ls[n - 1]
            if 'kind' in L and L['kind'] != st.kind: raise Unsupported(f'{self.fname}: loop {n} is a {st.kind} loop, contract expects {L["kind"]}')
            extra = {'brk': st.lid.get('brk', 'false'), 'go': st.lid.get('go', 'true')}
            for key in ('it', 'seq'):
                if key in st.lid: extra[key] = st.lid[key]
            for key in list(extra): extra[f'{key}{n}'] = extra[key]
            self.names.update({k2: v for k2, v in extra.items() if k2[-1].isdigit()})
            self.block(st.pre, ind)
            self.hint(ind, f'loop{n}.before', extra)
            self.w(ind, f'while branch(Ghost(({st.cond})))')
            invs = [(self.sub(a, extra), 'auto') for a in st.auto] + [(self.sub(a, extra), 'inv') for a in L.get('inv', [])]
            if invs:
                self.w(ind + 1, 'invariant')
                for j, (iv, kd) in enumerate(invs):
                    if kd == 'auto': t = self.tag(f'loop{n} range')
                    else: t = self.tag(f'loop{n} invariant {j - len(st.auto) + 1}')
                    lines = iv.strip().split('\n')
                    self.w(ind + 2, '(' + ' '.join(x.strip() for x in lines) + '),', t)
            if 'inv_break' in L:
                pass
            stop = st.lid.get('stop', 'false')
            dec = L.get('dec') or (st.dec and (st.dec if stop == 'false' else f'if {stop} {{ 0int }} else {{ 1 + ({st.dec}) }}'))
            if not dec: raise Unsupported(f'{self.fname}: loop {n} has no termination measure')
            self.w(ind + 1, 'decreases ' + self.sub(dec, extra) + ',', self.tag(f'loop{n} termination'))
            self.w(ind, '{')
            self.hint(ind + 1, f'loop{n}.body', extra)
            self.block(st.body, ind + 1)
            self.hint(ind + 1, f'loop{n}.end', extra)
            self.w(ind, '}')
            self.hint(ind, f'loop{n}.after', extra)
        else:
            raise Unsupported('statement ' + k)
