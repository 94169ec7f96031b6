"""Prints a translated module (a list of FnTr) with its contracts as one Verus file."""
import re
from .ir import *
from . import cxx

KEYWORDS = ()

def resolve_names(f, c):
    """table for $name in the contract: parameters by position, locals by name, then by type
    and order of declaration"""
    t = {}
    want = c.get('params')
    pn = [s[0] for s in f.sig] if c.get('full_sig') else f.pnames
    if want:
        if len(want) != len(pn): raise Unsupported(f'{f.name}: {len(pn)} parameters, contract knows {len(want)}')
        for w, p in zip(want, pn): t[w] = p
    else:
        for p in pn: t[p] = p
    for s in f.sig:
        if s[0] not in pn: t[s[0]] = s[0]
    names = [n for n, ty in f.locals]
    decl = c.get('locals', [])
    taken = set()
    miss = []
    for d in decl:
        n, ty = d if isinstance(d, tuple) else (d, None)
        if n in names and n not in t: t[n] = n; taken.add(n)
        else: miss.append((n, ty))
    declnames = {d[0] if isinstance(d, tuple) else d for d in decl}
    for n, ty in miss:
        for ln, lty in f.locals:
            if ln not in taken and ln not in declnames and (ty is None or lty == ty):
                t[n] = ln; taken.add(ln); f.renamed = True; break
    for n, ty in f.locals: t.setdefault(n, n)
    return t

def fn_text(f, c, rename=None):
    base = resolve_names(f, c)
    sigt, bodyt = {}, {}
    for k, v in base.items():
        if any(s[0] == v for s in f.sig): sigt[k] = v + '_in'; bodyt[k] = v; bodyt['in_' + k] = v + '_in'
        else: bodyt[k] = v
    outs = {n: i + 2 for i, (n, ty) in enumerate(f.outs)}
    def sg(text):
        def o(m):
            v = base.get(m.group(1))
            if v is None: raise Unsupported(f'{f.name}: contract refers to $out({m.group(1)})')
            return f'r@.{outs[v]}' if v in outs else v + '_in'
        text = re.sub(r'\$out\((\w+)\)', o, text)
        return substitute(text, dict(sigt, ret='r@.1', exc='r@.0'))
    p = Printer(f.name, c, bodyt, f.rty)
    p.local_names = {n for n, t in f.locals}
    for k, v in bodyt.items(): p.inv_names.setdefault(v, []).append(k)
    def bodyout(text): return re.sub(r'\$out\((\w+)\)', lambda m: base[m.group(1)], text)
    L = []
    if c.get('attrs'): L.append(c['attrs'])
    L.append('#[verifier::loop_isolation(false)]')
    L.append(f'pub fn {f.name}(' + ', '.join(f'Ghost({n}_in): Ghost<{cxx.vty(ty)}>' for n, ty, b, ct in f.sig) + f') -> (r: Ghost<{f.result_type()}>)')
    req = c.get('requires', []); ens = c.get('ensures', [])
    if req:
        L.append('    requires')
        for x in req: L.append('        (' + ' '.join(sg(x).split()) + '),')
    L.append('    ensures')
    tags = []
    for x in ens:
        lab = None
        if isinstance(x, tuple): lab, x = x
        tg = f'{f.name}::ensures {lab or len(tags)+1}'
        tags.append(tg)
        L.append('        (' + ' '.join(sg(x).split()) + f'), /*OB {tg} BO*/')
    if not f.raises: L.append('        r@.0 == 0,')
    if c.get('decreases'): L.append('    decreases ' + sg(c['decreases']) + f', /*OB {f.name}::termination of recursion BO*/'); tags.append(f'{f.name}::termination of recursion')
    L.append('{')
    for n, ty, b, ct in f.sig:
        mut = n in f.mutated
        L.append(f'    let ghost {"mut " if mut else ""}{n}: {cxx.vty(ty)} = {n}_in;')
    p.hint(1, 'entry')
    p.block(f.body, 1)
    body = p.out
    # vacuity probe
    probe = list(L) + ['    assert(false); /*OB PROBE ' + f.name + ' BO*/', '    return Ghost(arbitrary());', '}']
    unused = [h for h in c.get('hints', {}) if h not in p.consumed_hints]
    f.unused_hints = unused
    if p.nloop != len(c.get('loops', [])): raise Unsupported(f'{f.name}: {p.nloop} loops in the source, {len(c.get("loops", []))} in the contract')
    probe = [re.sub(r'pub fn (\w+)\(', r'pub fn \1__probe(', x, count=1) for x in probe]
    probe = [re.sub(r'/\*OB \S+::ensures.*?BO\*/', '', x) for x in probe]
    return L + body + ['}'], tags + p.tags, probe

def struct_text(mod):
    out = []
    for n, fs in mod.types.structs.items():
        if fs is None: continue
        out.append(f'pub struct {n} {{ ' + ', '.join(f'pub {a}: {cxx.vty(t)}' for a, t in fs) + ' }')
    return out

def consts(text):
    """uninterpreted constants used by the text: exception codes, strings, enums, globals"""
    out = []
    ex = sorted(set(re.findall(r'\bEXC_\w+(?=\(\))', text)))
    for i, e in enumerate(ex): out.append(f'pub open spec fn {e}() -> int {{ {i + 1} }}')
    for e in sorted(set(re.findall(r"\bstr_[0-9a-f]{8}(?=\(\))", text))): out.append(f"pub open spec fn {e}() -> int {{ {int(e[4:], 16)}int }}")   # string constants: distinct numbers
    return out

def module_text(mod, spec_prelude='', extra=''):
    prelude = open(cxx.VERIF + '/dv/prelude.rs').read()
    fns, tags, probes = [], [], []
    for f in mod.order:
        t, tg, pr = fn_text(f, f.c)
        fns += t + ['']; tags += tg; probes += pr + ['']
    body = '\n'.join(struct_text(mod)) + '\n' + spec_prelude + '\n' + '\n'.join(fns)
    cs = consts(body)
    head = '#![allow(unused_imports, unused_variables, unused_mut, non_snake_case, dead_code, unused_assignments)]\n'
    text = head + prelude + '\nverus! {\n' + '\n'.join(cs) + '\n' + body + '\n' + extra + '\n'
    full = text + '\n}\nfn main() {}\n'
    probe = text + '\n'.join(probes) + '\n}\nfn main() {}\n'
    return full, probe, tags
