"""Storing and reading results (Python, json) and solver summaries (C++, yaml)."""
import ast
from ..run import Unit
from ..ir import *
from ..cxx import str_const, LV, vty
K = str_const
PRELUDE = r'''
pub type Json = int; pub type Any = int; pub type Path = int; pub type FileW = int; pub type FileR = int;
// a file holds the sequence of texts written since it was last truncated
pub type Fs = Map<int, Seq<int>>;
pub uninterp spec fn dir_exists(p: int) -> bool;
pub uninterp spec fn path_join(d: int, f: int) -> int;
pub uninterp spec fn str_of(x: int) -> int;
pub uninterp spec fn str_cat(a: int, b: int) -> int;
pub uninterp spec fn json_text(v: int) -> int;
pub uninterp spec fn json_value(t: int) -> int;
pub uninterp spec fn result_json(r: Result) -> int;     // model_dump_json
pub uninterp spec fn result_of(v: int) -> Result;       // Result(**v)
// trusted: json and pydantic round trips (checked on concrete values at run time)
#[verifier::external_body] pub proof fn axiom_json(v: int) ensures json_value(json_text(v)) == v { }
#[verifier::external_body] pub proof fn axiom_result(r: Result) ensures result_of(json_value(result_json(r))) == r { }
pub open spec fn result_path(dir: int, id: int) -> int { path_join(dir, str_cat(str_of(id), ''' + K('.json') + r''')) }
pub open spec fn stored(fs: Fs, dir: int, r: Result) -> bool { let p = result_path(dir, r.vial_uuid); fs.dom().contains(p) && fs[p] == seq![json_text(json_value(result_json(r)))] }
'''
TAIL = r'''
// reading a directory into which the result was written gives back that result
pub proof fn lemma_round_trip(fs: Fs, dir: int, r: Result)
    requires stored(fs, dir, r)
    ensures /*OB lemma: what was written is what is read BO*/ result_of(json_value(fs[result_path(dir, r.vial_uuid)][0])) == r
{ axiom_json(json_value(result_json(r))); axiom_result(r); }
'''
def fs(self): v = self.ctx.env.get('ghost fs'); return LV(v.name, 'Map<Path, Seq<Str>>')
def h_open(self, n):
    a = self.args(n, ['file', 'mode', 'buffering', 'encoding'])
    if set(a) - {'file', 'mode', 'encoding'}: raise Unsupported('open')
    p = self.ex(a['file']); m = a.get('mode')
    m = m.value if isinstance(m, ast.Constant) else 'r' if m is None else None
    if p.ty != 'Path' or m not in ('r', 'w'): raise Unsupported('open mode')
    l = fs(self); t = self.tmp(p.s, 'Path', base='file')
    if m == 'r':
        self.ob(f'{l.read()}.dom().contains({t})', 'the file that is read exists'); return E(t, 'FileR')
    self.write(l, f'{l.read()}.insert({t}, Seq::empty())'); return E(t, 'FileW')
def h_dump(self, n, want):
    kw = {k.arg for k in n.keywords}
    if kw - {'indent', 'sort_keys', 'separators'}: raise Unsupported('json.dump options')
    v, f = self.ex(n.args[0]), self.ex(n.args[1])
    if v.ty != 'Any' or f.ty != 'FileW': raise Unsupported('json.dump')
    l = fs(self); self.write(l, f'{l.read()}.insert({f.s}, {l.read()}[{f.s}].push(json_text({v.s})))'); return E('0int', 'unit')
def h_load(self, n, want):
    f = self.one(n)
    if f.ty != 'FileR': raise Unsupported('json.load')
    l = fs(self); self.ob(f'{l.read()}[{f.s}].len() == 1', 'the file holds one text'); return E(f'json_value({l.read()}[{f.s}][0])', 'Any')
def h_loads(self, n, want):
    v = self.one(n)
    if v.ty != 'Json': raise Unsupported('json.loads')
    return E(f'json_value({v.s})', 'Any')
def h_write(self, o, n):
    v = self.one(n); l = fs(self)
    if v.ty != 'Json': raise Unsupported('write')
    self.write(l, f'{l.read()}.insert({o.s}, {l.read()}[{o.s}].push({v.s}))'); return E('0int', 'unit')
def h_cls(self, n, want):
    if n.args or len(n.keywords) != 1 or n.keywords[0].arg is not None: raise Unsupported('cls(...)')
    v = self.ex(n.keywords[0].value)
    if v.ty != 'Any': raise Unsupported('cls(...)')
    return E(f'result_of({v.s})', 'Result')
def h_str(self, n, want):
    v = self.one(n)
    if v.ty not in ('Str', 'int'): raise Unsupported('str of ' + v.ty)
    return E(f'str_of({v.s})', 'Str')
def h_join(self, a, b):
    if b.ty not in ('Str', 'Path'): raise Unsupported('path / ' + b.ty)
    return E(f'path_join({a.s}, {b.s})', 'Path')
def plain(name, o, n):
    if n.args or n.keywords: raise Unsupported(name + ' with options')
C = {'__py__': {('with', 'open'): h_open, ('call', 'json.dump'): h_dump, ('call', 'json.load'): h_load, ('call', 'json.loads'): h_loads, ('call', 'cls'): h_cls, ('call', 'str'): h_str, ('call', 'Result'): h_cls,
    ('binop', ('Div', 'Path')): h_join, ('binop', ('Add', 'Str')): lambda self, a, b: E(f'str_cat({a.s}, {b.s})', 'Str') if b.ty == 'Str' else (_ for _ in ()).throw(Unsupported('+')),
    ('method', ('Path', 'exists')): lambda self, o, n: plain('exists', o, n) or E(f'dir_exists({o.s})', 'bool'), ('method', ('Path', 'is_dir')): lambda self, o, n: plain('is_dir', o, n) or E(f'dir_exists({o.s})', 'bool'),
    ('method', ('Result', 'model_dump_json')): lambda self, o, n: plain('model_dump_json', o, n) or E(f'result_json({o.s})', 'Json')}}
FS = 'Map<Path, Seq<Str>>'
C['Result.write_to_json_file'] = dict(types=['Result', 'Path'], params=['r', 'd', 'fs'], ghosts=[('fs', FS)], mutates=['fs'], returns='Path', raises=True,
    ensures=[('a missing directory is reported', '$exc != 0 <==> !dir_exists($d)'), ('reported as FileNotFoundError', '$exc != 0 ==> $exc == EXC_FileNotFoundError()'), ('nothing is written when it is missing', '$exc != 0 ==> $out(fs) == $fs'),
             ('the file named by the unit holds the whole result', '$exc == 0 ==> stored($out(fs), $d, $r) && $ret == result_path($d, $r.vial_uuid)'),
             ('no other file changes', '$exc == 0 ==> $out(fs) =~= $fs.insert($ret, $out(fs)[$ret])')],
    hints={'entry': 'proof { axiom_json(json_value(result_json($r))); }'})
C['Result.read_from_json_file'] = dict(types=['int', 'Path', 'Str'], params=['cls', 'd', 'id', 'fs'], ghosts=[('fs', FS)], mutates=['fs'], returns='Result', raises=True,
    requires=['dir_exists($d) ==> $fs.dom().contains(result_path($d, $id)) && $fs[result_path($d, $id)].len() == 1'],
    ensures=[('a missing directory is reported', '$exc != 0 <==> !dir_exists($d)'), ('reported as FileNotFoundError', '$exc != 0 ==> $exc == EXC_FileNotFoundError()'), ('the result is the one stored under that name', '$exc == 0 ==> $ret == result_of(json_value($fs[result_path($d, $id)][0]))'), ('no file changes', '$out(fs) == $fs')])
UNITS = [Unit('result_json', kind='py', files=['pctsp/vial/result.py'], contracts=C, prelude=PRELUDE + TAIL, roots=['Result.write_to_json_file', 'Result.read_from_json_file'])]
RUNTIME = [dict(kind='py', driver='c28.py', procs=2, rule='random results (identifiers, negative and large numbers, edge lists, naive and zoned times) written to and read from a scratch directory, several results per directory; missing directories'),
           dict(kind='cxx', driver='c28.cpp', procs=2, srcs=['stats.cpp'], libs=['-lyaml-cpp'], rule='random solver summaries and node statistics written to and read from a scratch directory with the real yaml-cpp; missing files')]
ASSUMPTIONS = ['json.load inverts json.dump on json values, Result(**json) inverts model_dump_json (checked at run time on random values)', 'a file opened for writing is truncated and holds what is written']
BOUNDED = ['stats.cpp (yaml-cpp and std::ofstream): bounded run-time check only']
