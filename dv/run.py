"""Check runner: proof units (extraction + Verus) and the runtime contract check of one property."""
import concurrent.futures as cf
import hashlib, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
from .ir import Unsupported
from . import cxx, emit, prove

VERIF, REPO = cxx.VERIF, cxx.REPO
CXXLIBS = ['-lboost_log', '-lboost_thread', '-lboost_filesystem', '-lboost_system', '-lpthread']

def baseline_file(): return os.path.join(VERIF, 'dv', 'baseline.json')
def load_baseline():
    try: return json.load(open(baseline_file()))
    except FileNotFoundError: return {}

# ------------------------------------------------------------------ proof units
class Unit:
    def __init__(self, name, kind='cxx', tu='', contracts=None, prelude='', roots=(), prefetch=(), srcs=(), extra='', assumptions=(), module=None, build=None, files=(), structs=None):
        self.__dict__.update(locals())

def skeleton(mod):
    out = {}
    for f in mod.order:
        kinds = []
        def walk(ss):
            for s in ss:
                if s.k == 'if': walk(s.a); walk(s.b)
                elif s.k == 'while': kinds.append(s.kind); walk(s.body)
        walk(f.body)
        out[f.name] = {'loops': kinds, 'locals': sorted([n, t] for n, t in f.locals), 'params': [s[1] for s in f.sig]}
    out['__inlined__'] = sorted(mod.inlined)
    return out

def prefetched(name):
    try: return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prefetch.json'))).get(name, [])
    except (OSError, ValueError): return []

def build_unit(u, work):
    """extraction: /repo -> Verus text"""
    if u.build: mod = u.build(u, work)
    elif u.kind == 'py':
        from . import pyfe
        mod = pyfe.PyModule(u.files, u.contracts, u.structs)
        for r in u.roots:
            if mod.fn_named(r[0] if isinstance(r, tuple) else r) is None: raise Unsupported(f'no contract for {r}')
    else:
        tu = os.path.join(work, u.name + '_tu.cpp')
        open(tu, 'w').write(u.tu)
        mod = cxx.Module(tu, u.contracts)
        names = list(u.prefetch) or [r[0] for r in u.roots]
        mod.ast.prefetch(names + [n for n in prefetched(u.name) if n not in names])
        for r in u.roots:
            nds = [n for n in mod.ast.functions(r[0]) if len(r) < 2 or r[1](n)]
            if not nds: raise Unsupported(f'{r[0]} is not defined any more')
            for nd in nds:
                if mod.fn(nd) is None: raise Unsupported(f'no contract matches {r[0]} : {nd["type"]["qualType"][:200]}')
    if u.kind != 'py' and not u.build: mod.ast.close()
    full, probe, tags = emit.module_text(mod, u.prelude(mod) if callable(u.prelude) else u.prelude, u.extra)
    return mod, full, probe, tags

def run_unit(u, work, tier):
    t0 = time.time()
    res = {'unit': u.name, 'status': 'proved', 'functions': [], 'obligations': 0, 'discharged': 0, 'failed': [], 'why': '', 'smt_ms': 0, 'assumed': list(u.assumptions), 'inlined': [], 'dropped': []}
    try:
        mod, full, probe, tags = build_unit(u, work)
    except Unsupported as e:
        res.update(status='undecided', why='extraction: ' + str(e)); return res
    except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        import traceback
        res.update(status='undecided', why='extraction: ' + repr(e) + traceback.format_exc()[-600:]); return res
    f1, f2 = os.path.join(work, u.name + '.rs'), os.path.join(work, u.name + '_probe.rs')
    open(f1, 'w').write(full); open(f2, 'w').write(probe)
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(prove.run_verus, f1, 240, None, 4, None, True); b = ex.submit(prove.run_verus, f2, 240, None, 4)
        r, rp = a.result(), b.result()
    res['functions'] = [f.name for f in mod.order]
    res['inlined'], res['dropped'] = sorted(mod.inlined), sorted(mod.dropped)
    res['assumed'] += [m for m in re.findall(r'external_body\]\s*pub (?:proof )?fn (\w+)', full)] + ['ASSUMED ' + m for m in re.findall(r'// ASSUMED (.*)', full)]
    res['uninterpreted'] = sorted(set(re.findall(r'pub uninterp spec fn (\w+)', full)))
    res['skeleton'] = skeleton(mod)
    res['file'] = f1
    if not r['ok'] and r['nerr'] and not r['timeout']:
        # before an obligation is called failed: other search orders and more resources; each function is checked on its own, so one accepted in any run is proved
        bad = prove.failing_functions(f1, r)
        for seed, spin, rl in ((0, False, 60), (7, True, 30), (23, False, 30)):
            if not bad or time.time() - t0 > 330: break
            r2 = prove.run_verus(f1, 200, rl, 8, seed, spin)
            if r2['timeout'] or (not r2['ok'] and not r2['nerr']): continue
            bad &= set() if r2['ok'] else prove.failing_functions(f1, r2)
            res['retries'] = res.get('retries', 0) + 1
            r = r2
        if not bad: r = dict(r, ok=True, errors=[], nerr=0, verified=r['verified'] + r['nerr'])
    res['obligations'] = len(tags) + sum(1 for _ in re.findall(r'proof fn \w+', full)) - full.count('external_body]\npub proof fn')
    res['queries'] = r['verified'] + r['nerr']; res['smt_ms'] = r.get('smt_ms', 0)
    failed = []
    for e in r['errors']:
        tg = [t for t in e['tags']]
        if r['verified'] == 0 and not r['nerr']: break
        lab = next((t[2] for t in tg if 'ensures' in t[2]), None) or (tg[0][2] if tg else e['msg'])
        site = next((t[2] for t in tg if 'ensures' not in t[2]), '')
        if 'Some prover' in e['msg']: continue
        failed.append({'obligation': lab, 'at': site, 'message': e['msg'], 'output': e['rendered']})
    res['failed'] = failed
    nprobe = probe.count('/*OB PROBE')
    vac = [m for m in re.findall(r'/\*OB PROBE (\S+) BO\*/', probe) if not any(t[2] == 'PROBE ' + m for e in rp['errors'] for t in e['tags'])]
    res['probes'] = nprobe; res['probes_reachable'] = nprobe - len(vac)
    if tier == 'thorough' and r['ok'] and not vac:
        # the end of every function must be reachable behind its invariants, axioms and callee contracts
        f3 = os.path.join(work, u.name + '_exit.rs'); cur, L = None, []
        names = set(f.name for f in mod.order)
        for line in full.split('\n'):
            m = re.match(r'\s*pub fn (\w+)\(', line)
            if m: cur = m.group(1)
            if line.lstrip().startswith('return Ghost(') and cur in names: L.append(f'    assert(false); /*OB EXIT {cur} BO*/')
            L.append(line)
        open(f3, 'w').write('\n'.join(L)); r3 = prove.run_verus(f3, 300, None, 8, None, True)
        hit = set(t[2][5:] for e in r3['errors'] for t in e['tags'] if t[2].startswith('EXIT ')) | (prove.failing_functions(f3, r3) if r3['errors'] else set())
        res['exits'] = len(names); res['exits_reachable'] = len(names & hit)
        if not r3['timeout'] and r3['nerr']: vac = sorted(names - hit)
    if r['timeout']: res.update(status='undecided', why='verifier ran out of time')
    elif r['ok']:
        res['discharged'] = res['obligations']
        if vac and not rp['timeout']: res.update(status='undecided', why='precondition, invariant or axiom is contradictory (vacuous): ' + ', '.join(vac), discharged=0)
    elif not r['nerr']: res.update(status='undecided', why='verifier rejects the extracted text: ' + (r['errors'][0]['rendered'][:700] if r['errors'] else r['raw'][-1500:]))
    else:
        res['discharged'] = max(0, res['obligations'] - len(failed))
        res['status'] = 'failed'
        if any('rlimit' in f['message'] or 'Resource limit' in f['message'] for f in failed) and all('rlimit' in f['message'].lower() or 'resource limit' in f['message'].lower() for f in failed):
            res.update(status='undecided', why='solver resource limit')
    res['wall_s'] = round(time.time() - t0, 1)
    return res

# ------------------------------------------------------------------ runtime contract check
def pch_dir(): return os.environ.get('VERIF_PCH', os.path.join(VERIF, 'build'))

def build_driver(rt, work):
    """compile the C++ driver (and the sources of /repo it needs) -> path or error"""
    objs = []
    opt = rt.get('opt', '-O1')
    flags = ['-std=c++17', opt, '-w', '-DBOOST_LOG_DYN_LINK', '-I' + VERIF + '/mock', '-I' + REPO + '/include', '-I' + VERIF + '/rt'] + rt.get('flags', [])
    if rt.get('asan', True): flags += ['-fsanitize=address', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
    srcs = [os.path.join(VERIF, 'rt', rt['driver'])] + [os.path.join(REPO, 'src', s) for s in rt.get('srcs', [])]
    def cc(i, s):
        o = os.path.join(work, f'o{i}.o')
        p = subprocess.run(['clang++', *flags, '-c', s, '-o', o], capture_output=True, text=True)
        return o, p
    with cf.ThreadPoolExecutor(8) as ex:
        for o, p in ex.map(lambda t: cc(*t), enumerate(srcs)):
            if p.returncode: return None, p.stderr[-3000:]
            objs.append(o)
    exe = os.path.join(work, 'driver')
    p = subprocess.run(['clang++', *flags, *objs, '-o', exe, *CXXLIBS, *rt.get('libs', [])], capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-3000:]
    return exe, ''

def run_driver(rt, work, tier, seed):
    t0 = time.time()
    budget = rt.get('thorough', 240) if tier == 'thorough' else rt.get('quick', 25)
    cur = os.path.join(work, 'cur.txt')
    out = {'status': 'ok', 'evaluations': 0, 'distinct': 0, 'samples': [], 'what': '', 'input': ''}
    if rt['kind'] == 'cxx':
        exe, err = build_driver(rt, work)
        if exe is None:
            out.update(status='undecided', what='driver does not compile against the current tree: ' + err); return out
        cmd = [exe, '--seed', str(seed), '--budget', str(budget), '--cur', cur]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:handle_sigprof=0')
    else:
        exe = '/opt/vp/venv/bin/python'
        cmd = [exe, os.path.join(VERIF, 'rt', rt['driver']), '--seed', str(seed), '--budget', str(budget), '--cur', cur]
        env = dict(os.environ, PYTHONPATH=REPO + ':' + VERIF + '/rt', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    if rt.get('procs', 1) > 1 or True:
        procs = rt.get('procs', 4)
        ps = []
        for i in range(procs):
            c = list(cmd); c[c.index('--seed') + 1] = str(seed * 1000 + i); c[c.index('--cur') + 1] = cur + str(i)
            w = os.path.join(work, f'cwd{i}'); os.makedirs(w, exist_ok=True)
            ps.append((i, c, subprocess.Popen(c, stdout=open(os.path.join(work, f'out{i}'), 'w'), stderr=open(os.path.join(work, f'err{i}'), 'w'), env=env, cwd=w)))
    out['cmd'] = ' '.join(cmd)
    for i, c, p in ps:
        try: rc = p.wait(timeout=max(1, budget + 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = 'timeout'
        so = open(os.path.join(work, f'out{i}'), errors='replace').read(); se = open(os.path.join(work, f'err{i}'), errors='replace').read()
        for line in so.split('\n'):
            f = line.split('\t')
            if f[0] == 'OK': out['evaluations'] += int(f[1]); out['distinct'] += int(f[2])
            elif f[0] == 'SAMPLE' and len(out['samples']) < 3: out['samples'].append(f[1])
            elif f[0] == 'RULE': out['rule'] = f[1]
            elif f[0] == 'UNDECIDED' and out['status'] == 'ok': out.update(status='undecided', what=f[1])
            elif f[0] == 'FAIL' and out['status'] != 'violation':
                out.update(status='violation', what=f[1], input='\t'.join(f[2:]), seed=c[c.index('--seed') + 1])
        if out['status'] == 'ok' and rc != 0:
            inp = ''
            try: inp = open(cur + str(i), errors='replace').read()
            except OSError: pass
            if not inp:
                out.update(status='undecided', what=f'driver ended with {rc} before the first case: ' + se[-1500:])
            elif rc == 'timeout' and inp == '': pass
            else:
                why = {99: 'memory error (AddressSanitizer)', -27: 'call does not terminate', -11: 'segmentation fault', -6: 'abort', 'timeout': 'call does not terminate'}.get(rc, f'ended with status {rc}')
                out.update(status='violation', what=f'the real code crashed or hung: {why}', input=inp, seed=c[c.index('--seed') + 1], stderr=se[-3000:])
    out['wall_s'] = round(time.time() - t0, 1)
    return out

# ------------------------------------------------------------------ one property
def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            m = re.match(r'^finding: property=(\S+) (.*)$', l)
            if m and m.group(1) == pid: out.append(m.group(2))
    except FileNotFoundError: pass
    return out

def check(pid, tier, update_baseline=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = importlib.import_module('dv.spec.' + pid.lower())
    work = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    try:
        return _check(P, pid, tier, seed, work, t0, update_baseline)
    finally:
        if os.environ.get('VERIF_KEEP'): print('work kept in', work)
        else: shutil.rmtree(work, ignore_errors=True)

def _check(P, pid, tier, seed, work, t0, update_baseline):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rts = getattr(P, 'RUNTIME', [])
    rts = rts if isinstance(rts, list) else [rts]
    with cf.ThreadPoolExecutor(12) as ex:
        us = [ex.submit(run_unit, u, work, tier) for u in P.UNITS]
        ds = []
        for i, rt in enumerate(rts):
            w = os.path.join(work, f'rt{i}'); os.makedirs(w)
            ds.append(ex.submit(run_driver, rt, w, tier, seed))
        units = [u.result() for u in us]; drv = [d.result() for d in ds]
    base = load_baseline()
    if update_baseline:
        for u in units:
            if 'skeleton' in u: base[f'{pid}/{u["unit"]}'] = u['skeleton']
        json.dump(base, open(baseline_file(), 'w'), indent=0, sort_keys=True)
    lines, code, nviol = [], 0, 0
    replay = os.path.join(VERIF, 'evidence', f'replay-{pid}.json')
    viol = next((d for d in drv if d['status'] == 'violation'), None)
    failed = [dict(f, unit=u['unit']) for u in units if u['status'] == 'failed' for f in u['failed']]
    notes = []
    if viol:
        json.dump({'property': pid, 'what': viol['what'], 'input': viol['input'], 'seed': viol.get('seed'), 'driver': viol.get('cmd'), 'stderr': viol.get('stderr', ''),
                   'failed_obligations': failed}, open(replay, 'w'), indent=1)
        lines.append(f'VIOLATION property={pid} replay={replay}'); code = 1; nviol = 1
        print(f'{pid}: {viol["what"]}\n  input: {viol["input"][:1500]}')
        for f in failed[:6]: print(f'  failed obligation: {f["obligation"]} (at {f["at"]})')
    else:
        hard = []
        for u in units:
            if u['status'] != 'failed': continue
            b = base.get(f'{pid}/{u["unit"]}')
            if b == u['skeleton']: hard.append(u)
            else:
                u['status'] = 'undecided'; u['why'] = 'obligations fail, but loops or variables no longer match the annotated ones: ' + '; '.join(f['obligation'] for f in u['failed'][:5])
        if hard:
            json.dump({'property': pid, 'what': 'no failing input found; these obligations are no longer discharged', 'failed_obligations': failed, 'files': [u['file'] for u in hard]}, open(replay, 'w'), indent=1)
            for f in failed[:8]: print(f'{pid}: failed obligation {f["obligation"]} (at {f["at"]}): {f["message"]}')
            lines.append(f'VIOLATION property={pid} replay={replay} no-failing-input-found'); code = 1; nviol = 1
    for k in known_findings(pid): print(f'KNOWN-FINDING: property={pid} {k}')
    for u in units:
        if u['status'] == 'undecided': print(f'{pid}: unit {u["unit"]} not proved on this tree ({u["why"][:800]}); bounded runtime check stands in')
    for d in drv:
        if d['status'] == 'undecided': print(f'{pid}: runtime check undecided: {d["what"][:1200]}')
    ob = sum(u['obligations'] for u in units); di = sum(u['discharged'] for u in units if u['status'] in ('proved', 'failed'))
    asm = sorted(set(a for u in units for a in u['assumed'])) 
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'verus (Z3 back end) on the text extracted from /repo by dv/ (bin/check ' + pid + ')',
        'trusted_base': sorted(set(TRUSTED_COMMON + list(getattr(P, 'TRUSTED', [])) + ['axiom/external_body: ' + a for a in asm])),
        'functions_under_contract': [f'{u["unit"]}: {f}' for u in units for f in u['functions']],
        'back_end': 'verus 0.2026.09.13 + Z3', 'solver_ms': sum(u['smt_ms'] for u in units), 'verifier_queries': sum(u.get('queries', 0) for u in units),
        'vacuity_probes': sum(u.get('probes', 0) for u in units), 'vacuity_probes_reachable': sum(u.get('probes_reachable', 0) for u in units),
        **({'exit_probes': sum(u.get('exits', 0) for u in units), 'exit_probes_reachable': sum(u.get('exits_reachable', 0) for u in units)} if tier == 'thorough' else {}),
        'inlined_helpers': sorted(set(x for u in units for x in u['inlined'])), 'dropped_by_extraction': sorted(set(x for u in units for x in u['dropped'])),
        'uninterpreted': sorted(set(x for u in units for x in u.get('uninterpreted', []))),
        'units': [{k: u.get(k) for k in ('unit', 'status', 'why', 'obligations', 'discharged', 'wall_s')} for u in units],
        'bounded_functions': list(getattr(P, 'BOUNDED', [])),
        'evaluations': sum(d['evaluations'] for d in drv), 'distinct_nontrivial': sum(d['distinct'] for d in drv),
        'rule': '; '.join(r.get('rule', '') for r in rts) or 'runtime contract check', 'samples': [s for d in drv for s in d['samples']][:5] or ['none'],
        'runtime_status': [d['status'] for d in drv],
    }
    level = getattr(P, 'LEVEL', 'proof')
    if any(u['status'] == 'undecided' for u in units): level = 'other'; cov['explanation'] = 'the proof of ' + ', '.join(u['unit'] for u in units if u['status'] == 'undecided') + ' is undecided on this tree; the bounded run-time check stands in for it and is not counted as proved'
    elif level == 'other': cov['explanation'] = getattr(P, 'NOTE', 'mixed proof and bounded check')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(set(list(getattr(P, 'ASSUMPTIONS', [])) + ASSUME_COMMON)), 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1)
    print(f'{pid}: {di}/{ob} obligations discharged in {len(units)} unit(s) [{", ".join(u["unit"] + "=" + u["status"] for u in units)}]; runtime: {cov["evaluations"]} evaluations {cov["runtime_status"]}; {ev["wall_s"]} s')
    for l in lines: print(l)
    sys.stdout.flush()
    return code

TRUSTED_COMMON = ['dv/ extraction (source AST to Verus)', 'dv/prelude.rs library models', 'Verus and Z3', 'clang AST / Python ast']
ASSUME_COMMON = ['machine integers are treated as mathematical integers (signed-to-unsigned conversions and unsigned subtractions are obligations)',
                 'floating point is treated as exact real arithmetic', 'logging and message text are dropped']

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(check(pid, 'thorough' if tier == 'thorough' else 'quick', '--baseline' in sys.argv))
if __name__ == '__main__': main()
