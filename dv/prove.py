"""Runs Verus on an emitted file and maps every error to the obligation it belongs to."""
import json, os, re, subprocess, tempfile, time

def failing_functions(path, r):
    """functions named by the errors of a run (an error without a place names all of them)"""
    at, cur = {}, None
    for i, line in enumerate(open(path).read().split('\n'), 1):
        m = re.match(r'\s*(?:pub )?(?:open |closed |uninterp )?(?:proof |spec |exec )?fn (\w+)', line)
        if m: cur = m.group(1)
        at[i] = cur
    out = set()
    for e in r['errors']:
        if not e['lines']: return set(at.values())
        out |= {at.get(l) for l in e['lines']}
    return out or set(at.values())

def run_verus(path, timeout=300, rlimit=None, threads=8, seed=None, spinoff=False):
    cmd = ['verus', '--output-json', '--time', '--error-format=json', '--num-threads', str(threads), '--multiple-errors', '3', path]
    if rlimit: cmd += ['--rlimit', str(rlimit)]
    if spinoff: cmd += ['-V', 'spinoff-all']      # one solver per function: what one function needs does not disturb another
    if seed: cmd += ['--smt-option', f'smt.random_seed={seed}', '--smt-option', f'sat.random_seed={seed}']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'ok': False, 'timeout': True, 'errors': [], 'verified': 0, 'nerr': 0, 'wall': time.time() - t0, 'raw': 'timeout'}
    wall = time.time() - t0
    res = {'ok': False, 'timeout': False, 'errors': [], 'wall': wall, 'raw': (p.stderr + p.stdout)[-20000:], 'verified': 0, 'nerr': 0, 'smt_ms': 0}
    try:
        j = json.loads(p.stdout[p.stdout.index('{'):])
        vr = j['verification-results']
        res['verified'], res['nerr'] = vr.get('verified', 0), vr.get('errors', 0)
        res['ok'] = vr.get('success', False) and vr.get('errors', 0) == 0
        res['encountered_vir_error'] = vr.get('encountered-vir-error', False)
        tm = j.get('times-ms', {})
        res['smt_ms'] = tm.get('smt', {}).get('total', 0) if isinstance(tm.get('smt'), dict) else 0
    except Exception as e:
        res['parse'] = str(e)
    src = open(path).read().split('\n')
    for line in p.stderr.split('\n'):
        line = line.strip()
        if not line.startswith('{'): continue
        try: d = json.loads(line)
        except Exception: continue
        if d.get('level') != 'error': continue
        msg = d.get('message', '')
        if msg.startswith('aborting due'): continue
        tags = []
        lines = []
        for sp in d.get('spans', []):
            lines.append(sp['line_start'])
            # the tag is the first OB comment at or after the span's start line within the same construct
            for ln in range(sp['line_start'] - 1, min(sp['line_end'] + 1, len(src))):
                m = re.search(r'/\*OB (.*?) BO\*/', src[ln])
                if m: tags.append((sp.get('is_primary'), sp.get('label') or '', m.group(1))); break
        res['errors'].append({'msg': msg, 'tags': tags, 'lines': lines, 'rendered': (d.get('rendered') or '')[:3000]})
    return res
