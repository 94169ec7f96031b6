"""Writes MANIFEST.json from the spec modules present in dv/spec."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {'C27': 'the optimality claim is decided by SCIP and an exact solver; SCIP is not installed here, its search is outside any contract a verifier could discharge, and assuming a contract for it would assume the property itself'}
checks, na = [], []
for i in ids:
    f = f'{V}/dv/spec/{i.lower()}.py'
    if not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')}); continue
    P = importlib.import_module('dv.spec.' + i.lower()); lvl = getattr(P, 'LEVEL', 'proof')
    tech = getattr(P, 'TECHNIQUE', 'contracts on the extracted source discharged by Verus (Z3), with the same contracts checked at run time on the real code')
    note = getattr(P, 'NOTE', 'Every obligation of the functions under contract is discharged for all inputs on the text extracted from the current tree; trusts the extraction, the library models in dv/prelude.rs and Verus/Z3; integers and reals are mathematical. The run-time check of the same contracts is bounded.')
    asm = list(getattr(P, 'ASSUMPTIONS', []))
    checks.append({'property': i, 'quick_cmd': f'bin/check {i} quick', 'thorough_cmd': f'bin/check {i} thorough', 'technique': tech, 'level': lvl,
                   'level_note': note + (' Assumes: ' + '; '.join(asm) + '.' if asm else ''),
                   })
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo: all specifications are in sidecar files (dv/spec) attached to the text extracted from /repo on every run.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
