#!/usr/bin/env python3
"""dv/prefetch.json: per unit, the declarations its extraction asks clang for (only to ask for them in parallel; anything else is asked for when needed)."""
import sys, os, json, tempfile, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from dv import run
F = os.path.join(ROOT, 'dv', 'prefetch.json'); P = json.load(open(F)) if os.path.exists(F) else {}
only = sys.argv[1:]
for s in sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'dv/spec')) if f[0] == 'c' and f[1:3].isdigit()):
    if only and s not in only: continue
    for u in importlib.import_module('dv.spec.' + s).UNITS:
        if u.kind == 'py' or u.build: continue
        with tempfile.TemporaryDirectory() as w:
            mod = run.build_unit(u, w)[0]; P[u.name] = sorted(mod.ast.cache); print(s, u.name, len(mod.ast.cache), flush=True)
json.dump(P, open(F, 'w'), indent=0, sort_keys=True); open(F, 'a').write('\n')
