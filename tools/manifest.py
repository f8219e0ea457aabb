#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the implemented checks"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'analyzer'), os.path.join(V, 'analyzer', 'checks')]
from na import NA
CH = {}
for m in sorted(os.listdir(os.path.join(V, 'analyzer', 'checks'))):
    if m.endswith('.py'):
        mod = importlib.import_module(m[:-3])
        for k in getattr(mod, 'CHECKS', {}):
            CH[k] = mod
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CH and i not in NA:
        t = getattr(CH[i], 'TECHNIQUE', {}).get(i, 'abstract interpretation of MIR: per-path symbolic effect summaries checked against a declarative specification')
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                       'technique': t, 'level': 'other',
                       'level_note': getattr(CH[i], 'NOTE', {}).get(i, 'Static analysis over all paths of the type-checked program (MIR); loops by fixpoint, library functions by models; integers are mathematical (release-mode wrap-around outside the analysis). Sound up to those models and the listed assumptions; nothing is executed.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 analyzer/extract.py all', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks read /repo through a rustc driver (driver/vdump.rs) built by setup_cmd or on first use; no hooks in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
