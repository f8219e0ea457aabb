#!/usr/bin/env python3
"""checkall.py <dumpdir> [ids]: runs checks in one process on an extracted tree (development aid; shares summaries between checks)"""
import importlib, os, sys, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'analyzer'), os.path.join(V, 'analyzer', 'checks')]
sys.setrecursionlimit(200000)
from spec import Spec, Dex, Prog, Missing, Unsupported


def run(dump, ids=None):
    CH, SC = {}, {}
    for m in sorted(os.listdir(os.path.join(V, 'analyzer', 'checks'))):
        if m.endswith('.py'):
            mod = importlib.import_module(m[:-3])
            for k, f in mod.CHECKS.items():
                CH[k] = f
                SC[k] = getattr(mod, 'SCOPE', {}).get(k, ['serum_dex'])
    dexs = {}
    res = {}
    for k in sorted(CH):
        if ids and k not in ids:
            continue
        try:
            for c in SC[k]:
                if c not in dexs:
                    dexs[c] = Dex(Prog(os.path.join(dump, c + '.json')))
        except OSError:
            continue
        sp = Spec(k, dexs[SC[k][0]])
        sp.progs = {c: dexs[c].prog if hasattr(dexs[c], 'prog') else dexs[c].p for c in SC[k]}
        sp.tier = 'quick'
        t = time.time()
        try:
            CH[k](sp)
        except (Missing, Unsupported) as x:
            sp.fail('analysis', type(x).__name__, str(x)[:300] or traceback.format_exc()[-800:])
        except Exception as x:
            sp.fail('CRASH', type(x).__name__, traceback.format_exc()[-250:])
        res[k] = (sp.n, [(v['rule'], v['where'], v['detail'][:300]) for v in sp.viol], round(time.time() - t, 1))
    return res


if __name__ == '__main__':
    r = run(sys.argv[1], set(sys.argv[2:]))
    for k, (n, v, t) in r.items():
        print(k, n, len(v), '%ss' % t)
        for x in v[:4]:
            print('   ', ' @ '.join(x[:2]), ':', x[2][:200])
