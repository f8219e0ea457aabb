#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree by static analysis."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'analyzer'))
sys.setrecursionlimit(200000)
MODULES = ['access']
for _m in sorted(os.listdir(os.path.join(VERIF, 'analyzer', 'checks'))):
    if _m.endswith('.py') and _m[:-3] not in MODULES and not _m.startswith('_'):
        MODULES.append(_m[:-3])


def main():
    pid = sys.argv[1]
    dump = None
    if len(sys.argv) > 2 and sys.argv[2].startswith('--dump='):
        dump = sys.argv[2][7:]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.path.insert(0, os.path.join(VERIF, 'analyzer', 'checks'))
    fn = None
    for m in MODULES:
        mod = importlib.import_module(m)
        if pid in mod.CHECKS:
            fn = mod.CHECKS[pid]
            scope = getattr(mod, 'SCOPE', {}).get(pid, ['serum_dex'])
            break
    if fn is None:
        print('unknown property', pid)
        return 2
    import extract
    from spec import Spec, Dex, Prog, Missing, Unsupported
    nfiles = h = None
    try:
        progs = {}
        for crate in scope:
            d, h, nfiles = extract.extract('dex' if crate == 'serum_dex' else 'ws') if dump is None else (dump, 'x', 0)
            progs[crate] = Prog(os.path.join(d, crate + '.json'))
    except (extract.ExtractError, OSError) as x:
        print('cannot extract /repo: %s' % x)
        return 2
    sp = Spec(pid, Dex(progs[scope[0]]))
    sp.progs = progs
    sp.tier = tier
    try:
        fn(sp)
    except (Missing, Unsupported) as x:
        # fail closed: the obligation could not be discharged on this tree
        sp.fail('analysis', type(x).__name__, str(x) or traceback.format_exc()[-800:])
    except Exception as x:
        sp.fail('analysis', type(x).__name__, traceback.format_exc()[-800:])
    known = load_known(pid)
    out, kn = [], []
    for v in sp.viol:
        k = '%s | %s' % (v['rule'], v['where'])
        hit = [f for f in known if f['key'] == k and f.get('detail', '') in v['detail']]
        (kn if hit else out).append(v)
    for v in kn:
        print('KNOWN-FINDING: property=%s %s @ %s' % (pid, v['rule'], v['where']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    man = {c['property']: c for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']} if os.path.exists(os.path.join(VERIF, 'MANIFEST.json')) else {}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': man.get(pid, {}).get('level', 'other'),
          'coverage': {'explanation': 'static analysis of the type-checked program: fixpoint abstract interpretation of MIR; every obligation is evaluated on every abstract outcome',
                       'obligations': sp.n, 'discharged': sp.ok,
                       'rules': {k: {'instances': v[0], 'discharged': v[1]} for k, v in sorted(sp.rules.items())},
                       'units': sp.units, 'samples': sp.samples, 'source_files_hashed': nfiles, 'tree': h,
                       'notes': sp.notes},
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(out)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d violations, %.1f s' % (pid, sp.n, sp.ok, len(out), time.time() - t0))
    if out:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(out, f, indent=1)
        for v in out[:20]:
            print('  %s @ %s: %s' % (v['rule'], v['where'], v['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


ASSUME = ['Solana transaction atomicity: an instruction that returns an error or panics leaves no effect, so obligations are evaluated at successful outcomes',
          'distinct account positions refer to distinct account data (RefCell borrow checking refuses the overlap of mutable borrows)',
          'the models of solana_program, spl_token, bytemuck, core and alloc library functions in analyzer/models.py',
          'integer arithmetic is modelled over mathematical integers; overflow of unchecked release-mode arithmetic is outside this analysis']


def load_known(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('known', []) if f['property'] == pid]


if __name__ == '__main__':
    sys.exit(main())
