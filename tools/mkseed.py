#!/usr/bin/env python3
"""mkseed.py <id>...: builds /verif/seeded/<id> from tools/seeds.py and confirms it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
WT = '/tmp/wt'


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    if not os.path.exists(WT):
        subprocess.check_call(['cp', '-a', '/repo', WT])
    world = open(os.path.join(V, 'tools/demo/world.rs')).read()
    for s in SEEDS:
        if s['id'] not in sys.argv[1:]:
            continue
        subprocess.check_call('git checkout -q -- . && git clean -fdq', shell=True, cwd=WT)
        for f, old, new in s['edits']:
            p = os.path.join(WT, f)
            t = open(p).read()
            n = s.get('count', 1)
            assert t.count(old) == n, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', 'diff'], cwd=WT, text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if 'custom' in s:
            for n, c in s['custom'].items():
                open(os.path.join(d, n), 'w').write(c)
        else:
            open(os.path.join(d, 'demo.rs'), 'w').write(world.replace('//BODY', s['body']))
            shutil.copy(os.path.join(V, 'tools/demo/run.sh'), os.path.join(d, 'demo.sh'))
        rc, out = sh('cd dex && cargo test --offline --lib 2>&1 | tail -40', WT)
        ok = 'test result: ok' in out
        print(s['id'], 'tests', 'PASS' if ok else 'FAIL')
        if not ok:
            print(out[-3000:])
        if s.get('ws'):
            rc, out = sh('cargo test --workspace --offline 2>&1 | grep -E "^test |error|FAILED" | tail -30', WT)
            print('  ws', out[-800:])
        rc, out = sh('bash %s/demo.sh' % d, WT)
        print('  demo with patch rc=%d' % rc, '' if rc else 'NOT FAILING', '\n   '.join(out.splitlines()[:6]))
        rc2, out2 = sh('bash %s/demo.sh' % d, '/repo')
        print('  demo without rc=%d' % rc2, '' if not rc2 else 'FAILING ' + out2[:600])
        subprocess.check_call('git checkout -q -- .', shell=True, cwd=WT)


main()
