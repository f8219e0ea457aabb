#!/usr/bin/env python3
"""mut.py [-j N] [-a] name...|all|bugs|oks: applies each edit of tools/mutants.py in a scratch copy, extracts, runs the checks.
   -a: run every check (default for 'ok' edits); bugs run only the checks named unless -a"""
import json, os, shutil, subprocess, sys, time, re
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from mutants import MUTANTS
from seeds import SEEDS
MUTANTS = MUTANTS + [{'name': 'seed-' + s['id'], 'kind': 'bug', 'props': [s['prop']], 'edits': s['edits']} for s in SEEDS]
args = sys.argv[1:]
J = 4
BASE = int(os.environ.get('MUT_BASE', '0'))
ALL = False
if '-j' in args:
    i = args.index('-j'); J = int(args[i + 1]); del args[i:i + 2]
ONLY = []
if '-o' in args:
    i = args.index('-o'); ONLY = args[i + 1].split(','); del args[i:i + 2]
NORUN = '-n' in args
if NORUN:
    args.remove('-n')
if '-a' in args:
    args.remove('-a'); ALL = True
sel = [m for m in MUTANTS if m['name'] in args or 'all' in args or (m['kind'] == 'bug' and 'bugs' in args) or (m['kind'] == 'ok' and 'oks' in args)
       or any(a.endswith('*') and m['name'].startswith(a[:-1]) for a in args)]
slots = queue.Queue()
for k in range(J):
    slots.put(k)


def prep(k):
    b = '/tmp/mb/%d' % (k + BASE)
    if not os.path.exists(b):
        os.makedirs('/tmp/mb', exist_ok=True)
        subprocess.check_call(['cp', '-a', os.path.join(V, '.build'), b])
    w = '/tmp/mw/%d' % (k + BASE)
    os.makedirs(w, exist_ok=True)
    subprocess.check_call('rsync -a --delete --exclude target --exclude .git /repo/ %s/ 2>/dev/null || (rm -rf /tmp/mw/%d && mkdir -p %s && cd /repo && git ls-files -z | cpio -0pdm --quiet %s)' % (w, k + BASE, w, w), shell=True)
    return w, b


def one(m):
    k = slots.get()
    try:
        w, b = prep(k)
        for f, old, new in m['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            n = m.get('count', 1)
            if (t.count(old) != n) if n else t.count(old) == 0:
                return m, 'BAD EDIT %s: %d occurrences' % (f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=b)
        scope = m.get('scope', 'dex')
        p = subprocess.run([sys.executable, os.path.join(V, 'analyzer/extract.py'), scope], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return m, 'EXTRACT FAILED ' + '\n'.join(l for l in p.stdout.splitlines() if l.startswith('error'))[:600] + p.stdout[-300:]
        d = eval(p.stdout.strip().splitlines()[-1])[0]
        ids = ONLY if ONLY else [] if (ALL or m['kind'] == 'ok') else m['props']
        md = '/tmp/md/' + m['name']
        os.makedirs(md, exist_ok=True)
        for q in os.listdir(d):
            if q.endswith('.json'):
                shutil.copy(os.path.join(d, q), md)
        if NORUN:
            return m, 'dumped ' + md
        t0 = time.time()
        p = subprocess.run([sys.executable, os.path.join(V, 'tools/checkall.py'), d] + ids, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.makedirs('/tmp/mo', exist_ok=True)
        open('/tmp/mo/%s.txt' % m['name'], 'w').write(p.stdout)
        bad = re.findall(r'^(C\d+) \d+ ([1-9]\d*) ', p.stdout, re.M)
        crash = 'CRASH' in p.stdout or p.returncode
        analysis = re.findall(r'^    analysis.*', p.stdout, re.M)
        if m['kind'] == 'ok':
            r = 'quiet' if not bad and not crash else 'FALSE ALARM ' + ' '.join(x for x, _ in bad)
        else:
            r = 'caught ' + ' '.join('%s(%s)' % x for x in bad) if bad else 'MISSED'
            if bad and not any(x in m['props'] for x, _ in bad):
                r += ' BUT NOT BY ' + ','.join(m['props'])
        if crash:
            r += ' CRASH'
        if analysis:
            r += ' [analysis: %s]' % analysis[0][:120]
        return m, r + ' %ds' % (time.time() - t0)
    except Exception as x:
        return m, 'ERR %r' % x
    finally:
        slots.put(k)


with ThreadPoolExecutor(J) as ex:
    for m, r in ex.map(one, sel):
        print('%-4s %-34s %-12s %s' % (m['kind'], m['name'], ','.join(m.get('props', [])), r), flush=True)
