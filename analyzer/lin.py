"""Conjunctions of linear integer constraints over terms (a small polyhedra domain): entailment by
Fourier-Motzkin elimination with integer tightening; disequalities are handled by case split."""
from math import gcd
from terms import *


def strip(t):
    while t.op in ('zext',) and isinstance(t.a[0], V):
        t = t.a[0]
    return t


def linear(t):
    """term -> ({atom: coef}, const); non-linear subterms are atoms"""
    t = strip(t)
    if t.op == 'int':
        return {}, t.a[0]
    if t.op == 'poly':
        co, k = {}, 0
        for m, c in t.a[0]:
            if len(m) == 0:
                k += c
            elif len(m) == 1:
                q, kk = linear(m[0]) if m[0].op == 'zext' else ({m[0]: 1}, 0)
                for a, b in q.items():
                    co[a] = co.get(a, 0) + b * c
                k += kk * c
            else:
                a = mk('mono', m)
                co[a] = co.get(a, 0) + c
        return {a: b for a, b in co.items() if b}, k
    return {t: 1}, 0


def lsub(a, b, k=0):
    co = dict(a[0])
    for x, c in b[0].items():
        co[x] = co.get(x, 0) - c
    return {x: c for x, c in co.items() if c}, a[1] - b[1] + k


def tight(c):
    co, k = c
    g = 0
    for v in co.values():
        g = gcd(g, abs(v))
    if g > 1:
        return {a: b // g for a, b in co.items()}, k // g
    return co, k


def infeasible(cs, limit=400):
    """no integer point satisfies all (co . x + k >= 0)"""
    cs = [tight(c) for c in cs]
    while True:
        seen, out = {}, []
        for co, k in cs:
            if not co:
                if k < 0:
                    return True
                continue
            key = frozenset(co.items())
            if key not in seen or seen[key] > k:
                seen[key] = k
        cs = [(dict(a), k) for a, k in seen.items()]
        if not cs:
            return False
        vs = {}
        for co, _ in cs:
            for v, c in co.items():
                p, n = vs.get(v, (0, 0))
                vs[v] = (p + (c > 0), n + (c < 0))
        v = min(vs, key=lambda x: vs[x][0] * vs[x][1])
        P = [c for c in cs if c[0].get(v, 0) > 0]
        N = [c for c in cs if c[0].get(v, 0) < 0]
        R = [c for c in cs if v not in c[0]]
        for p in P:
            for n in N:
                a, b = p[0][v], -n[0][v]
                co = {}
                for x, c in p[0].items():
                    co[x] = co.get(x, 0) + c * b
                for x, c in n[0].items():
                    co[x] = co.get(x, 0) + c * a
                R.append(tight(({x: c for x, c in co.items() if c}, p[1] * b + n[1] * a)))
        if len(R) > limit:
            return False
        cs = R


class Lin:
    """the linear consequences of the facts of an abstract state; unsigned atoms are >= 0"""

    def __init__(self, facts, extra=(), unsigned=True):
        self.cs = list(extra)
        self.ne = []
        atoms = set()
        for f, (k, s) in facts.items():
            self.fact(f, k, s)
        for co, _ in self.cs + self.ne:
            atoms |= set(co)
        self.unsigned = unsigned
        self.rems = set()

    def fact(self, f, k, s):
        if f.op == 'not' and all(v in (0, 1) for v in s):
            return self.fact(f.a[0], k, frozenset(1 - v for v in s))
        if f.op == 'lt' and k == 'in' and len(s) == 1:
            a, b = linear(f.a[0]), linear(f.a[1])
            self.cs.append(lsub(b, a, -1) if 1 in s else lsub(a, b))
        elif f.op == 'eq' and k == 'in' and len(s) == 1:
            if not (isinstance(f.a[0], V) and isinstance(f.a[1], V)):
                return
            d = lsub(linear(f.a[0]), linear(f.a[1]))
            if 1 in s:
                self.cs += [d, lsub(({}, 0), d)]
            else:
                self.ne.append(d)
        elif f.op not in ('lt', 'eq', 'discr') and all(isinstance(x, int) for x in s):
            d = linear(f)
            if k == 'in' and s:
                self.cs += [lsub(d, ({}, min(s))), lsub(({}, max(s)), d)]
            elif k == 'ni':
                for x in list(s)[:4]:
                    self.ne.append(lsub(d, ({}, x)))

    def bounds(self, cs):
        """unsigned atoms, and the definition of remainders"""
        out = []
        atoms, todo = set(), []
        for co, _ in cs:
            todo += list(co)
        while todo:
            a = todo.pop()
            if a in atoms:
                continue
            atoms.add(a)
            out.append(({a: 1}, 0))
            if a.op == 'rem':
                d = linear(a.a[1])
                out.append(lsub(d, ({a: 1}, 0), -1))
                todo += list(d[0])
            if a.op in ('min', 'max'):
                for z in a.a:
                    q = linear(z)
                    out.append(lsub(q, ({a: 1}, 0)) if a.op == 'min' else lsub(({a: 1}, 0), q))
                    todo += list(q[0])
        return out

    def ge0(self, c):
        """co . x + k >= 0 on every integer point"""
        neg = lsub(({}, -1), c)
        return self.contradiction([neg])

    def contradiction(self, more=()):
        base = self.cs + list(more)
        nes = self.ne[:6]
        return self._split(base, nes)

    def _split(self, base, nes):
        if infeasible(base + self.bounds(base)):
            return True
        for i, d in enumerate(nes):
            lo = lsub(d, ({}, 0), -1)
            hi = lsub(({}, 0), d, -1)
            b0, b1 = infeasible(base + [lo] + self.bounds(base + [lo])), infeasible(base + [hi] + self.bounds(base + [hi]))
            if b0 and b1:
                return True
            if b0 or b1:
                return self._split(base + [hi if b0 else lo], nes[:i] + nes[i + 1:])
        return False

    # --- term level
    def le(self, a, b, k=0):
        """a + k <= b"""
        return self.ge0(lsub(linear(b), linear(a), -k))

    def lt(self, a, b):
        return self.le(a, b, 1)

    def eq(self, a, b):
        return self.le(a, b) and self.le(b, a)


def ring_index(L, t, base, N):
    """t == base mod N and t < N"""
    t = strip(t)
    if t.op == 'rem' and L.eq(t.a[1], N):
        return ring_congruent(L, t.a[0], base, N)
    return ring_congruent(L, t, base, N) and L.lt(t, N)


def ring_congruent(L, t, base, N):
    t = strip(t)
    if t.op == 'rem' and L.eq(t.a[1], N):
        t = t.a[0]
    return any(L.eq(t, add(base, mul(I(k), N))) for k in (0, -1, 1, -2, 2))
