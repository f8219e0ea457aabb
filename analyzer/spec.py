"""Specification layer: entailment over abstract states, account vocabulary, obligations."""
import time
from terms import *
from engine import *
from dex import *


# ---------------------------------------------------------------- term evaluation
_canon = {}


def canon(t):
    """structural normal form: n-ary min/max in a fixed operand order"""
    r = _canon.get(t)
    if r is not None:
        return r
    if t.op == 'poly':
        r = ZERO
        for m, c in t.a[0]:
            p = I(c)
            for x in m:
                p = mul(p, canon(x))
            r = add(r, p)
    elif t.op in ('min', 'max'):
        ls, todo = set(), [t]
        while todo:
            y = todo.pop()
            if y.op == t.op:
                todo.extend(y.a)
            else:
                ls.add(canon(y))
        ls = sorted(ls, key=lambda z: z.id)
        r = ls[0]
        for y in ls[1:]:
            r = mk(t.op, r, y)
    elif t.op in ('div', 'rem', 'call', 'bor', 'band', 'shl', 'shr', 'bnot', 'trunc'):
        r = mk(t.op, *[canon(x) if isinstance(x, V) else x for x in t.a])
    else:
        r = t
    _canon[t] = r
    return r


# the [u64; 4] address fields of the account structures
WORD4 = {'own_address', 'coin_mint', 'pc_mint', 'coin_vault', 'pc_vault', 'req_q', 'event_q', 'bids', 'asks', 'market', 'owner'}


class View:
    """an abstract state with entailment queries"""

    def __init__(self, eng, st, ret=None, accounts=None):
        self.e = eng
        self.st = st
        self.ret = ret
        self._uf = None
        self.acc_base = accounts

    # --- equalities
    def uf(self):
        if self._uf is None:
            p = {}

            def find(x):
                while p.get(x, x) is not x:
                    x = p[x]
                return x
            for f, (k, s) in self.st.facts.items():
                if f.op == 'eq' and k == 'in' and s == frozenset({1}):
                    a, b = find(f.a[0]), find(f.a[1])
                    if a is not b:
                        p[a] = b
                elif k == 'in' and len(s) == 1 and f.op not in ('eq', 'lt'):
                    a, b = find(f), find(I(next(iter(s))))
                    if a is not b:
                        if a.op == 'int':
                            p[b] = a
                        else:
                            p[a] = b
            # an array compared element by element
            grp = {}
            for f, (k, s) in self.st.facts.items():
                if f.op == 'eq' and k == 'in' and s == frozenset({1}) and all(x.op == 'init' and x.a[0].op == 'idx' and x.a[0].a[1].op == 'int' for x in f.a[:2]):
                    p1, i = f.a[0].a[0].a
                    p2, j = f.a[1].a[0].a
                    if i is j and any(q.op == 'fld' and q.a[2] in WORD4 for q in (p1, p2)):
                        grp.setdefault((p1, p2), set()).add(i.a[0])
            for (p1, p2), got in grp.items():
                if got >= {0, 1, 2, 3}:
                    a, b = find(mk('init', p1)), find(mk('init', p2))
                    if a is not b:
                        p[a] = b
            self._uf = find
        return self._uf

    def same(self, a, b):
        if a is b:
            return True
        f = self.uf()
        if f(a) is f(b):
            return True
        d = sub(a, b)
        if d is ZERO:
            return True
        return False

    def nz(self, t):
        if t.op == 'int':
            return t.a[0] != 0
        f = self.st.facts.get(t)
        if f:
            return (0 in f[1]) if f[0] == 'ni' else (0 not in f[1])
        c = self.e.lookup(self.st, t)
        if c is not None:
            return c != 0
        if t.op == 'poly' and len(t.a[0]) == 2 and {c for _, c in t.a[0]} == {1, -1} and all(len(m) == 1 for m, _ in t.a[0]):
            a = next(m[0] for m, c in t.a[0] if c == 1)
            b = next(m[0] for m, c in t.a[0] if c == -1)
            return self.lt(b, a) is True or self.lt(a, b) is True
        return False

    def is0(self, t):
        if t.op == 'int':
            return t.a[0] == 0
        f = self.st.facts.get(t)
        if f and f[0] == 'in':
            return f[1] == frozenset({0})
        c = self.e.lookup(self.st, t)
        return c == 0

    def lt(self, a, b):
        """known truth of a<b: True/False/None"""
        f = self.st.facts.get(mk('lt', a, b))
        if f and f[0] == 'in' and len(f[1]) == 1:
            return f[1] == frozenset({1})
        for f in (self.e.cmp_lt, self.e.cmp_ltu):
            t = f(self.st, a, b)
            if t.op == 'int':
                return bool(t.a[0])
            c = self.e.lookup(self.st, t)
            if c is not None:
                return bool(c)
        return None

    def values(self, t, universe, aliases=()):
        """values of t in universe compatible with the facts that speak about t alone"""
        fs = []
        for f, (k, s) in self.st.facts.items():
            w = walk(f)
            if t in w or any(x in w for x in aliases):
                fs.append((f, k, s))
        out = set()
        for v in universe:
            env = {t: v}
            for x in aliases:
                env[x] = v
            ok = True
            for f, k, s in fs:
                r = ev(f, env)
                if r is None:
                    continue
                if (r in s) != (k == 'in'):
                    ok = False
                    break
            if ok:
                out.add(v)
        return out

    def read(self, loc):
        return self.e.read(self.st, loc)

    # --- value equality modulo the facts of this outcome
    def norm(self, t, d=0):
        memo = self.__dict__.setdefault('_norm', {})
        r = memo.get(t)
        if r is not None:
            return r
        r = self._norm1(t, d)
        memo[t] = r
        return r

    def _norm1(self, t, d):
        if not isinstance(t, V) or t.op == 'int' or d > 40:
            return t
        if t.op == 'poly':
            r = ZERO
            for m, c in t.a[0]:
                p = I(c)
                for x in m:
                    p = mul(p, self.norm(x, d + 1))
                r = add(r, p)
            f = self.st.facts.get(r)
            if f and f[0] == 'in' and len(f[1]) == 1:
                return I(next(iter(f[1])))
            return r
        f = self.st.facts.get(t)
        if f and f[0] == 'in' and len(f[1]) == 1:
            return I(next(iter(f[1])))
        if t in self.zeros() or canon(t) in self.zeros():
            return ZERO
        if t.op == 'call' and t.a[0] in ('taker_fee', 'maker_rebate', 'referrer_rebate', 'remove_taker_fee') and self.norm(t.a[-1], d + 1) is ZERO:
            return ZERO   # lemma decided in C23: no fee or rebate on nothing
        if t.op in ('min', 'max'):
            # n-ary, in canonical order
            ls, todo = set(), [t]
            while todo:
                y = todo.pop()
                if y.op == t.op:
                    todo.extend(y.a)
                else:
                    y = self.norm(y, d + 1)
                    if y.op == t.op:
                        todo.extend(y.a)
                    else:
                        ls.add(y)
            ls = sorted(ls, key=lambda z: z.id)
            if len(ls) > 2:
                # drop dominated operands
                for y in list(ls):
                    if any(z is not y and (self.le(z, y) if t.op == 'min' else self.le(y, z)) for z in ls):
                        if len(ls) > 1:
                            ls.remove(y)
            if len(ls) == 1:
                return ls[0]
            if len(ls) > 2:
                r = ls[0]
                for y in ls[1:]:
                    r = mk(t.op, r, y)
                return r
            a, b = ls
            if a is ZERO or b is ZERO:
                return (b if a is ZERO else a) if t.op == 'max' else ZERO
            le = self.le(a, b)
            if le is None:
                ge = self.le(b, a)
                le = None if ge is None else not ge
                if ge and le is None:
                    le = False
            if le is None:
                le = self.nle(a, b)
            if le is None:
                a, b = sorted((a, b), key=lambda z: z.id)
                return mk(t.op, a, b)
            return a if le == (t.op == 'min') else b
        if t.op in ('div', 'rem', 'call', 'bor', 'band', 'shl', 'shr', 'bnot', 'trunc', 'sel', 'lt', 'eq'):
            na = tuple(self.norm(x, d + 1) if isinstance(x, V) else x for x in t.a)
            if t.op in ('div', 'rem') and na[0] is ZERO:
                return ZERO
            if any(p is not q for p, q in zip(na, t.a)):
                return mk(t.op, *na)
        g = self.uf()(t)
        if g.op == 'int':
            return g
        return t

    def nle(self, a, b):
        """a <= b from a recorded comparison whose operands normalise to a and b"""
        m = self.__dict__.get('_nlt')
        if m is None:
            m = self._nlt = {}
            got = {}
            for f, (k, s) in self.st.facts.items():
                if f.op == 'lt' and k == 'in' and len(s) == 1:
                    na, nb = self.norm(f.a[0]), self.norm(f.a[1])
                    if na is not f.a[0] or nb is not f.a[1]:
                        got[(na, nb)] = next(iter(s))
            self._nlt = m = got
            self._norm = {}
        v = m.get((a, b))
        if v == 1:
            return True
        w = m.get((b, a))
        if w is not None:
            return not w
        return False if v == 0 else None   # b <= a: as good as False where it is used

    def zeros(self):
        """factors forced to zero by a zero product whose other factors are non-zero"""
        z = self.__dict__.get('_zeros')
        if z is None:
            z = self._zeros = set()
            for f, (k, s) in self.st.facts.items():
                if f.op == 'poly' and k == 'in' and s == frozenset({0}) and len(f.a[0]) == 1:
                    (m, c), = f.a[0]
                    u = [y for y in m if not self.nz(y)]
                    if len(u) == 1:
                        z.add(u[0])
                        z.add(canon(u[0]))
        return z

    def infeasible(self):
        """a product of non-zero factors recorded as zero: the path cannot be taken"""
        for f, (k, s) in self.st.facts.items():
            if f.op == 'poly' and k == 'in' and s == frozenset({0}) and len(f.a[0]) == 1:
                (m, c), = f.a[0]
                if m and all(self.nz(z) for z in m):
                    return True
            elif (f.op in ('min', 'div') or f.op == 'poly' and len(f.a[0]) == 1) and k == 'ni' and 0 in s and self.norm(f) is ZERO:
                return True
        return False

    def le(self, a, b):
        """a <= b known?"""
        if a is b:
            return True
        c = self.lt(b, a)
        if c is not None:
            return not c
        c = self.lt(a, b)
        if c:
            return True
        dd = sub(b, a)
        if dd.op == 'int':
            return dd.a[0] >= 0
        return None

    def zpolys(self):
        z = self.__dict__.get('_zp')
        if z is None:
            z = self._zp = set()
            for f, (k, s) in self.st.facts.items():
                if f.op == 'poly' and k == 'in' and len(s) == 1:
                    g = canon(sub(f, I(next(iter(s)))))
                    z.add(g)
                    z.add(scale(g, -1))
                elif f.op == 'eq' and k == 'in' and s == frozenset({1}):
                    try:
                        g = canon(sub(f.a[0], f.a[1]))
                    except Exception:
                        continue
                    z.add(g)
                    z.add(scale(g, -1))
        return z

    def eqv(self, a, b):
        if a is b or sub(a, b) is ZERO:
            return True
        na, nb = self.norm(a), self.norm(b)
        if na is nb:
            return True
        dd = self.norm(sub(na, nb))
        if dd is ZERO:
            return True
        if canon(dd) in self.zpolys() or canon(sub(a, b)) in self.zpolys():
            return True
        for y in (canon(dd), canon(sub(a, b))):
            for _ in range(4):
                z = y
                for at_, ex in self.substs():
                    if at_ in atoms(y):
                        y = canon(subst_poly(y, {at_: ex}))
                if y is ZERO:
                    return True
                if y is z:
                    break
        return self.same(a, b)

    def substs(self):
        """atom := expression, from the equalities of this outcome (the most complex atom is eliminated)"""
        r = self.__dict__.get('_subs')
        if r is None:
            r = self._subs = []
            seen = set()
            for g in sorted(self.zpolys(), key=lambda y: y.id):
                for a, ex in r:
                    if a in atoms(g):
                        g = canon(subst_poly(g, {a: ex}))
                if g.op != 'poly':
                    continue
                best = None
                for m, c in g.a[0]:
                    if len(m) == 1 and c in (1, -1) and sum(1 for m2, _ in g.a[0] if m[0] in m2) == 1:
                        k = (m[0].op in ('min', 'max', 'div', 'call'), m[0].id)
                        if best is None or k > best[0]:
                            best = (k, m[0], c)
                if best and best[1] not in seen:
                    seen.add(best[1])
                    a, c = best[1], best[2]
                    r.append((a, scale(sub(g, scale(a, c)), -c)))
        return r


BIG = 1 << 40


class Accts:
    """vocabulary of terms about the accounts of one instruction"""

    def __init__(self, dex, base=None):
        self.d = dex
        self.base = base or mk('deref', mk('arg', 'accounts'))
        ai = dex.type_by_path('AccountInfo')
        self.fi = {f[0]: i for i, f in enumerate(ai['v'][0]['f'])}
        self.len = mk('len', mk('arg', 'accounts'))

    def loc(self, i):
        return mk('idx', self.base, I(i) if isinstance(i, int) else i)

    def fld(self, i, name):
        return mk('init', mk('fld', self.loc(i), self.fi[name], name, 0))

    def key(self, i):
        return mk('init', mk('deref', self.fld(i, 'key')))

    def owner(self, i):
        return mk('init', mk('deref', self.fld(i, 'owner')))

    def signer(self, i):
        return self.fld(i, 'is_signer')

    def cell(self, i, name):
        """the RefCell contents of data / lamports"""
        return mk('init', mk('fld', mk('deref', self.fld(i, name)), 1, 'value', 0))

    def data(self, i):
        return mk('deref', self.cell(i, 'data'))

    def dlen(self, i):
        return mk('len', self.cell(i, 'data'))

    def lamports(self, i):
        return mk('deref', self.cell(i, 'lamports'))

    def view(self, i, tname, off=5):
        t = self.d.type_by_path(tname)
        return mk('view', self.data(i), I(off), t['s'], t['size'])

    def f(self, i, tname, field):
        """location of a field of the struct overlaid on account i"""
        t = self.d.type_by_path(tname)
        v = self.view(i, tname)
        for j, x in enumerate(t['v'][0]['f']):
            if x[0] == field:
                return mk('fld', v, j, field, 0)
        raise Missing('field %s.%s' % (tname, field))

    def m(self, i, field):
        return mk('init', self.f(i, 'state::MarketState', field))

    def oo(self, i, field):
        return mk('init', self.f(i, 'state::OpenOrders', field))

    def queue(self, i, tname):
        return mk('idx', mk('one', self.view(i, tname)), ZERO)


SPL = mk('init', mk('deref', mk('arg', 'static:spl_token::ID')))
PROG = mk('init', mk('deref', mk('arg', 'program_id')))


class Spec:
    """collects obligations of one property"""

    def __init__(self, pid, dex=None):
        self.pid = pid
        self.dex = dex
        self.n = 0
        self.ok = 0
        self.viol = []
        self.samples = []
        self.units = {}
        self.rules = {}
        self.notes = []
        self.t0 = time.time()

    def oblige(self, rule, where, cond, detail=''):
        self.n += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            self.ok += 1
            r[1] += 1
            if len(self.samples) < 12 and r[1] <= 2:
                self.samples.append('%s @ %s%s' % (rule, where, ': ' + str(detail)[:200] if detail else ''))
            return True
        d = detail() if callable(detail) else detail
        self.viol.append({'rule': rule, 'where': where, 'detail': str(d)[:1500]})
        return False

    def fail(self, rule, where, detail=''):
        return self.oblige(rule, where, False, detail)

    def floor(self, what, n, least):
        self.oblige('coverage floor', what, n >= least, '%s: %d analysed, at least %d expected' % (what, n, least))

    def count(self, unit, **kw):
        u = self.units.setdefault(unit, {})
        for k, v in kw.items():
            u[k] = u.get(k, 0) + v


def sh(x, n=400):
    import re
    s = show(x)
    s = re.sub(r'accounts\[([^\[\]]*?)\]', lambda m: 'acc[%s]' % m.group(1), s)
    s = re.sub(r'\*\*\*acc\[([^\[\]]*?)\]\.data\.value@5 as (\w+)', r'<acc[\1]:\2>', s)
    s = re.sub(r'\*\*\*acc\[([^\[\]]*?)\]\.data\.value', r'<acc[\1]>', s)
    return s[:n]


# ---------------------------------------------------------------- handler units
class Handler:
    """abstract-interpretation summary of State::process for one instruction"""

    def __init__(self, dex, variant, precise=False, nomerge=False, sub=None, parts=300):
        self.dex = dex
        self.variant = variant
        e = dex.engine()
        e.max_parts = parts
        e.precise_err = precise
        self.trs = []
        if nomerge:
            e.nomerge = lambda st, fr: True

        def hook(fr, bb, st, suf, mark):
            self.trs.append((fr, bb, st.copy(), suf, mark))
        e.loop_hook = hook
        self.vpushes = []
        e.vpush_hook = lambda st, v: self.vpushes.append((st.copy(), v))
        if sub:
            sub(e)
        self.e, self.outs = dex.run_variant(variant, e)
        self.ok = []
        for s, r in ok_exits(self.outs):
            self.e.saturate(s)
            if all(f[1] or f[0] == 'ni' for f in s.facts.values()):   # a flag word without a possible value: dead
                self.ok.append(View(self.e, s, r))
        self.A = Accts(dex)

    def stats(self):
        return {'functions': len(self.e.stats['fns']), 'blocks': self.e.stats['blocks'],
                'ok_exits': len(self.ok), 'exits': len(self.outs), 'loop_iterations': len(self.trs)}


def replace_sub(dex):
    """boundaries for the replace instructions: the two delegated parsers"""
    def mkb(tag):
        def h(eng, c, st):
            s2 = st.copy()
            st.log = st.log + (mk(tag, *[eng.deepval(st, a) for a in c.args]),)
            return [(st, eng.result_ok(UNIT)), (s2, eng.result_err(mk('suberr', tag)))]
        return h

    def inst(e):
        n = 0
        for tag, nm in (('sub_cancel', 'CancelOrdersByClientIdsArgs'), ('sub_new', 'NewOrderV3Args')):
            for p in list(e.prog.bypath):
                if nm in p and p.endswith('::with_parsed_args'):
                    e.boundary[p] = mkb(tag)
                    n += 1
        if n < 2:
            raise Missing('delegated account parsers of the replace instructions')
    return inst


PRECISE = {'CancelOrdersByClientIds'}
MERGED = {'CancelOrdersByClientIds', 'ReplaceOrderByClientId', 'ReplaceOrdersByClientIds'}
REPLACE = {'ReplaceOrderByClientId', 'ReplaceOrdersByClientIds'}


def handler(dex, variant):
    h = dex.cache.get(variant)
    if h is None:
        sub = replace_sub(dex) if variant in REPLACE else None
        if variant in MERGED:
            h = Handler(dex, variant, precise=variant in PRECISE, sub=sub)
        else:
            try:
                h = Handler(dex, variant, nomerge=True, sub=sub, parts=4000)
            except Unsupported:
                h = Handler(dex, variant, sub=sub)
        dex.cache[variant] = h
    return h


def fields_of(x, dex, view, tname):
    """{field: final value} of a struct overlaid on account data, only for fields that changed"""
    t = dex.type_by_path(tname)
    out = {}
    for j, f in enumerate(t['v'][0]['f']):
        l = mk('fld', view, j, f[0], 0)
        v = x.read(l)
        if v is not mk('init', l):
            out[f[0]] = v
    return out


def transfers(x):
    """token transfers of an outcome: (src, dst, authority, amount, seeds, entry)"""
    out = []
    for l in x.st.log:
        if l.op == 'invoke':
            t = l.a[0]
            if t.op == 'spl_transfer':
                out.append((t.a[1], t.a[2], t.a[3], t.a[5], l.a[2], l))
            else:
                out.append((None, None, None, None, l.a[2], l))
    return out


def match_transfers(sp, rule, w, x, expected, vault_seeds):
    """expected: list of (src, dst, amount, authority, from_vault)"""
    left = transfers(x)
    for src, dst, amt, auth, from_vault in expected:
        hit = [t for t in left if t[0] is not None and x.same(t[0], src) and x.same(t[1], dst)]
        if not hit:
            sp.oblige(rule, w, x.eqv(amt, ZERO), lambda: 'missing transfer of %s from %s to %s' % (sh(amt), sh(src), sh(dst)))
            continue
        tot = ZERO
        for t in hit:
            tot = add(tot, t[3])
            left.remove(t)
            sp.oblige(rule + ' authority', w, x.same(t[2], auth), lambda: 'authority %s' % sh(t[2]))
            ok = (t[4] is vault_seeds) if from_vault else (t[4].op == 'list' and not t[4].a)
            sp.oblige(rule + ' signer seeds', w, ok, lambda: 'seeds %s' % sh(t[4]))
        sp.oblige(rule, w, x.eqv(tot, amt), lambda: 'transfers %s, expected %s' % (sh(tot), sh(amt)))
    sp.oblige(rule + ' no other transfer', w, not left, lambda: [sh(t[5], 300) for t in left])


def seeds_of(A, m):
    return mk('list', mk('list', A.m(m, 'own_address'), A.m(m, 'vault_signer_nonce')))


def expect_fields(sp, rule, w, x, view, tname, expected, dex):
    """every field of the overlay either has its expected final value or is unchanged"""
    t = dex.type_by_path(tname)
    names = [f[0] for f in t['v'][0]['f']]
    for k in expected:
        if k not in names:
            raise Missing('field %s.%s' % (tname, k))
    for j, f in enumerate(t['v'][0]['f']):
        l = mk('fld', view, j, f[0], 0)
        v = x.read(l)
        e = expected.get(f[0], mk('init', l))
        if e is None:
            continue
        if callable(e):
            sp.oblige('%s %s' % (rule, f[0]), w, e(v), lambda: '%s := %s' % (f[0], sh(v)))
        else:
            sp.oblige('%s %s' % (rule, f[0]), w, x.eqv(v, e), lambda: '%s := %s, expected %s' % (f[0], sh(v), sh(e)))
