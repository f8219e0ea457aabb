"""C23: fee tiers.  The schedule function, the three fee functions and the way the tier of a request is chosen are
summarised by abstract interpretation and compared, outcome by outcome, with the published schedule."""
from spec import *
from engine import Unsupported
import funds
from access import hexit

CR = 'serum_dex::'
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, 'big').hex()


STABLE = {b58(k): n for n, k in (
    ('usdt_usdc', '77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS'), ('msol_sol', '5cLrMai1DsLRYc1Nio9qMTicsWtvzjzZfJPXyAoF4t1Z'),
    ('ust_usdc', 'EERNEEnBqdGzBS8dd46wwNY5F2kwnaCQ3vsq2fNKGogZ'), ('ust_usdt', '8sFf9TW3KzxLiBXcDcjAxqabEsRroo4EiRr3UG1xbJ9m'),
    ('stsol_sol', '2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62'), ('usdh_usdc', 'CaFjigEgJdtGPxQxRjneA1hzNcY5MsHoAAL6Et67QrC5'))}
SRM = b58('SRMuApVNdxXokk5GT7XD5cUUgXMBCoAz2LHeuAoKWRt')
MSRM = b58('MSRMcoVyrFxnSgo5uXwone5SKcGhT1KEJMFEkMEWf9L')
RATE = {'Base': 40, 'SRM2': 39, 'SRM3': 38, 'SRM4': 36, 'SRM5': 34, 'SRM6': 32, 'MSRM': 30, 'Stable': 10}
M = 10 ** 6
LEVEL = {'Base': (0, 100 * M), 'SRM2': (100 * M, 10 ** 3 * M), 'SRM3': (10 ** 3 * M, 10 ** 4 * M), 'SRM4': (10 ** 4 * M, 10 ** 5 * M),
         'SRM5': (10 ** 5 * M, 10 ** 6 * M), 'SRM6': (10 ** 6 * M, None)}
Q = mk('arg', 'q')
W64 = 1 << 64


def key_bytes(prog, t):
    """the 32 bytes of a constant key, or None"""
    while t.op in ('pv', 'init', 'deref', 'ptr'):
        t = t.a[0]
    if t.op == 'arg' and str(t.a[0]).startswith('static:'):
        return prog.statics.get(t.a[0][7:])
    for z in walk(t):
        if z.op == 'agg' and z.a[0] == ('array',) and z.a[1] and all(is_int(y) for y in z.a[1]):
            if len(z.a[1]) == 32:
                return bytes(y.a[0] for y in z.a[1]).hex()
            if len(z.a[1]) == 4:
                return b''.join(y.a[0].to_bytes(8, 'little') for y in z.a[1]).hex()
    if t.op == 'bytes':
        return t.a[0] if isinstance(t.a[0], str) else t.a[0].hex()
    return None


def array_items(t):
    while t.op in ('pv', 'subval', 'ptr', 'heap', 'slice', 'sl'):
        t = t.a[0]
    if t.op == 'agg' and t.a[0] == ('array',):
        return t.a[1]
    return None


def literals(f, tr):
    """f == tr as a disjunction of literals, or None"""
    if tr is None:
        return None
    if f.op == 'not':
        return literals(f.a[0], 1 - tr)
    if (f.op, tr) in (('and', 0), ('or', 1)):
        out = []
        for y in f.a:
            r = literals(y, tr)
            if r is None:
                return None
            out += r
        return out
    if f.op in ('and', 'or'):
        return None
    return [(f, tr)]


def key_facts(prog, x, me):
    """({keys equal to `me`}, {keys known different}) from the path condition"""
    eq, ne = set(), set()
    for f in x.st.facts:
        if f.op in ('and', 'or', 'not'):
            # one of several comparisons holds
            ls = literals(f, 1 if x.nz(f) else 0 if x.is0(f) else None)
            ks = []
            for l, tr in ls or ():
                k = next((key_bytes(prog, b) for a, b in (l.a, l.a[::-1]) if me(a)), None) if l.op == 'eq' and tr else None
                ks.append(k)
            if ks and None not in ks:
                eq.add(tuple(ks))
        if f.op == 'eq':
            for a, b in (f.a, f.a[::-1]):
                if me(a):
                    k = key_bytes(prog, b)
                    if k is not None:
                        if x.nz(f):
                            eq.add(k)
                        elif x.is0(f):
                            ne.add(k)
        elif f.op == 'contains' and me(f.a[1]):
            it = array_items(f.a[0])
            ks = [key_bytes(prog, y) for y in it] if it else []
            if ks and None not in ks:
                if x.nz(f):
                    eq.add(tuple(ks) if len(ks) > 1 else ks[0])
                elif x.is0(f):
                    ne.update(ks)
    return eq, ne


def unit(D, fn, args):
    e = D.engine(slab=False, queue=False, fees=False)
    e.nomerge = lambda s, f: True
    e.precise_err = True
    e.unroll_max = max(e.unroll_max, 16)
    return [View(e, s, r) for s, r in e.call_fn(D.fn(fn), args, State(), mk('frame0', fn))]


def schedule(sp):
    D = sp.dex
    mkt = mk('heap', mk('mkt', 0))
    fn = 'fees::FeeTier::from_srm_and_msrm_balances'
    srm, msrm = mk('arg', 'srm'), mk('arg', 'msrm')
    outs = unit(D, fn, [mk('ptr', mkt), srm, msrm])
    me = lambda t: any(z is mkt for z in walk(t))
    seen = {}
    for i, x in enumerate(outs):
        if x.infeasible():
            continue
        w = '%s outcome %d' % (fn, i)
        if not sp.oblige('T1 a tier is named', w, x.ret.op == 'agg' and x.ret.a[0][3] in RATE, lambda: sh(x.ret, 200)):
            continue
        t = x.ret.a[0][3]
        seen[t] = seen.get(t, 0) + 1
        eq, ne = key_facts(D.prog, x, me)
        if t == 'Stable':
            hit = [k for k in eq if (set(k) <= set(STABLE) if isinstance(k, tuple) else k in STABLE)]
            sp.oblige('T2 stable rate only on the listed stable markets', w, bool(hit), lambda: 'market equal to %s' % [str(k)[:16] for k in eq])
            continue
        sp.oblige('T3 every listed stable market gets the stable rate', w, set(STABLE) <= ne, lambda: 'not ruled out: %s' % [STABLE[k] for k in STABLE if k not in ne])
        if t == 'MSRM':
            sp.oblige('T4 the lowest regular rate needs a MegaSerum', w, x.nz(msrm) or x.lt(ZERO, msrm) is True, 'balance not tested')
            continue
        sp.oblige('T5 a MegaSerum holder gets the lowest regular rate', w, x.is0(msrm) or x.lt(msrm, ONE) is True, 'balance not ruled out')
        lo, hi = LEVEL[t]
        sp.oblige('T6 balance reaches the tier', w, lo == 0 or x.lt(srm, I(lo)) is False, lambda: 'balance below %d not excluded' % lo)
        sp.oblige('T6 balance does not reach the next tier', w, hi is None or x.lt(srm, I(hi)) is True, lambda: 'balance of %d not excluded' % (hi or 0))
    for t in RATE:
        sp.floor('tier ' + t, seen.get(t, 0), 1)
    sp.count(fn, outcomes=len(outs))


# ---------------------------------------------------------------- integer forms
def scaled(t):
    """t == q * c with constant c"""
    while t.op in ('zext', 'pv'):
        t = t.a[0]
    if t.op == 'shl' and is_int(t.a[1]):
        c = scaled(t.a[0])
        return None if c is None else c << t.a[1].a[0]
    if t is Q:
        return 1
    if t is ZERO:
        return 0
    if t.op == 'poly' and len(t.a[0]) == 1:
        (m, c), = t.a[0]
        if len(m) == 1:
            i = scaled(m[0])
            return None if i is None else c * i
    return None


def floor_of(t):
    """t == floor(q * c / d): (c, d, add) with floor((q*c + add) / d)"""
    while t.op in ('trunc', 'zext', 'pv'):
        t = t.a[0]
    if t.op == 'shr' and is_int(t.a[1]):
        n, d = t.a[0], 1 << t.a[1].a[0]
    elif t.op == 'div' and is_int(t.a[1]):
        n, d = t.a[0], t.a[1].a[0]
    else:
        return None
    k = 0
    c = scaled(n)
    if c is None and n.op == 'poly':
        k = sum(cc for m, cc in n.a[0] if not m)
        c = scaled(sub(n, I(k)))
    return None if c is None else (c, d, k)


def frac_of(t):
    """t == (q * c) mod d"""
    if t.op == 'trunc':
        c = scaled(t.a[0])
        return None if c is None else (c, 1 << t.a[1])
    if t.op == 'rem' and is_int(t.a[1]):
        c = scaled(t.a[0])
        return None if c is None else (c, t.a[1].a[0])
    if t.op == 'band' and any(is_int(y) and y.a[0] & (y.a[0] + 1) == 0 for y in t.a):
        m = next(y for y in t.a if is_int(y))
        c = scaled(t.a[0] if t.a[1] is m else t.a[1])
        return None if c is None else (c, m.a[0] + 1)
    return None


def frac_nonzero(t):
    """t == [ (q*c) mod d != 0 ] -> (c, d)"""
    pol = 0
    while True:
        if t.op in ('zext', 'trunc'):
            t = t.a[0]
        elif t.op == 'not':
            t, pol = t.a[0], 1 - pol
        else:
            break
    if t.op == 'eq':
        for a, b in (t.a, t.a[::-1]):
            if b is ZERO and pol:
                return frac_of(a)
    if t.op == 'lt' and t.a[0] is ZERO and not pol:
        return frac_of(t.a[1])
    return None


def ceil_of(x, t):
    """t == ceil(q * c / d) in this outcome: (c, d)"""
    f = floor_of(t)
    if f is not None:
        c, d, k = f
        if k == d - 1:
            return c, d
        if k == 0:
            # exact on this path
            for g in x.st.facts:
                r = frac_of(g)
                if r == (c, d) and x.is0(g):
                    return c, d
                r = frac_of(g.a[0]) if g.op == 'eq' and g.a[1] is ZERO else None
                if r == (c, d) and x.nz(g):
                    return c, d
        return None
    if t.op == 'poly':
        parts = [(m, c) for m, c in t.a[0]]
        fl = [m[0] for m, c in parts if len(m) == 1 and c == 1 and floor_of(m[0]) is not None]
        if len(fl) == 1:
            c, d, k = floor_of(fl[0])
            rest = sub(t, fl[0])
            if k == 0 and frac_nonzero(rest) == (c, d):
                return c, d
            if k == 0 and rest is ONE:
                for g in x.st.facts:
                    if frac_of(g) == (c, d) and x.nz(g):
                        return c, d
                    if g.op == 'eq' and g.a[1] is ZERO and frac_of(g.a[0]) == (c, d) and x.is0(g):
                        return c, d
    return None


SAMPLES = sorted({v for k in range(64) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {W64 - 1, W64 - 2, 12345678901, 2500, 2501, 100000, 99999, 5, 10, 24, 26, 333333} |
                 {j * s for j in (1, 3, 7) for s in (2500, 250, 10 ** 6, 10 ** 9)})


def refute(outs, want):
    """an amount on which the extracted summary differs from `want` (used only when the summary is not in a recognised form)"""
    for q in SAMPLES:
        env = {Q: q}
        try:
            for x in outs:
                ok = True
                for f, (k, s) in x.st.facts.items():
                    v = ev(f, env)
                    if (v in s) != (k == 'in'):
                        ok = False
                        break
                if ok:
                    r = ev(x.ret, env)
                    if r != want(q):
                        return q, r, want(q)
        except Exception:
            return None
    return None


def amount(sp, w, outs, form, want, rule):
    und = 0
    for i, x in enumerate(outs):
        if x.infeasible():
            continue
        if not form(x, x.ret):
            und += 1
    if und == 0:
        sp.oblige(rule, w, True)
        return 0
    r = refute(outs, want)
    sp.oblige(rule, w, r is None, lambda: 'amount %d: %s instead of %s' % r)
    return 1


def amounts(sp):
    D = sp.dex
    und = 0
    for t, tb in RATE.items():
        rate = (tb << 64) // 100000
        me = D.enum_val('fees::FeeTier', t)
        outs = unit(D, 'fees::FeeTier::taker_fee', [me, Q])
        und += amount(sp, 'FeeTier::taker_fee %s' % t, outs, lambda x, r: ceil_of(x, r) == (rate, W64), lambda q: -(-q * rate // W64), 'A1 taker fee is the rate of the tier rounded up')
        outs = unit(D, 'fees::FeeTier::remove_taker_fee', [me, Q])
        und += amount(sp, 'FeeTier::remove_taker_fee %s' % t, outs, lambda x, r: floor_of(r) == (W64, W64 + rate, 0), lambda q: q * W64 // (W64 + rate), 'A2 removing the fee divides by one plus the rate')
        outs = unit(D, 'fees::FeeTier::maker_rebate', [me, Q])
        und += amount(sp, 'FeeTier::maker_rebate %s' % t, outs, lambda x, r: r is ZERO or (floor_of(r) or (9, 1, 0))[0] <= 1 and floor_of(r)[1] == W64 and floor_of(r)[2] == 0, lambda q: 0, 'A3 makers get no rebate')
    outs = unit(D, 'fees::referrer_rebate', [Q])
    und += amount(sp, 'fees::referrer_rebate', outs, lambda x, r: floor_of(r) == (1, 5, 0), lambda q: q // 5, 'A4 the referrer gets one fifth')
    sp.count('fees.rs', amount_functions=3 * len(RATE) + 1, decided_by_form=3 * len(RATE) + 1 - und, only_searched_for_a_counterexample=und)


def word(t, acc):
    """(first byte, byte count) of account data read as a value"""
    while t.op in ('pv', 'trunc', 'zext'):
        t = t.a[0]
    if t.op in ('le', 'frombytes') and t.a and isinstance(t.a[0], V):
        return word(t.a[0], acc)
    return None


def data_range(A, i, t):
    """byte range [lo, hi) of the data of account i that t denotes, or None"""
    while t.op in ('pv', 'zext'):
        t = t.a[0]
    if t.op == 'bsub' and any(z is A.loc(i) for z in walk(t.a[0])) and is_int(t.a[1]) and is_int(t.a[2]):
        lo, n = t.a[1].a[0], t.a[2].a[0]
        if (lo, n) in ((0, 4), (4, 4), (8, 1)):
            lo, n = lo * 8, n * 8
        return lo, lo + n
    for z in t.a:
        if isinstance(z, V) and z.op in ('bsub', 'pv', 'le', 'frombytes'):
            return data_range(A, i, z)
    return None


def request_tier(sp):
    """the tier of a request comes from the market and the presented token account of the order's owner"""
    D = sp.dex
    for v, fixed, own in (('NewOrderV3', 12, 7), ('SendTake', 12, 7)):
        h = handler(D, v)
        A = h.A
        kinds = {}
        sp.count(v, **h.stats())
        for i, x in enumerate(h.ok):
            ms = [l for l in x.st.log if l.op == 'match']
            if x.infeasible() or len(ms) != 1:
                continue
            w = hexit(h, i, x)
            t = funds.req_fields(D, ms[0])['fee_tier']
            if not sp.oblige('P1 the tier comes from the schedule', w, t.op == 'call' and t.a[0] == 'from_srm_and_msrm_balances', lambda: sh(t, 200)):
                continue
            m, s, ms_ = t.a[1], t.a[2], t.a[3]
            mk_ = m.a[0] if m.op == 'pv' else m
            own_addr = mk('init', A.f(0, 'state::MarketState', 'own_address'))
            sp.oblige('P2 tier of this market', w, x.same(mk_, A.key(0)) or x.same(mk_, own_addr), lambda: sh(m, 200))
            n = x.e.lookup(x.st, A.len)
            given = n is not None and n > fixed or any(z is A.loc(fixed) for f in x.st.facts for z in walk(f))
            if not given:
                kinds['none'] = kinds.get('none', 0) + 1
                sp.oblige('P3 without an account the base tier applies', w, s is ZERO and ms_ is ZERO, lambda: '%s / %s' % (sh(s, 80), sh(ms_, 80)))
                continue
            mint = lambda q: data_range(A, fixed, q) == (0, 32)
            eq, ne = key_facts(D.prog, x, mint)
            bal = lambda q: data_range(A, fixed, q) == (64, 72)
            owned = any(f.op == 'eq' and x.nz(f) and any(data_range(A, fixed, a) == (32, 64) and x.same(b, A.key(own)) for a, b in (f.a, f.a[::-1])) for f in x.st.facts)
            isacc = x.same(A.owner(fixed), SPL)
            if s is ZERO and ms_ is ZERO:
                k = 'other'
                sp.oblige('P4 an SRM or MSRM balance counts', w, {SRM, MSRM} <= ne, 'mint not ruled out')
            elif ms_ is ZERO:
                k = 'srm'
                sp.oblige('P5 SRM balance of the account', w, bal(s) and SRM in eq, lambda: '%s, mint %s' % (sh(s, 100), [str(q)[:12] for q in eq]))
            else:
                k = 'msrm'
                sp.oblige('P5 MSRM balance of the account', w, s is ZERO and bal(ms_) and MSRM in eq, lambda: '%s, mint %s' % (sh(ms_, 100), [str(q)[:12] for q in eq]))
            kinds[k] = kinds.get(k, 0) + 1
            if k != 'other':
                sp.oblige('P6 the balance belongs to the order\'s owner', w, owned, 'owner of the token account not compared with the signer')
                sp.oblige('P6 it is a token account', w, isacc, 'owner program not checked')
        for k in ('none', 'srm', 'msrm', 'other'):
            sp.floor('%s tier from %s' % (v, k), kinds.get(k, 0), 1)


def check_c23(sp):
    schedule(sp)
    amounts(sp)
    request_tier(sp)


CHECKS = {'C23': check_c23}
TECHNIQUE = {'C23': 'abstract interpretation of the fee functions and of the handlers; every outcome\'s path condition compared with the published schedule, amounts compared with the schedule as integer normal forms'}
NOTE = {'C23': 'A fee function whose summary is not in a recognised integer form is only searched for a counterexample among boundary amounts; the evidence says how many were.'}
