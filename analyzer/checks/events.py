"""C12 consuming events, C14 order slots (release side)."""
from spec import *
from access import units, hexit, flag_values, seeded, UNIV

OO = 'state::OpenOrders'
MS = 'state::MarketState'
FILL, OUT, BID, MAKER, REL = 1, 2, 4, 8, 16
CONSUME = {'ConsumeEvents': 4, 'ConsumeEventsPermissioned': 3}


def bitfn(x, t, atoms, env):
    """value of one bit position of a bitwise expression, or None"""
    for a, f in atoms:
        if f(t):
            return env[a]
    if is_int(t):
        v = t.a[0]
        for a, f in atoms:
            if f(I(v ^ ((1 << 128) - 1))):
                return 1 - env[a]
        return 0 if v == 0 else 1 if v == (1 << 128) - 1 or v == (1 << 64) - 1 or v == -1 else None
    if t.op in ('bor', 'band', 'bxor'):
        vs = [bitfn(x, y, atoms, env) for y in t.a if isinstance(y, V)]
        if None in vs:
            return None
        r = vs[0]
        for v in vs[1:]:
            r = r | v if t.op == 'bor' else r & v if t.op == 'band' else r ^ v
        return r
    if t.op == 'bnot':
        v = bitfn(x, t.a[0], atoms, env)
        return None if v is None else 1 - v
    if t.op == 'poly':
        # base + mask when the bit is clear, base - mask when it is set
        ms = [(m, c) for m, c in t.a[0]]
        if len(ms) == 2 and all(len(m) == 1 for m, c in ms):
            vs = [(bitfn(x, m[0], atoms, env), c) for m, c in ms]
            if None in [v for v, c in vs]:
                return None
            s = sum(v * c for v, c in vs)
            return s if s in (0, 1) else None
    return None


def is_mask(x, slot):
    def f(t):
        if is_int(t) and is_int(slot):
            return t.a[0] == 1 << slot.a[0]
        return t.op == 'shl' and is_int(t.a[0]) and t.a[0].a[0] == 1 and x.same(t.a[1], slot)
    return f


def bit_known(x, base, slot):
    """value of bit `slot` of base under the facts, or None"""
    m = is_mask(x, slot)
    if is_int(base) and is_int(slot):
        return base.a[0] >> slot.a[0] & 1
    if slot.op == 'trailing_zeros' and slot.a[0] is base:
        f = x.st.facts.get(slot)
        # below the width: some bit is set, and this is the lowest one
        if x.nz(base) or x.nz(mk('count_ones', base)) or x.lt(slot, I(128)) or f and (128 in f[1]) == (f[0] == 'ni') or x.e.lookup(x.st, x.e.cmp_eq(x.st, slot, I(128))) == 0:
            return 1
    for f, (k, v) in x.st.facts.items():
        if f.op == 'band' and base in f.a[:2]:
            o = f.a[1] if f.a[0] is base else f.a[0]
            if m(o):
                if k == 'in' and v == frozenset({0}):
                    return 0
                if k == 'ni' and 0 in v:
                    return 1
        if f.op == 'eq':
            for u, w in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if u.op == 'band' and base in u.a[:2] and (m(u.a[0]) or m(u.a[1])):
                    one = k == 'in' and v == frozenset({1}) or k == 'ni' and 0 in v
                    zero = k == 'in' and v == frozenset({0})
                    if m(w):
                        if one:
                            return 1
                        if zero:
                            return 0
                    if w is ZERO:
                        if one:
                            return 0
                        if zero:
                            return 1
    return None


def bits_ok(x, v, base, slot, setbit, known=None):
    """v equals base with bit `slot` set (1), cleared (0) or unchanged (None)"""
    if v is base and setbit is None:
        return True
    if is_int(v) and is_int(base) and is_int(slot):
        m = 1 << slot.a[0]
        return v.a[0] == (base.a[0] if setbit is None else base.a[0] | m if setbit else base.a[0] & ~m)
    bb = lambda t: t is base
    for b in (0, 1):
        for m in (0, 1):
            if m and known is not None and b != known:
                continue
            r = bitfn(x, v, [('b', bb), ('m', is_mask(x, slot))], {'b': b, 'm': m})
            want = b if not m or setbit is None else setbit
            if r != want:
                return False
    return True


def arr_ok(x, v, base, idx, val):
    """v is the array base with exactly element idx set to val"""
    if v.op != 'upd' or v.a[0] is not base:
        return False
    if len(v.a[1]) != 1:
        return False
    (k, c), = v.a[1]
    return k[0] == 'i' and x.same(k[1] if isinstance(k[1], V) else I(k[1]), idx) and x.eqv(c, val)


def account_roots(st, pre):
    """overlays and account memory changed between two states"""
    out = []
    for r, v in st.mem.items():
        if r.op == 'view' or r.op == 'idx':
            if pre.mem.get(r) is not v:
                out.append(r)
    return out


def changed_views(x, pre, dex):
    """overlay structs with at least one changed field (old value read from pre)"""
    out = []
    y = View(x.e, pre)
    for r in account_roots(x.st, pre):
        if r.op != 'view':
            if x.read(r) is not y.read(r):
                out.append(r)
            continue
        t = dex.prog.bypath_type(r.a[2]) if hasattr(dex.prog, 'bypath_type') else None
        if x.read(r) is not y.read(r):
            out.append(r)
    return out


class Ev:
    """one event record at the front of the queue"""

    def __init__(self, dex, q, ver):
        t = dex.type_by_path('state::Event')
        self.loc = mk('slot', q, ver)
        self.n = [f[0] for f in t['v'][0]['f']]

    def __getattr__(self, k):
        return mk('init', mk('fld', self.loc, self.n.index(k), k, 0))


def find_owner_account(x, A, key):
    """index terms i such that accounts[i].key equals key"""
    out = []
    ki = A.fi['key']
    for f, (k, v) in x.st.facts.items():
        if f.op == 'eq' and k == 'in' and v == frozenset({1}):
            for u, w in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if x.same(u, key) and w.op == 'init' and w.a[0].op == 'deref' and w.a[0].a[0].op == 'init':
                    l = w.a[0].a[0].a[0]
                    if l.op == 'fld' and l.a[1] == ki and l.a[0].op == 'idx' and l.a[0].a[0] is A.base:
                        out.append(l.a[0].a[1])
    return out


def check_c12(sp):
    dex = sp.dex
    seen = {}
    for v, h in units(sp, list(CONSUME)):
        A = h.A
        mi = add(A.len, I(-CONSUME[v]))
        qi = add(mi, ONE)
        q = A.queue(qi, 'EventQueueHeader')
        bad_seen = 0
        for n, (fr, bb, st, suf, mark) in enumerate(h.trs):
            x = View(h.e, st)
            if x.infeasible():
                continue
            w = '%s iteration %d' % (v, n)
            lg = [l for l in suf if l.op != 'loop']
            pops = [l for l in lg if l.op == 'pop']
            sp.oblige('R1 exactly one event is removed', w, len(pops) == 1 and pops[0].a[0] is q, lambda: [sh(l, 200) for l in lg])
            sp.oblige('R1 no other effect', w, len(lg) == len(pops), lambda: [sh(l, 200) for l in lg])
            if len(pops) != 1:
                continue
            E = Ev(dex, q, mk('ver', 0, mark))
            consumed(sp, v, h, x, st, st.pre, E, mi, w, seen)
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            suf = x.st.log
            for i in range(len(suf) - 1, -1, -1):
                if suf[i].op == 'loop':
                    suf = suf[i + 1:]
                    break
            if x.infeasible():
                continue
            sp.oblige('R7 stopping leaves the event queued', w, not suf, lambda: [sh(l, 200) for l in suf])
            if x.st.pre is not None:
                ch = real_changes(x, x.st.pre)
                sp.oblige('R7 stopping changes nothing', w, not ch, lambda: [sh(c, 200) for c in ch])
    for k in ('fill maker bid', 'fill maker ask', 'fill taker bid', 'fill taker ask', 'out release bid', 'out release ask', 'out keep bid', 'out keep ask', 'freed', 'kept slot'):
        sp.floor('event cases: ' + k, seen.get(k, 0), 2)


def real_changes(x, pre):
    """locations of account memory whose value differs between the two states"""
    y = View(x.e, pre)
    out = []
    for r, v in x.st.mem.items():
        if not rooted(r):
            continue
        if pre.mem.get(r) is v:
            continue
        if x.st is not pre:
            a = diff_leaves(x.e.read(x.st, r), x.e.read(pre, r), r)
            out.extend(a)
    return out


def rooted(r):
    """memory that belongs to an account (not a local of the analysis)"""
    while r.op in ('fld', 'idx', 'view', 'deref', 'one', 'init', 'slot', 'node', 'bsub', 'loan'):
        r = r.a[0]
    return r.op == 'arg'


def diff_leaves(a, b, r):
    if a is b:
        return []
    if a.op == 'upd' and (a.a[0] is b or b.op == 'upd' and a.a[0] is b.a[0]):
        old = dict(b.a[1]) if b.op == 'upd' else {}
        out = []
        for k, c in a.a[1]:
            if old.get(k) is not c and not header_byte(k, c):
                out.append(mk('changed', r, str(k)))
        return out
    return [r]


MARK = (b'serum', b'padding')


def header_byte(k, c):
    return k[0] == 'i' and is_int(c) and c.a[0] in b'serumpadding'


def consumed(sp, v, h, x, st, pre, E, mi, w, seen):
    dex, A = sp.dex, h.A
    fl = x.values(E.event_flags, range(256))
    one = lambda b: (all(f & b for f in fl), not any(f & b for f in fl))
    idx = find_owner_account(x, A, E.owner)
    sp.oblige('R2 the account is the one the event names', w, len(set(idx)) == 1, lambda: 'accounts found by key: %s' % [sh(i, 100) for i in idx])
    if not idx:
        return
    o = idx[0]
    sp.oblige('R2 listed account', w, x.lt(o, mi) is True, 'index not bounded by the account list')
    sp.oblige('R2 program-owned', w, x.same(A.owner(o), PROG), '')
    fv = flag_values(x, A, o, OO)
    sp.oblige('R2 initialised open-orders account', w, fv == {5}, lambda: sorted(fv)[:8])
    sp.oblige('R2 of this market', w, x.same(A.oo(o, 'market'), A.m(mi, 'own_address')), '')
    slot = E.owner_slot
    sp.oblige('R3 slot in range', w, x.lt(slot, I(128)) is True, '')
    sp.oblige('R3 slot occupied', w, bit_known(x, A.oo(o, 'free_slot_bits'), slot) == 0, '')
    isb, isa = one(BID)
    sp.oblige('R3 side known', w, isb or isa, '')
    if not (isb or isa):
        return
    kb = bit_known(x, A.oo(o, 'is_bid_bits'), slot)
    sp.oblige('R3 slot holds an order of that side', w, kb == (1 if isb else 0), 'recorded side not compared with the event')
    ord_ = mk('init', mk('idx', A.f(o, OO, 'orders'), slot))
    sp.oblige('R3 slot holds that order', w, x.same(ord_, E.order_id), 'order id not compared')
    fill, nfill = one(FILL)
    if not (fill or nfill):
        sp.oblige('R3 fill or out known', w, False, sorted(fl)[:8])
        return
    B = lambda f: A.oo(o, f)
    exp = {}
    if fill:
        mk_, tk = one(MAKER)
        if not (mk_ or tk):
            sp.oblige('R3 maker or taker known', w, False, sorted(fl)[:8])
            return
        seen_key = 'fill %s %s' % ('maker' if mk_ else 'taker', 'bid' if isb else 'ask')
        if tk:
            exp = {'referrer_rebates_accrued': add(B('referrer_rebates_accrued'), mk('call', 'referrer_rebate', E.native_fee_or_rebate))}
        elif isb:
            exp = {'native_pc_total': sub(B('native_pc_total'), E.native_qty_paid),
                   'native_coin_total': add(B('native_coin_total'), E.native_qty_released),
                   'native_coin_free': add(B('native_coin_free'), E.native_qty_released),
                   'native_pc_free': add(B('native_pc_free'), E.native_fee_or_rebate)}
        else:
            exp = {'native_coin_total': sub(B('native_coin_total'), E.native_qty_paid),
                   'native_pc_total': add(B('native_pc_total'), E.native_qty_released),
                   'native_pc_free': add(B('native_pc_free'), E.native_qty_released)}
        expect_fields(sp, 'R4 fill', w, x, A.view(o, OO), OO, exp, dex)
        seen[seen_key] = seen.get(seen_key, 0) + 1
    else:
        rel, nrel = one(REL)
        if not (rel or nrel):
            # both allowed only if the outcome does not depend on it
            sp.oblige('R3 release flag known', w, x.eqv(E.native_qty_released, ZERO), sorted(fl)[:8])
            nrel = True
        f = 'native_pc_free' if isb else 'native_coin_free'
        tot = 'native_pc_total' if isb else 'native_coin_total'
        new = add(B(f), E.native_qty_released) if rel else B(f)
        exp = {f: new}
        full = x.is0(E.native_qty_paid)
        part = x.nz(E.native_qty_paid)
        if not (full or part):
            sp.oblige('R5 completely out or not known', w, False, '')
            return
        if full:
            fb, bb = B('free_slot_bits'), B('is_bid_bits')
            exp['free_slot_bits'] = lambda z: bits_ok(x, z, fb, slot, 1, 0)
            exp['is_bid_bits'] = lambda z: bits_ok(x, z, bb, slot, 0, kb)
            exp['orders'] = lambda z: arr_ok(x, z, B('orders'), slot, ZERO)
            exp['client_order_ids'] = lambda z: arr_ok(x, z, B('client_order_ids'), slot, ZERO)
        expect_fields(sp, 'R5 out', w, x, A.view(o, OO), OO, exp, dex)
        sp.oblige('R5 free never exceeds total', w, x.lt(B(tot), new) is False, 'free <= total not established')
        k = 'out %s %s' % ('release' if rel else 'keep', 'bid' if isb else 'ask')
        seen[k] = seen.get(k, 0) + 1
        k = 'freed' if full else 'kept slot'
        seen[k] = seen.get(k, 0) + 1
    # nothing else is written
    ok_root = A.view(o, OO)
    ch = [c for c in real_changes(x, pre) if not (c is ok_root or c.op == 'changed' and c.a[0] is ok_root)]
    sp.oblige('R6 only the named account changes', w, not ch, lambda: [sh(c, 200) for c in ch])


CHECKS = {'C12': check_c12}
