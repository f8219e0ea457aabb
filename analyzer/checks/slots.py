"""C14 order slots, C09 order ids, C10 fee booking outside matching."""
from spec import *
from access import units, hexit
from funds import side_of, fresh, req_fields, proc, mdelta
from events import bits_ok, bit_known, arr_ok, Ev, find_owner_account, CONSUME
import matching

OO = 'state::OpenOrders'
MS = 'state::MarketState'
RQ = 'state::RequestQueueHeader'
SLOTF = ('free_slot_bits', 'is_bid_bits', 'orders', 'client_order_ids')
FRESH = {'free_slot_bits': I((1 << 128) - 1)}
ALL = ['NewOrderV3', 'SendTake', 'CancelOrderV2', 'CancelOrderByClientIdV2', 'CancelOrdersByClientIds', 'SettleFunds', 'DisableMarket', 'SweepFees', 'CloseOpenOrders', 'InitOpenOrders', 'Prune', 'ConsumeEvents', 'ConsumeEventsPermissioned']


def lin(t, small):
    """bit-packed words as sums: price << 64 | sequence"""
    if is_int(t):
        return t
    if t in small:
        return t
    if t.op == 'shl' and is_int(t.a[1]) and t.a[0] in small and t.a[1].a[0] == 64:
        return scale(t.a[0], 1 << 64)
    if t.op == 'bnot' and t.a[0] in small and (t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0]) == 64:
        return sub(I((1 << 64) - 1), t.a[0])
    if t.op in ('bor', 'bxor') and len(t.a) >= 2:
        a, b = lin(t.a[0], small), lin(t.a[1], small)
        if a is None or b is None:
            return None
        hi = [z for z in (a, b) if multiple(z)]
        lo = [z for z in (a, b) if not multiple(z)]
        if len(hi) == 1 and len(lo) == 1 and word(lo[0], small):
            return add(hi[0], lo[0])
        return None
    if t.op == 'poly':
        r = ZERO
        for m, c in t.a[0]:
            if not m:
                r = add(r, I(c))
            elif len(m) == 1:
                z = lin(m[0], small)
                if z is None:
                    return None
                r = add(r, scale(z, c))
            else:
                return None
        return r
    if t.op in ('zext', 'cast'):
        return lin(t.a[0], small)
    return None


def multiple(t):
    if t.op == 'poly':
        return all(c % (1 << 64) == 0 for m, c in t.a[0])
    return is_int(t) and t.a[0] % (1 << 64) == 0 and t.a[0] != 0


def word(t, small):
    """fits in 64 bits: a word or its complement"""
    return t in small or any(t is sub(I((1 << 64) - 1), s) for s in small)


def seq_loc(A, q):
    return mk('fld', A.queue(q, RQ), *A.d.field(RQ, 'next_seq_num'), 0)


def id_ok(x, A, t, side, price, q):
    seq = mk('init', seq_loc(A, q))
    want = add(scale(price, 1 << 64), sub(I((1 << 64) - 1), seq) if side == 'Bid' else seq)
    got = lin(t, {seq, price})
    return got is not None and got is want


def order_ids(sp):
    """C09: every order id is price above a fresh sequence number"""
    dex = sp.dex
    n = {}
    for v, q in (('NewOrderV3', 2), ('SendTake', 1)):
        h = handler(dex, v)
        sp.count(v, **h.stats())
        A = h.A
        for i, x in enumerate(h.ok):
            if x.infeasible():
                continue
            w = hexit(h, i, x)
            side = side_of(x)
            sp.oblige('I0 side known', w, side is not None)
            if side is None:
                continue
            for l in [l for l in x.st.log if l.op == 'match']:
                f = req_fields(dex, l)
                n[v, side] = n.get((v, side), 0) + 1
                sp.oblige('I1 order id is price over sequence number', w, id_ok(x, A, f['order_id'], side, mk('arg', 'ix.limit_price'), q), lambda: sh(f['order_id'], 300))
            l = seq_loc(A, q)
            sp.oblige('I2 the sequence number advances', w, x.read(l) is add(mk('init', l), ONE), lambda: sh(x.read(l), 200))
    for v in ALL:
        if v in ('NewOrderV3', 'SendTake'):
            continue
        h = handler(dex, v)
        bad = []
        for st in [x.st for x in h.ok] + [t[2] for t in h.trs]:
            for r in st.mem:
                if 'RequestQueueHeader' in show(r)[:400] and st.mem[r] is not mk('init', r):
                    bad.append(r)
        sp.oblige('I3 nobody else touches the sequence number', v, not bad, lambda: sh(bad[0], 200))
    for k in (('NewOrderV3', 'Bid'), ('NewOrderV3', 'Ask'), ('SendTake', 'Bid'), ('SendTake', 'Ask')):
        sp.floor('order ids %s %s' % k, n.get(k, 0), 1)


def check_c09(sp):
    matching.matching(sp)
    order_ids(sp)


def oo_views(st, pre, A):
    """open-orders overlays changed between two states"""
    t = A.d.type_by_path(OO)
    out = []
    for r, v in st.mem.items():
        if r.op == 'view' and r.a[2] == t['s'] and (pre is None or pre.mem.get(r) is not v):
            out.append(r)
    return out


def slot_changes(h, A, st, pre):
    t = A.d.type_by_path(OO)
    names = [f[0] for f in t['v'][0]['f']]
    x = View(h.e, st)
    out = []
    for r in oo_views(st, pre, A):
        for k in SLOTF:
            loc = mk('fld', r, names.index(k), k, 0)
            b = x.e.read(st, loc)
            a = x.e.read(pre, loc) if pre is not None else mk('init', loc)
            if a is not b:
                out.append((r, k, a, b))
    return out


def check_c14(sp):
    dex = sp.dex
    cnt = {'Bid': 0, 'Ask': 0, 'fresh': 0, 'release': 0, 'cid': 0}
    for v, h in units(sp, ['NewOrderV3']):
        A = h.A
        for n, x in enumerate(h.ok):
            if x.infeasible():
                continue
            w = hexit(h, n, x)
            side = side_of(x)
            if not sp.oblige('R0 side known', w, side is not None):
                continue
            fr = fresh(x, A, 1)
            cnt[side] += 1
            cnt['fresh'] += fr
            ms = [l for l in x.st.log if l.op == 'match']
            if not sp.oblige('R0 one matching call', w, len(ms) == 1):
                continue
            f = req_fields(dex, ms[0])
            slot = f['owner_slot']
            B = lambda k: FRESH[k] if fr and k in FRESH else A.oo(1, k)
            P = lambda k: x.read(A.f(1, OO, k))
            base = B('free_slot_bits')
            sp.oblige('R1 a free slot is taken', w, bit_known(x, base, slot) == 1, lambda: 'slot %s of %s' % (sh(slot, 150), sh(base, 100)))
            sp.oblige('R1 the slot is marked used, no other', w, bits_ok(x, P('free_slot_bits'), base, slot, 0, 1), lambda: sh(P('free_slot_bits'), 300))
            sp.oblige('R2 the slot records the side', w, bits_ok(x, P('is_bid_bits'), A.oo(1, 'is_bid_bits'), slot, 1 if side == 'Bid' else 0), lambda: sh(P('is_bid_bits'), 300))
            sp.oblige('R2 the slot records the order id', w, arr_ok(x, P('orders'), A.oo(1, 'orders'), slot, f['order_id']), lambda: sh(P('orders'), 300))
            sp.oblige('R2 the slot records the client id', w, arr_ok(x, P('client_order_ids'), A.oo(1, 'client_order_ids'), slot, mk('arg', 'ix.client_order_id')), lambda: sh(P('client_order_ids'), 300))
            c = f['client_order_id']
            z = mk('arg', 'ix.client_order_id')
            some = c.op == 'agg' and c.a[0][3] == 'Some'
            cnt['cid'] += some
            sp.oblige('R3 the order carries the client id', w, (some and x.same(c.a[1][0], z)) or (c.op == 'agg' and c.a[0][3] == 'None' and x.is0(z)), lambda: sh(c, 200))
    # slots change in no other instruction, except that consuming an out event releases one
    for v in ALL:
        if v == 'NewOrderV3':
            continue
        h = handler(dex, v)
        sp.count(v, **h.stats())
        A = h.A
        segs = [('iteration %d' % i, t[2], t[4]) for i, t in enumerate(h.trs)] + [('ok-exit %d' % i, x.st, None) for i, x in enumerate(h.ok)]
        for nm, st, mark in segs:
            if View(h.e, st).infeasible():
                continue
            w = '%s %s' % (v, nm)
            ch = slot_changes(h, A, st, st.pre)
            if v in CONSUME and mark is not None and ch:
                cnt['release'] += 1
                release(sp, dex, h, A, v, w, st, mark, ch)
                continue
            if v == 'InitOpenOrders':
                ch = [c for c in ch if not (c[1] in FRESH and c[3] is FRESH[c[1]])]
            if v == 'CloseOpenOrders':
                ch = [c for c in ch if c[0] is not A.view(0, OO)]
            sp.oblige('R4 slots are left alone', w, not ch, lambda: ['%s := %s' % (k, sh(b, 150)) for r, k, a, b in ch])
    for k, least in (('Bid', 4), ('Ask', 4), ('fresh', 2), ('release', 4), ('cid', 2)):
        sp.floor('slot cases: ' + k, cnt[k], least)


def release(sp, dex, h, A, v, w, st, mark, ch):
    x = View(h.e, st)
    mi = add(A.len, I(-CONSUME[v]))
    E = Ev(dex, A.queue(add(mi, ONE), 'EventQueueHeader'), mk('ver', 0, mark))
    fl = x.values(E.event_flags, range(256))
    sp.oblige('R5 never released by a fill', w, fl and not any(f & 1 for f in fl), lambda: sorted(fl)[:6])
    sp.oblige('R5 released only when nothing stays locked', w, x.is0(E.native_qty_paid), 'slot released while the order still locks funds')
    idx = find_owner_account(x, A, E.owner)
    views = {A.view(i, OO): i for i in idx}
    got = {}
    for r, k, a, b in ch:
        if r not in views:
            sp.oblige('R5 released in the owner\'s account', w, False, lambda: sh(r, 200))
            return
        got[k] = (views[r], a, b)
    sp.oblige('R6 slot, id, side and client id are all cleared', w, set(got) == set(SLOTF), lambda: sorted(got))
    for k, (i, a, b) in got.items():
        if k == 'free_slot_bits':
            ok = bits_ok(x, b, a, E.owner_slot, 1, bit_known(x, a, E.owner_slot))
        elif k == 'is_bid_bits':
            ok = bits_ok(x, b, a, E.owner_slot, 0, bit_known(x, a, E.owner_slot))
        else:
            ok = arr_ok(x, b, a, E.owner_slot, ZERO)
        sp.oblige('R6 ' + k, w, ok, lambda: sh(b, 200))


def check_c10(sp):
    dex = sp.dex
    matching.matching(sp)
    n = 0
    for v, h in units(sp, ['SweepFees']):
        A = h.A
        for i, x in enumerate(h.ok):
            w = hexit(h, i, x)
            n += 1
            fees = A.m(0, 'pc_fees_accrued')
            match_transfers(sp, 'S1 sweep', w, x, [(A.key(1), A.key(3), fees, A.key(4), True)], seeds_of(A, 0))
            expect_fields(sp, 'S2 market', w, x, A.view(0, MS), MS, {'pc_fees_accrued': ZERO}, dex)
    sp.floor('sweeps', n, 1)
    for v in ALL:
        if v == 'SweepFees':
            continue
        h = handler(dex, v)
        sp.count(v, **h.stats())
        A = h.A
        mi = {'CloseOpenOrders': 3, 'InitOpenOrders': 2}.get(v, 0)
        if v in CONSUME:
            mi = add(A.len, I(-CONSUME[v]))
        for i, x in enumerate(h.ok):
            if x.infeasible():
                continue
            w = hexit(h, i, x)
            for k in ('pc_fees_accrued', 'referrer_rebates_accrued'):
                l = A.f(mi, MS, k)
                b = x.read(l)
                e = mk('init', l)
                if v in ('NewOrderV3', 'SendTake'):
                    e = add(e, mdelta(k))
                elif v == 'SettleFunds':
                    rr = A.oo(1, 'referrer_rebates_accrued')
                    if k == 'referrer_rebates_accrued':
                        e = sub(e, rr)
                    elif h.e.lookup(x.st, A.len) != 10:
                        e = add(e, rr)
                sp.oblige('S3 %s changes only by matching, settling and sweeping' % k, w, x.eqv(b, e), lambda: '%s, expected %s' % (sh(b, 150), sh(e, 150)))
        for i, t in enumerate(h.trs):
            x = View(h.e, t[2])
            for k in ('pc_fees_accrued', 'referrer_rebates_accrued'):
                l = A.f(mi, MS, k)
                a, b = x.e.read(t[2].pre, l), x.read(l)
                sp.oblige('S3 %s changes only by matching, settling and sweeping' % k, '%s iteration %d' % (v, i), a is b or x.eqv(a, b), lambda: sh(b, 150))


CHECKS = {'C14': check_c14, 'C09': check_c09, 'C10': check_c10}
