"""C13 cancelling and pruning."""
from spec import *
from access import units, hexit
from events import bit_known, real_changes

OO = 'state::OpenOrders'
MS = 'state::MarketState'
OUT, BID = 2, 4
CANCEL = {'CancelOrderV2': (3, 5), 'CancelOrderByClientIdV2': (3, 5), 'CancelOrdersByClientIds': (3, 5), 'Prune': (4, 6)}


def last_segment(log):
    for i in range(len(log) - 1, -1, -1):
        if log[i].op == 'loop':
            return log[i + 1:]
    return log


def steps(h):
    for n, (fr, bb, st, suf, mark) in enumerate(h.trs):
        yield 'iteration %d' % n, View(h.e, st), [l for l in suf if l.op != 'loop'], st.pre, False
    for n, x in enumerate(h.ok):
        yield 'ok-exit %d' % n, x, list(last_segment(x.st.log)), pre_of(h.e, x.st), True
    # what happens between two loops
    for m, (mark, sts) in enumerate(h.e.head_entries.items()):
        for n, st in enumerate(sts):
            seg = list(last_segment(st.log))
            if not any(l.op in ('find_by', 'foreach') for l in seg):
                yield 'loop entry %d.%d' % (m, n), View(h.e, st), seg, pre_of(h.e, st), False


def pre_of(e, st):
    """the state at the loop head the last segment of the path starts from"""
    for l in reversed(st.log):
        if l.op == 'loop':
            return e.head_state.get(l) or st.pre
    return None


class Leaf:
    def __init__(self, dex, v):
        t = dex.type_by_path('critbit::LeafNode')
        self.n = [f[0] for f in t['v'][0]['f']]
        self.v = v

    def __getattr__(self, k):
        i = self.n.index(k)
        if self.v.op == 'agg':
            return self.v.a[1][i]
        return project(self.v, ('f', i, k, 0))


def collected_from(v, e=None):
    """slab a collected leaf was removed from: v is an element of the results of remove calls"""
    if e is not None and v.op == 'prj' and v.a[1][0] == 'i' and v.a[0] in e.vec_phis:
        out, hit = set(), 0
        for q in e.vec_phis[v.a[0]]:
            h = [r for r in e.removed if r.a[2] is q]
            hit += bool(h)
            out.update(r.a[0] for r in h)
            if not h:
                # the same push in the first pass over the loop
                s = {a.a[1] for a in walk(q) if a.op == 'leaf'}
                if len(s) != 1:
                    return None
                out |= s
        return out if hit else None
    if v.op != 'prj' or v.a[1][0] != 'i' or v.a[0].op not in ('collected', 'prj'):
        return None
    c = v.a[0]
    while c.op == 'prj':
        c = c.a[0]
    if c.op != 'collected':
        return None
    slabs = set()
    for a in walk(c):
        if a.op == 'remove':
            slabs.add(a.a[0])
    return slabs


def check_c13(sp):
    dex = sp.dex
    seen = {}
    for v, h in units(sp, list(CANCEL)):
        oi, ei = CANCEL[v]
        A = h.A
        q = A.queue(ei, 'EventQueueHeader')
        slabs = {mk('slab', A.data(1)): 'Bid', mk('slab', A.data(2)): 'Ask'}
        en = [f[0] for f in dex.type_by_path('state::Event')['v'][0]['f']]
        # removals of every step, to recognise orders that were removed first and are announced later
        h.e.removed = [l for _, _, lg, _, _ in steps(h) for l in lg if l.op == 'remove']
        h.e.kept = {id(val): val for _, val in h.vpushes}
        for w, x, lg, pre, isexit in steps(h):
            if x.infeasible():
                continue
            w = '%s %s' % (v, w)
            cancel_step(sp, h, v, oi, q, slabs, en, w, x, lg, pre, isexit, seen)
        if v == 'CancelOrdersByClientIds':
            selection(sp, h, v, oi)
    for v in CANCEL:
        for s in ('Bid', 'Ask'):
            sp.floor('%s %s cancellations' % (v, s), seen.get((v, s), 0), 1)


def cancel_step(sp, h, v, oi, q, slabs, en, w, x, lg, pre, isexit, seen):
    dex, A = sp.dex, h.A
    pre = pre if pre is not None else State0(x)
    y = View(h.e, pre)
    rem = [l for l in lg if l.op == 'remove']
    push = [l for l in lg if l.op == 'push']
    # removals made while a collection was built are accounted for when its elements are processed
    coll = [l for l in lg if l.op == 'collect']
    if rem and not push:
        rem = [l for l in rem if id(l.a[2]) not in h.e.kept]
    other = [l for l in lg if l.op not in ('remove', 'push', 'collect', 'msg', 'loop')]
    sp.oblige('R0 only removals and events', w, not other, lambda: [sh(l, 200) for l in other])
    sp.oblige('R1 at most one order per step', w, len(push) <= 1 and len(rem) <= 1, lambda: '%d removed, %d events' % (len(rem), len(push)))
    sp.oblige('R1 every removed order is announced', w, len(rem) <= len(push), lambda: '%d removed, %d events' % (len(rem), len(push)))
    if len(push) != 1:
        ch = real_changes(x, pre)
        sp.oblige('R2 no cancellation, no change', w, not ch, lambda: [sh(c, 200) for c in ch])
        if v in ('CancelOrderV2', 'CancelOrderByClientIdV2') and isexit:
            sp.oblige('R2 success means the order was cancelled', w, False, 'succeeds without cancelling')
        return
    if push[0].a[0] is not q or push[0].a[1].op != 'agg':
        sp.oblige('R3 event goes to the event queue', w, False, lambda: sh(push[0], 200))
        return
    p = dict(zip(en, push[0].a[1].a[1]))
    if rem:
        leaf = Leaf(dex, rem[0].a[2])
        slab, key = rem[0].a[0], rem[0].a[1]
    else:
        k = p['quantity' if 'quantity' in p else 'owner_slot']
        e = k.a[0] if k.op == 'prj' else None
        sl = collected_from(e, h.e) if e is not None else None
        if not sl or len(sl) != 1:
            sp.oblige('R3 the event is about an order just removed', w, False, lambda: sh(push[0], 300))
            return
        slab = next(iter(sl))
        leaf = Leaf(dex, e)
        key = leaf.key
    if slab not in slabs:
        sp.oblige('R3 removed from the book of this market', w, False, lambda: sh(slab))
        return
    side = slabs[slab]
    seen[v, side] = seen.get((v, side), 0) + 1
    slot = leaf.owner_slot
    sp.oblige('R4 the order belongs to the account', w, x.same(leaf.owner, A.key(oi)), 'owner of the order not compared with the account')
    B = lambda f: A.oo(oi, f)
    sp.oblige('R4 slot in range', w, x.lt(slot, I(128)) is True, '')
    sp.oblige('R4 slot occupied', w, bit_known(x, B('free_slot_bits'), slot) == 0, '')
    sp.oblige('R4 slot side', w, bit_known(x, B('is_bid_bits'), slot) == (1 if side == 'Bid' else 0), 'side of the slot not compared')
    oid = mk('init', mk('idx', A.f(oi, OO, 'orders'), slot))
    sp.oblige('R4 slot holds that order', w, x.same(oid, p['order_id']), 'order id not compared with the slot')
    if rem:
        sp.oblige('R4 slot holds the removed order', w, x.same(oid, key), 'removed key not compared with the slot')
    price = mk('trunc', mk('shr', leaf.key, I(64)), 64)
    amt = mul(mul(leaf.quantity, price), A.m(0, 'pc_lot_size')) if side == 'Bid' else mul(leaf.quantity, A.m(0, 'coin_lot_size'))
    if x.same(leaf.key, key) and leaf.key is not key:
        k2 = mk('trunc', mk('shr', key, I(64)), 64)
        amt = mul(mul(leaf.quantity, k2), A.m(0, 'pc_lot_size')) if side == 'Bid' else amt
    rd = lambda f: y.read(A.f(oi, OO, f))
    f = 'native_pc_free' if side == 'Bid' else 'native_coin_free'
    tot = 'native_pc_total' if side == 'Bid' else 'native_coin_total'
    t = dex.type_by_path(OO)
    for j, fd in enumerate(t['v'][0]['f']):
        loc = A.f(oi, OO, fd[0])
        a, b = y.read(loc), x.read(loc)
        e = add(a, amt) if fd[0] == f else a
        sp.oblige('R5 balance %s' % fd[0], w, b is e or x.eqv(b, e), lambda: '%s := %s, expected %s' % (fd[0], sh(b, 200), sh(e, 200)))
    sp.oblige('R5 free never exceeds total', w, x.lt(rd(tot), add(rd(f), amt)) is False, 'free <= total not established')
    fl = OUT | (BID if side == 'Bid' else 0)
    sp.oblige('R6 out event of that side, without a second release', w, p['event_flags'] is I(fl), lambda: sh(p['event_flags']))
    sp.oblige('R6 event amounts', w, x.eqv(p['native_qty_released'], amt) and x.eqv(p['native_qty_paid'], ZERO), lambda: '%s, %s' % (sh(p['native_qty_released'], 200), sh(p['native_qty_paid'], 100)))
    sp.oblige('R6 event identity', w, x.same(p['owner'], A.key(oi)) and x.eqv(p['owner_slot'], slot) and x.eqv(p['client_order_id'], leaf.client_order_id), lambda: '%s %s' % (sh(p['owner'], 100), sh(p['client_order_id'], 100)))
    root = A.view(oi, OO)
    ch = [c for c in real_changes(x, pre) if not (c is root or c.op == 'changed' and c.a[0] is root)]
    sp.oblige('R7 nothing else changes', w, not ch, lambda: [sh(c, 200) for c in ch])
    if v == 'CancelOrderV2':
        sd = x.e.lookup(x.st, mk('discr', mk('arg', 'ix.side')))
        sp.oblige('R8 the requested order', w, x.same(key, mk('arg', 'ix.order_id')) and sd == (0 if side == 'Bid' else 1), lambda: 'key %s side %s' % (sh(key, 100), sd))
    elif v == 'CancelOrderByClientIdV2':
        ok = False
        if key.op == 'init' and key.a[0].op == 'idx':
            s2 = key.a[0].a[1]
            cid = mk('init', mk('idx', A.f(oi, OO, 'client_order_ids'), s2))
            ok = key.a[0].a[0] is A.f(oi, OO, 'orders') and bit_known(x, B('free_slot_bits'), s2) == 0 and same_cid(x, cid)
        sp.oblige('R8 the order with the requested client id', w, ok, lambda: 'key %s' % sh(key, 200))


def same_cid(x, cid):
    """the client id of the slot equals the requested one (both sides may be wrapped in NonZero)"""
    want = {mk('arg', 'ix'), mk('arg', 'ix.0')}
    for f, (k, s) in x.st.facts.items():
        if f.op == 'eq' and k == 'in' and s == frozenset({1}) and cid in f.a[:2]:
            o = f.a[1] if f.a[0] is cid else f.a[0]
            if o in want or o.op in ('prj', 'init', 'arg') and 'ix' in show(o):
                return True
    return False


class _S:
    pass


def State0(x):
    s = x.st.copy()
    s.mem = {}
    return s


def selection(sp, h, v, oi):
    """orders collected for a multi-cancel carry a requested client id"""
    A = h.A
    n = 0
    for st, val in h.vpushes:
        if val.op != 'agg' or len(val.a[1]) != 2:
            continue
        x = View(h.e, st)
        if x.infeasible():
            continue
        n += 1
        oid, side = val.a[1]
        w = '%s selection %d' % (v, n)
        ok = oid.op == 'init' and oid.a[0].op == 'idx' and oid.a[0].a[0] is A.f(oi, OO, 'orders')
        sp.oblige('R9 selected from the slots of the account', w, ok, lambda: sh(oid, 200))
        if not ok:
            continue
        s2 = oid.a[0].a[1]
        cid = mk('init', mk('idx', A.f(oi, OO, 'client_order_ids'), s2))

        def ofix(t):
            # (an element of) the ids of the instruction, or a vector filled with nothing else
            while t.op in ('prj', 'subval'):
                t = t.a[0]
            if h.e.vec_phis.get(t):
                return all(ofix(z) for z in h.e.vec_phis[t])
            return any(z.op == 'arg' and str(z.a[0]).startswith('ix') for z in walk(t))
        hit = [f for f, (k, s) in st.facts.items() if f.op == 'contains' and x.nz(f) and x.same(f.a[1], cid) and ofix(f.a[0])]
        if not hit:
            # compared with one of the requested ids
            hit = [f for f, (k, s) in st.facts.items() if f.op == 'eq' and x.nz(f) and any(x.same(f.a[i], cid) and ofix(f.a[1 - i]) for i in (0, 1))]
        sp.oblige('R9 selected by a requested client id', w, bool(hit), 'client id not among the requested ones')
        kb = bit_known(x, A.oo(oi, 'is_bid_bits'), s2)
        sd = side.a[0][3] if side.op == 'agg' else None
        sp.oblige('R9 with its own side', w, bit_known(x, A.oo(oi, 'free_slot_bits'), s2) == 0 and kb is not None and sd == ('Bid' if kb else 'Ask'), lambda: '%s, bid bit %s' % (sd, kb))
    sp.count(v, selections=n)


CHECKS = {'C13': check_c13}
