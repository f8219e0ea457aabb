"""C04 settlement, C05 order funding, C06 send-take, C16 open-orders closing, C25 expiry/validity."""
from spec import *
from access import units, hexit, flag_values, seeded, UNIV

OO = 'state::OpenOrders'
MS = 'state::MarketState'


def side_of(x, term=None):
    """'Bid'/'Ask' when the outcome fixes the order side"""
    t = mk('discr', term if term is not None else mk('arg', 'ix.side'))
    f = x.st.facts.get(t)
    if f and f[0] == 'in' and len(f[1]) == 1:
        return ('Bid', 'Ask')[next(iter(f[1]))]
    return None


def proc(n):
    return mk('proc', n, 0)


def mdelta(n):
    return mk('mdelta', n, 0)


def check_c04(sp):
    dex = sp.dex
    refs = 0
    for v, h in units(sp, ['SettleFunds']):
        A = h.A
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            cf, pf, rr = A.oo(1, 'native_coin_free'), A.oo(1, 'native_pc_free'), A.oo(1, 'referrer_rebates_accrued')
            with_ref = h.e.lookup(x.st, A.len) == 10
            refs += with_ref
            exp = [(A.key(3), A.key(5), cf, A.key(7), True), (A.key(4), A.key(6), pf, A.key(7), True)]
            if with_ref:
                exp.append((A.key(4), A.key(9), rr, A.key(7), True))
            match_transfers(sp, 'R1 payout', w, x, exp, seeds_of(A, 0))
            z = lambda t, d: sub(t, d)
            expect_fields(sp, 'R2 user balance', w, x, A.view(1, OO), OO, {
                'native_coin_free': ZERO, 'native_pc_free': ZERO, 'referrer_rebates_accrued': ZERO,
                'native_coin_total': sub(A.oo(1, 'native_coin_total'), cf),
                'native_pc_total': sub(A.oo(1, 'native_pc_total'), pf)}, dex)
            m = {'coin_deposits_total': sub(A.m(0, 'coin_deposits_total'), cf),
                 'pc_deposits_total': sub(A.m(0, 'pc_deposits_total'), pf),
                 'referrer_rebates_accrued': sub(A.m(0, 'referrer_rebates_accrued'), rr)}
            if not with_ref:
                m['pc_fees_accrued'] = add(A.m(0, 'pc_fees_accrued'), rr)
            expect_fields(sp, 'R3 market totals', w, x, A.view(0, MS), MS, m, dex)
            sp.oblige('R4 never pays more than the total', w, x.lt(A.oo(1, 'native_coin_total'), cf) is False and x.lt(A.oo(1, 'native_pc_total'), pf) is False, 'free <= total not established')
            sp.oblige('R5 book untouched', w, not [l for l in x.st.log if l.op in ('push', 'insert', 'remove', 'match', 'pop')])
    sp.floor('settlements with referrer', refs, 1)
    # no other instruction moves tokens out of a vault, except send-take and fee sweeping (C06, C10)
    allowed = {'SettleFunds', 'SendTake', 'SweepFees'}
    for v in ('NewOrderV3', 'CancelOrderV2', 'CancelOrderByClientIdV2', 'CancelOrdersByClientIds', 'DisableMarket', 'CloseOpenOrders', 'InitOpenOrders', 'Prune', 'ConsumeEvents', 'ConsumeEventsPermissioned', 'InitializeMarket'):
        h = handler(dex, v)
        sp.count(v, **h.stats())
        logs = [(hexit(h, n, x), x.st.log) for n, x in enumerate(h.ok)] + [('%s loop' % v, t[3]) for t in h.trs]
        bad = [(w, l) for w, lg in logs for l in lg if l.op == 'invoke' and seeded(l)]
        sp.oblige('R6 no vault-signed transfer', v, not bad, lambda: '%s: %s' % (bad[0][0], sh(bad[0][1])))


def fresh(x, A, i):
    return flag_values(x, A, i, OO) == {0}


def base(x, A, i, f, fr):
    return ZERO if fr else A.oo(i, f)


def vault_amount(A, i, epoch):
    return mk('le', mk('bsub', A.data(i), I(64), I(8), 1, epoch), 64)


def deposit_verified(x, A, vault, amt):
    """the observed change of the vault balance equals amt"""
    for f, (k, s) in x.st.facts.items():
        if k != 'in' or f.op != 'poly':
            continue
        if s == frozenset({0}):
            ats = [(m, c) for m, c in f.a[0] if any(is_balance(z, A, vault) for z in m)]
            if len(ats) == 2 and {c for m, c in ats} == {1, -1} and all(len(m) == 1 for m, c in ats):
                ep = {c: m[0] for m, c in ats}
                e1, e0 = epoch_of(ep[-1]), epoch_of(ep[1])
                rest = sub(f, add(ep[1], scale(ep[-1], -1)))
                # amt + before - after == 0
                if e1 > e0 and x.eqv(rest, amt):
                    return True
                if e0 > e1 and x.eqv(scale(rest, -1), amt):
                    return True
    return False


def is_balance(z, A, i):
    return z.op == 'le' and z.a[0].op == 'bsub' and z.a[0].a[0] is A.data(i) and z.a[0].a[1] is I(64)


def epoch_of(z):
    return z.a[0].a[4]


def check_c05(sp):
    dex = sp.dex
    cnt = {'Bid': 0, 'Ask': 0, 'dep': 0, 'fresh': 0}
    for v, h in units(sp, ['NewOrderV3']):
        A = h.A
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            side = side_of(x)
            if not sp.oblige('R0 side known', w, side is not None, 'the outcome does not distinguish the order side'):
                continue
            fr = fresh(x, A, 1)
            cnt[side] += 1
            cnt['fresh'] += fr
            lot = A.m(0, 'coin_lot_size')
            B = lambda f: base(x, A, 1, f, fr)
            if side == 'Bid':
                lock = mk('arg', 'ix.max_native_pc_qty_including_fees')
                free = B('native_pc_free')
            else:
                lock = mul(mk('arg', 'ix.max_coin_qty'), lot)
                free = B('native_coin_free')
            used = mk('min', *sorted((lock, free), key=lambda z: z.id)) if free is not ZERO else ZERO
            used = x.norm(h.e.binmin(x.st, lock, free)) if hasattr(h.e, 'binmin') else used
            dep = sub(lock, used)
            bid = side == 'Bid'
            Z = ZERO
            cu, cc, cd = [mul(proc(k), lot) for k in ('coin_unlocked', 'coin_credit', 'coin_debit')]
            pu, pc, pd = [proc(k) for k in ('native_pc_unlocked', 'native_pc_credit', 'native_pc_debit')]
            exp = {
                'native_coin_free': add(add(sub(B('native_coin_free'), Z if bid else used), cu), cc),
                'native_coin_total': sub(add(add(B('native_coin_total'), Z if bid else dep), cc), cd),
                'native_pc_free': add(add(sub(B('native_pc_free'), used if bid else Z), pu), pc),
                'native_pc_total': sub(add(add(B('native_pc_total'), dep if bid else Z), pc), pd),
                'free_slot_bits': None, 'is_bid_bits': None, 'orders': None, 'client_order_ids': None}
            if fr:
                exp.update({'account_flags': None, 'market': None, 'owner': None})
            expect_fields(sp, 'R1 user balance', w, x, A.view(1, OO), OO, exp, dex)
            m = {'pc_fees_accrued': add(A.m(0, 'pc_fees_accrued'), mdelta('pc_fees_accrued')),
                 'referrer_rebates_accrued': add(A.m(0, 'referrer_rebates_accrued'), mdelta('referrer_rebates_accrued')),
                 'pc_deposits_total': add(add(A.m(0, 'pc_deposits_total'), mdelta('pc_deposits_total')), dep if bid else Z),
                 'coin_deposits_total': add(A.m(0, 'coin_deposits_total'), Z if bid else dep)}
            expect_fields(sp, 'R2 market totals', w, x, A.view(0, MS), MS, m, dex)
            vault = 9 if bid else 8
            match_transfers(sp, 'R3 deposit', w, x, [(A.key(6), A.key(vault), dep, A.key(7), False)], None)
            if transfers(x):
                cnt['dep'] += 1
                sp.oblige('R4 vault balance change verified', w, deposit_verified(x, A, vault, dep), 'the vault balance before/after the deposit is not compared with the amount')
            ft = x.read(A.f(1, OO, 'native_coin_total')), x.read(A.f(1, OO, 'native_coin_free'))
            sp.oblige('R5 free <= total (coin)', w, x.lt(*ft) is False or (is_int(ft[1]) and ft[1].a[0] == 0), lambda: sh(ft[1]))
            ft = x.read(A.f(1, OO, 'native_pc_total')), x.read(A.f(1, OO, 'native_pc_free'))
            sp.oblige('R5 free <= total (pc)', w, x.lt(*ft) is False, lambda: sh(ft[1]))
            # the request handed to matching is the order
            ms = [l for l in x.st.log if l.op == 'match']
            sp.oblige('R6 matched exactly once', w, len(ms) == 1, '%d matching calls' % len(ms))
            for l in ms:
                req_ok(sp, w, x, A, l, dex, side, owner=A.key(1), bids=4, asks=5, q=3, ot=mk('arg', 'ix.order_type'), stb=mk('arg', 'ix.self_trade_behavior'), reqq=2)
            rem = mk('remaining', 0)
    for k, f in (('Bid', 4), ('Ask', 4), ('dep', 4), ('fresh', 2)):
        sp.floor('new-order outcomes: ' + k, cnt[k], f)


def req_fields(dex, l):
    vi, v = dex.variant('state::RequestView', 'NewOrder')
    return dict(zip([f[0] for f in v['f']], l.a[0].a[1]))


def order_id(x, A, side, qpos, price):
    seq = mk('init', mk('fld', A.queue(qpos, 'state::RequestQueueHeader'), *A.d.field('state::RequestQueueHeader', 'next_seq_num'), 0))
    return seq


def req_ok(sp, w, x, A, l, dex, side, owner, bids, asks, q, ot, stb, reqq):
    f = req_fields(dex, l)
    e = x.e
    sp.oblige('R7 request side', w, side_is(f['side'], side), lambda: sh(f['side']))
    sp.oblige('R7 request quantity', w, x.same(f['max_coin_qty'], mk('arg', 'ix.max_coin_qty')), lambda: sh(f['max_coin_qty']))
    lk = f['native_pc_qty_locked']
    if side == 'Bid':
        ok = lk.op == 'agg' and lk.a[0][3] == 'Some' and x.same(lk.a[1][0], mk('arg', 'ix.max_native_pc_qty_including_fees'))
    else:
        ok = lk.op == 'agg' and lk.a[0][3] == 'None'
    sp.oblige('R7 request budget', w, ok, lambda: sh(lk))
    sp.oblige('R7 request type', w, enum_same(x, f['order_type'], ot), lambda: sh(f['order_type']))
    sp.oblige('R7 request self-trade behaviour', w, enum_same(x, f['self_trade_behavior'], stb), lambda: sh(f['self_trade_behavior']))
    sp.oblige('R7 request owner', w, x.same(f['owner'], owner), lambda: sh(f['owner']))
    sp.oblige('R7 books and queue', w, l.a[1] is mk('slab', A.data(bids)) and l.a[2] is mk('slab', A.data(asks)) and l.a[3] is A.view(0, MS) and l.a[4] is A.queue(q, 'state::EventQueueHeader'), lambda: [sh(z, 100) for z in l.a[1:5]])


def request_terms(sp):
    """the request handed to matching is the order of the instruction, term by term"""
    dex = sp.dex
    n = {}
    for v, h in units(sp, ['NewOrderV3', 'SendTake']):
        A = h.A
        for i, x in enumerate(h.ok):
            if x.infeasible():
                continue
            w = hexit(h, i, x)
            side = side_of(x)
            ms = [l for l in x.st.log if l.op == 'match']
            if not sp.oblige('Q0 one matching call with a known side', w, side is not None and len(ms) == 1):
                continue
            n[v, side] = n.get((v, side), 0) + 1
            l, f = ms[0], req_fields(dex, ms[0])
            c = f['client_order_id']
            if v == 'NewOrderV3':
                req_ok(sp, w, x, A, l, dex, side, owner=A.key(1), bids=4, asks=5, q=3, ot=mk('arg', 'ix.order_type'), stb=mk('arg', 'ix.self_trade_behavior'), reqq=2)
                z = mk('arg', 'ix.client_order_id')
                some = c.op == 'agg' and c.a[0][3] == 'Some'
                sp.oblige('Q1 request client id', w, (some and x.same(c.a[1][0], z)) or (c.op == 'agg' and c.a[0][3] == 'None' and x.is0(z)), lambda: sh(c, 200))
            else:
                req_ok(sp, w, x, A, l, dex, side, owner=mk('init', mk('deref', mk('arg', 'static:solana_program::system_program::ID'))), bids=3, asks=4, q=2,
                       ot=dex.enum_val('matching::OrderType', 'ImmediateOrCancel'), stb=dex.enum_val('instruction::SelfTradeBehavior', 'AbortTransaction'), reqq=1)
                sp.oblige('Q1 request client id', w, c.op == 'agg' and c.a[0][3] == 'None', lambda: sh(c, 200))
            sp.oblige('Q2 matching limit', w, l.a[5] is mk('arg', 'ix.limit'), lambda: sh(l.a[5]))
    for k in (('NewOrderV3', 'Bid'), ('NewOrderV3', 'Ask'), ('SendTake', 'Bid'), ('SendTake', 'Ask')):
        sp.floor('requests %s %s' % k, n.get(k, 0), 1)


def enum_same(x, t, want):
    """the field-less enum value t is `want` in this outcome"""
    if t is want:
        return True
    if t.op == 'agg' and want.op == 'agg':
        return t.a[0][1:] == want.a[0][1:]
    if want.op == 'agg':
        t, want = want, t
    if t.op == 'agg' and not t.a[1]:
        f = x.st.facts.get(mk('discr', want))
        return bool(f) and f[0] == 'in' and set(f[1]) == {t.a[0][2]}
    return False


def side_is(t, side):
    if t is mk('arg', 'ix.side'):
        return True
    return t.op == 'agg' and t.a[0][3] == side


def check_c06(sp):
    dex = sp.dex
    cnt = {'Bid': 0, 'Ask': 0, 'dep': 0}
    for v, h in units(sp, ['SendTake']):
        A = h.A
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            side = side_of(x)
            if not sp.oblige('R0 side known', w, side is not None):
                continue
            cnt[side] += 1
            lot = A.m(0, 'coin_lot_size')
            bid = side == 'Bid'
            if bid:
                dep, wd = proc('native_pc_debit'), mul(proc('coin_credit'), lot)
                exp = [(A.key(6), A.key(9), dep, A.key(7), False), (A.key(8), A.key(5), wd, A.key(11), True)]
            else:
                dep, wd = mul(proc('coin_debit'), lot), proc('native_pc_credit')
                exp = [(A.key(5), A.key(8), dep, A.key(7), False), (A.key(9), A.key(6), wd, A.key(11), True)]
            match_transfers(sp, 'R1 legs', w, x, exp, seeds_of(A, 0))
            if any(not seeded(t[5]) for t in transfers(x)):
                cnt['dep'] += 1
                sp.oblige('R2 vault balance change verified', w, deposit_verified(x, A, 9 if bid else 8, dep), 'deposit not verified against the vault balance')
            md = mdelta('pc_deposits_total')
            pcd = add(A.m(0, 'pc_deposits_total'), md)
            expect_fields(sp, 'R3 market totals', w, x, A.view(0, MS), MS, {
                'pc_deposits_total': add(pcd, dep) if bid else sub(pcd, wd),
                'coin_deposits_total': sub(A.m(0, 'coin_deposits_total'), wd) if bid else add(A.m(0, 'coin_deposits_total'), dep),
                'pc_fees_accrued': add(A.m(0, 'pc_fees_accrued'), mdelta('pc_fees_accrued')),
                'referrer_rebates_accrued': add(A.m(0, 'referrer_rebates_accrued'), mdelta('referrer_rebates_accrued'))}, dex)
            if bid:
                ok = x.lt(proc('coin_credit'), mk('arg', 'ix.min_coin_qty')) is False
                cov = x.lt(A.m(0, 'coin_deposits_total'), wd) is False
            else:
                ok = x.lt(proc('native_pc_credit'), mk('arg', 'ix.min_native_pc_qty')) is False
                cov = x.lt(add(pcd, ZERO), wd) is False or x.lt(pcd, wd) is False
            sp.oblige('R4 minimum fill honoured', w, ok, 'succeeds without comparing the fill with the requested minimum')
            sp.oblige('R5 withdrawal covered by deposits', w, cov or x.eqv(wd, ZERO), 'deposits_total >= withdrawal not established')
            ms = [l for l in x.st.log if l.op == 'match']
            sp.oblige('R6 matched exactly once', w, len(ms) == 1)
            for l in ms:
                req_ok(sp, w, x, A, l, dex, side, owner=mk('init', mk('deref', mk('arg', 'static:solana_program::system_program::ID'))), bids=3, asks=4, q=2,
                       ot=dex.enum_val('matching::OrderType', 'ImmediateOrCancel'), stb=dex.enum_val('instruction::SelfTradeBehavior', 'AbortTransaction'), reqq=1)
            sp.oblige('R7 no open orders touched', w, not [r for r in x.st.mem if r.op == 'view' and r.a[2].endswith('OpenOrders')])
            sp.oblige('R8 signer signed', w, x.nz(A.signer(7)))
    for k, f in (('Bid', 4), ('Ask', 4), ('dep', 4)):
        sp.floor('send-take outcomes: ' + k, cnt[k], f)


def check_c16(sp):
    dex = sp.dex
    full = (1 << 128) - 1
    for v, h in units(sp, ['CloseOpenOrders']):
        A = h.A
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            for f, val in (('free_slot_bits', full), ('native_coin_total', 0), ('native_pc_total', 0)):
                sp.oblige('R1 empty: ' + f, w, h.e.lookup(x.st, A.oo(0, f)) == val, 'closes without requiring %s == %s' % (f, val))
            src, dst = A.lamports(0), A.lamports(2)
            sv, dv = x.read(src), x.read(dst)
            sp.oblige('R2 no lamports left behind', w, x.eqv(sv, ZERO), lambda: sh(sv))
            sp.oblige('R3 lamports go to the destination', w, x.eqv(dv, add(mk('init', dst), mk('init', src))), lambda: sh(dv))
            fl = x.read(A.f(0, OO, 'account_flags'))
            good = is_int(fl) and not (fl.a[0] & ~0x7ff) and (fl.a[0] & 256) != 0 and fl.a[0] not in (0, 5)
            sp.oblige('R4 marked closed', w, good, lambda: 'account_flags := ' + sh(fl))
            sp.oblige('R5 no transfer', w, not transfers(x))
    # a closed account is refused by everything that uses open orders
    closed = 0
    for v, i in (('NewOrderV3', 1), ('CancelOrderV2', 3), ('CancelOrderByClientIdV2', 3), ('CancelOrdersByClientIds', 3), ('SettleFunds', 1), ('InitOpenOrders', 0), ('Prune', 4), ('CloseOpenOrders', 0)):
        h = handler(dex, v)
        sp.count(v, **h.stats())
        for n, x in enumerate(h.ok):
            fl = flag_values(x, h.A, i, OO)
            sp.oblige('R6 closed account refused', hexit(h, n, x), not any(f & 256 for f in fl), 'accepts flag words %s' % sorted(f for f in fl if f & 256)[:6])
            sp.oblige('R7 only empty or open-orders accounts accepted', hexit(h, n, x), fl and fl <= {0, 5} and len(fl) == 1, 'accepts flag words %s' % sorted(fl)[:6])
            if fl == {0}:
                fresh_ok(sp, h, n, x, i)
            elif fl == {5} and v == 'InitOpenOrders':
                ch = fields_of(x, dex, h.A.view(i, OO), OO)
                sp.oblige('R8 initialising twice changes nothing', hexit(h, n, x), not ch, lambda: sorted(ch))


def fresh_ok(sp, h, n, x, i):
    A, dex = h.A, sp.dex
    w = hexit(h, n, x)
    full = (1 << 128) - 1
    # on-the-fly creation requires rent exemption
    lam = [f for f, (k, s) in x.st.facts.items() if 'rent' in repr(f).lower() or A.lamports(i) in walk(f)]
    sp.oblige('R9 rent exempt', w, bool(lam), 'new open-orders account not checked for rent exemption')
    if h.variant == 'InitOpenOrders':
        expect_fields(sp, 'R10 initial state', w, x, A.view(i, OO), OO, {
            'account_flags': I(5), 'market': None, 'owner': None, 'native_coin_free': ZERO, 'native_coin_total': ZERO,
            'native_pc_free': ZERO, 'native_pc_total': ZERO, 'free_slot_bits': I(full)}, dex)


def check_c25(sp):
    dex = sp.dex
    n1 = n2 = 0
    for v, h in units(sp, ['NewOrderV3']):
        ts = mk('arg', 'ix.max_ts')
        mx = I((1 << 63) - 1)
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            if x.lt(ts, mx) is False or h.e.lookup(x.st, ts) == mx.a[0]:
                n1 += 1
                sp.oblige('R1 no expiry', w, True)
                continue
            ok = False
            for f, (k, s) in x.st.facts.items():
                if f.op == 'lt' and k == 'in' and s == frozenset({0}) and f.a[0] is ts and is_clock(f.a[1]):
                    ok = True
                if f.op == 'lt' and k == 'in' and s == frozenset({1}) and f.a[1] is ts and is_clock(f.a[0]):
                    ok = True
            n2 += ok
            sp.oblige('R2 not past its expiry', w, ok, 'order accepted without comparing its expiry with the cluster clock')
        sp.floor('orders without expiry', n1, 1)
        sp.floor('orders with expiry', n2, 1)
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            sp.oblige('R3 price non-zero', w, x.nz(mk('arg', 'ix.limit_price')))
            sp.oblige('R3 request queue empty', w, x.is0(mk('init', mk('fld', h.A.queue(2, 'state::RequestQueueHeader'), *dex.field('state::RequestQueueHeader', 'count'), 0))))
            l = [l for l in x.st.log if l.op == 'match'][0]
            sp.oblige('R4 matching limit', w, l.a[5] is mk('arg', 'ix.limit'), lambda: sh(l.a[5]))
    for v, h in units(sp, ['SendTake']):
        for n, x in enumerate(h.ok):
            l = [l for l in x.st.log if l.op == 'match'][0]
            sp.oblige('R4 matching limit', hexit(h, n, x), l.a[5] is mk('arg', 'ix.limit'), lambda: sh(l.a[5]))


def check_c25_all(sp):
    import matching
    check_c25(sp)
    matching.matching(sp)


def is_clock(t):
    s = show(t)
    return 'unix_timestamp' in s or 'lock' in s


CHECKS = {'C04': check_c04, 'C05': check_c05, 'C06': check_c06, 'C16': check_c16, 'C25': check_c25_all}
