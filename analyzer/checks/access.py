"""C01 owner authority, C02 privileged operations, C03 account binding, C15 disabled markets."""
from spec import *

# account positions of each instruction's interface (public ABI)
OWNED = {  # variant: (open orders, signer, market, may be created on the fly)
    'NewOrderV3': (1, 7, 0, True),
    'CancelOrderV2': (3, 4, 0, False),
    'CancelOrderByClientIdV2': (3, 4, 0, False),
    'CancelOrdersByClientIds': (3, 4, 0, False),
    'SettleFunds': (1, 2, 0, False),
    'CloseOpenOrders': (0, 1, 3, False),
    'InitOpenOrders': (0, 1, 2, True),
}
MARKET = {'NewOrderV3': 0, 'SendTake': 0, 'CancelOrderV2': 0, 'CancelOrderByClientIdV2': 0, 'CancelOrdersByClientIds': 0,
          'SettleFunds': 0, 'DisableMarket': 0, 'SweepFees': 0, 'CloseOpenOrders': 3, 'InitOpenOrders': 2, 'Prune': 0,
          'ConsumeEvents': -4, 'ConsumeEventsPermissioned': -3}
DISABLED_OK = {'CancelOrderV2', 'CancelOrderByClientIdV2', 'CancelOrdersByClientIds', 'SettleFunds', 'CloseOpenOrders',
               'ConsumeEvents', 'ConsumeEventsPermissioned'}
LIVE_ONLY = {'NewOrderV3', 'SendTake', 'DisableMarket', 'SweepFees', 'InitOpenOrders', 'Prune'}

ROLES = {  # variant: {role: position}
    'NewOrderV3': {'req_q': 2, 'event_q': 3, 'bids': 4, 'asks': 5, 'coin_vault': 8, 'pc_vault': 9, 'spl': 10, 'payer': 6},
    'SendTake': {'req_q': 1, 'event_q': 2, 'bids': 3, 'asks': 4, 'coin_wallet': 5, 'pc_wallet': 6, 'coin_vault': 8, 'pc_vault': 9, 'spl': 10, 'vault_signer': 11},
    'CancelOrderV2': {'bids': 1, 'asks': 2, 'event_q': 5},
    'CancelOrderByClientIdV2': {'bids': 1, 'asks': 2, 'event_q': 5},
    'CancelOrdersByClientIds': {'bids': 1, 'asks': 2, 'event_q': 5},
    'SettleFunds': {'coin_vault': 3, 'pc_vault': 4, 'coin_wallet': 5, 'pc_wallet': 6, 'vault_signer': 7, 'spl': 8},
    'SweepFees': {'pc_vault': 1, 'pc_wallet': 3, 'vault_signer': 4, 'spl': 5},
    'Prune': {'bids': 1, 'asks': 2, 'event_q': 6},
    'ConsumeEvents': {'event_q': -3},
    'ConsumeEventsPermissioned': {'event_q': -2},
}
QFLAG = {'req_q': ('state::RequestQueueHeader', 9), 'event_q': ('state::EventQueueHeader', 17),
         'bids': ('matching::OrderBookState', 33), 'asks': ('matching::OrderBookState', 65)}
ALL = list(MARKET)


def pos(A, i):
    return i if i >= 0 else add(A.len, I(i))


UNIV = list(range(0, 4096)) + [1 << 63]


def flag_values(x, A, i, tname, header=False):
    """possible values of the flag word of account i"""
    d = A.data(i)
    if header:
        t = [mk('init', mk('fld', mk('idx', mk('one', A.view(i, tname)), ZERO), 0, 'account_flags', 0))]
    else:
        t = [mk('init', A.f(i, tname, 'account_flags'))]
    al = [mk('le', mk('bsub', d, I(5), I(8), 1, 0), 64)]
    # any other overlay that starts with the same word
    for f in x.st.facts:
        for w in walk(f):
            if w.op == 'init' and w.a[0].op == 'fld' and w.a[0].a[1] == 0 and w.a[0].a[2] == 'account_flags':
                b = w.a[0].a[0]
                while b.op in ('idx', 'one'):
                    b = b.a[0]
                if b.op == 'view' and b.a[0] is d and b.a[1] is I(5):
                    al.append(w)
    return x.values(t[0], UNIV, al)


def hexit(h, n, x):
    return '%s ok-exit %d' % (h.variant, n)


def units(sp, variants):
    for v in variants:
        h = handler(sp.dex, v)
        sp.count(v, **h.stats())
        sp.oblige('instruction reachable', v, len(h.ok) > 0, 'no successful outcome found')
        yield v, h


def check_c01(sp):
    dex = sp.dex
    for v, h in units(sp, OWNED):
        o, s, m, fresh = OWNED[v]
        A = h.A
        nf = 0
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            sp.oblige('R1 owner signed', w, x.nz(A.signer(s)), 'account %d is not required to sign' % s)
            fl = flag_values(x, A, o, 'state::OpenOrders')
            if fl == {0} and fresh:
                nf += 1
                own = x.read(A.f(o, 'state::OpenOrders', 'owner'))
                sp.oblige('R2 fresh account bound to signer', w, x.same(own, A.key(s)), lambda: 'owner := ' + sh(own))
                mk_ = x.read(A.f(o, 'state::OpenOrders', 'market'))
                sp.oblige('R2m fresh account bound to market', w, x.same(mk_, A.m(m, 'own_address')), lambda: 'market := ' + sh(mk_))
            else:
                sp.oblige('R3 existing account owned by signer', w, x.same(A.oo(o, 'owner'), A.key(s)),
                          lambda: 'owner of open-orders account %d not compared with signer %d (flags %s)' % (o, s, sorted(fl)[:8]))
                own = x.read(A.f(o, 'state::OpenOrders', 'owner'))
                sp.oblige('R4 owner never reassigned', w, x.same(own, A.oo(o, 'owner')), lambda: 'owner := ' + sh(own))
        if fresh:
            sp.floor('%s: exits creating the account' % v, nf, 1)
    # replace = cancel + new through the same checked parsers and handlers
    cb = callbacks(dex)
    for v in ('ReplaceOrderByClientId', 'ReplaceOrdersByClientIds'):
        h = handler(dex, v)
        sp.count(v, **h.stats())
        for n, x in enumerate(h.ok):
            log = [l for l in x.st.log if l.op != 'loop']
            sp.oblige('R5 replace delegates to cancel', hexit(h, n, x), len([l for l in log if l.op == 'sub_cancel']) == 1 and all(l.op in ('sub_cancel', 'sub_new') for l in log), lambda: [sh(l, 100) for l in log])
            for l in log:
                sp.oblige('R6 same handler', hexit(h, n, x), l.a[-1] is cb.get(l.op), lambda: sh(l.a[-1]))
                if l.op == 'sub_new':
                    sp.oblige('R7 order placed with the caller\'s accounts', hexit(h, n, x), l.a[2] is mk('arg', 'accounts'), lambda: sh(l.a[2]))
        for fr, bb, st, suf, mark in h.trs:
            for l in suf:
                if l.op == 'sub_new':
                    sp.oblige('R6 same handler', v + ' loop', l.a[-1] is cb.get('sub_new'), lambda: sh(l.a[-1]))
                    sp.oblige('R7 order placed with the caller\'s accounts', v + ' loop', l.a[2] is mk('arg', 'accounts'), lambda: sh(l.a[2]))
                elif l.op in ('invoke', 'push', 'insert', 'remove', 'sub_cancel'):
                    sp.fail('R5 replace delegates', v + ' loop', sh(l))
    # deposits are authorised by a signer of the transaction
    for v, s in (('NewOrderV3', 7), ('SendTake', 7)):
        h = handler(dex, v)
        for n, x in enumerate(h.ok):
            for l in x.st.log:
                if l.op == 'invoke' and not seeded(l):
                    tr = l.a[0]
                    sp.oblige('R8 deposit under signer authority', hexit(h, n, x),
                              tr.op == 'spl_transfer' and x.same(tr.a[3], h.A.key(s)) and x.nz(h.A.signer(s)), lambda: sh(tr))


def seeded(l):
    s = l.a[2]
    return not (s.op == 'list' and len(s.a) == 0)


def callbacks(dex):
    c = dex.cache.get('callbacks')
    if c is None:
        c = {}

        def cap(tag):
            def hh(eng, cc, st):
                c[tag] = eng.deepval(st, cc.args[-1])
                return None
            return hh
        for v, tag, nm in (('CancelOrdersByClientIds', 'sub_cancel', 'CancelOrdersByClientIdsArgs'), ('NewOrderV3', 'sub_new', 'NewOrderV3Args')):
            def sub(e, nm=nm, tag=tag):
                for p in list(e.prog.bypath):
                    if nm in p and p.endswith('::with_parsed_args'):
                        e.boundary[p] = cap(tag)
            h = Handler(dex, v, precise=v in PRECISE, sub=sub)
            dex.cache.setdefault(v, h)
        dex.cache['callbacks'] = c
    return c


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'.index(c)
    return n.to_bytes(32, 'big').hex()


def static_id(name):
    return mk('init', mk('deref', mk('arg', 'static:' + name)))


def v2(A, i, field):
    return mk('init', A.f(i, 'state::MarketStateV2', field))


def check_c02(sp):
    dex = sp.dex

    def need(v, i, term, what):
        h = handler(dex, v)
        sp.count(v, **h.stats())
        sp.oblige('instruction reachable', v, len(h.ok) > 0)
        A = h.A
        for n, x in enumerate(h.ok):
            t = term(h, x)
            sp.oblige('R1 authority signed', hexit(h, n, x), x.nz(A.signer(pos(A, i))), 'account %d need not sign' % i)
            sp.oblige('R2 signer is the %s' % what, hexit(h, n, x), x.same(A.key(pos(A, i)), t),
                      lambda: 'account %d is not compared with %s' % (i, sh(t)))
    for nm, k in (('disable_authority', '5ZVJgwWxMsqXxRMYHXqMwH2hd4myX5Ef4Au2iUsuNQ7V'), ('fee_sweeper', 'DeqYsmBd9BnrbgUwQjVH4sQWK71dEgE6eoZFw3Rp4ftE')):
        handler(dex, 'DisableMarket'), handler(dex, 'SweepFees')
        got = dex.prog.statics.get('serum_dex::instruction::%s::ID' % nm)
        sp.oblige('R2 the key of the authority', nm, got is None or got == b58(k), lambda: got)
    need('DisableMarket', 1, lambda h, x: static_id('serum_dex::instruction::disable_authority::ID'), 'disable authority')
    need('SweepFees', 2, lambda h, x: static_id('serum_dex::instruction::fee_sweeper::ID'), 'fee sweeper')
    need('Prune', 3, lambda h, x: v2(h.A, 0, 'prune_authority'), 'prune authority of the market')
    need('ConsumeEventsPermissioned', -1, lambda h, x: v2(h.A, pos(h.A, -3), 'consume_events_authority'), 'consume-events authority of the market')
    # the permissioned variants need a market that stores the authority
    for v, flags in (('Prune', 512), ('ConsumeEventsPermissioned', 1024)):
        h = handler(dex, v)
        for n, x in enumerate(h.ok):
            fl = flag_values(x, h.A, pos(h.A, MARKET[v]), 'state::MarketState')
            sp.oblige('R3 authority field exists on the market', hexit(h, n, x), fl and all(f & flags for f in fl), 'flags %s' % sorted(fl)[:10])
    # the open consume-events is refused when an authority exists
    h = handler(dex, 'ConsumeEvents')
    for n, x in enumerate(h.ok):
        fl = flag_values(x, h.A, pos(h.A, -4), 'state::MarketState')
        sp.oblige('R4 open crank only without authority', hexit(h, n, x), fl and all(not f & 1024 for f in fl), 'flags %s' % sorted(fl)[:10])
    # init open orders on permissioned markets
    h = handler(dex, 'InitOpenOrders')
    A = h.A
    nfresh = 0
    for n, x in enumerate(h.ok):
        of = flag_values(x, A, 0, 'state::OpenOrders')
        if 0 not in of:
            continue
        nfresh += 1
        fl = flag_values(x, A, 2, 'state::MarketState')
        plain = fl and all(not f & 512 for f in fl)
        auth = x.same(v2(A, 2, 'open_orders_authority'), A.key(4)) and x.nz(A.signer(4))
        sp.oblige('R5 open-orders authority', hexit(h, n, x), plain or auth, lambda: 'market flags %s; facts: %s' % (sorted(fl)[:8], [sh(k, 160) for k in x.st.facts if 'authority' in show(k)]))
    sp.floor('InitOpenOrders fresh-account exits', nfresh, 2)
    # placing an order on a permissioned market never creates the account
    h = handler(dex, 'NewOrderV3')
    nfresh = 0
    for n, x in enumerate(h.ok):
        fl = flag_values(x, h.A, 1, 'state::OpenOrders')
        if fl == {0}:
            nfresh += 1
            mf = flag_values(x, h.A, 0, 'state::MarketState')
            sp.oblige('R6 no implicit account on permissioned market', hexit(h, n, x), mf and all(not f & 512 for f in mf), 'market flags %s' % sorted(mf)[:8])
    sp.floor('NewOrderV3 fresh-account exits', nfresh, 1)


def check_c03(sp):
    dex = sp.dex
    for v, h in units(sp, ALL):
        A = h.A
        m = pos(A, MARKET[v])
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            sp.oblige('R1 market owned by program', w, x.same(A.owner(m), PROG), 'owner of the market account is not compared with the program id')
            fl = flag_values(x, A, m, 'state::MarketState')
            ok = {3, 131, 515, 643, 1539, 1667}
            sp.oblige('R2 market flags', w, fl and fl <= ok, 'accepted flag words %s' % sorted(fl - ok)[:8])
            sz = 376
            sp.oblige('R2b markers', w, markers(x, A, m), 'head/tail markers of the market account not checked')
            for role, i in ROLES.get(v, {}).items():
                i = pos(A, i)
                if role in QFLAG:
                    tn, flag = QFLAG[role]
                    sp.oblige('R3 %s recorded by market' % role, w, x.same(A.key(i), A.m(m, role)), 'account %s not compared with the market\'s %s' % (sh(i) if isinstance(i, V) else i, role))
                    qt = tn if role in ('req_q', 'event_q') else 'state::OrderBookStateHeader'
                    qf = flag_values(x, A, i, qt, header=True)
                    sp.oblige('R4 %s type flag' % role, w, qf == {flag}, 'accepted flag words %s' % sorted(qf)[:8])
                elif role in ('coin_vault', 'pc_vault'):
                    sp.oblige('R5 %s recorded by market' % role, w, x.same(A.key(i), A.m(m, role)), 'vault account %d not compared with the market' % i)
                elif role in ('coin_wallet', 'pc_wallet'):
                    mint = A.m(m, 'coin_mint' if role == 'coin_wallet' else 'pc_mint')
                    sp.oblige('R6 %s mint' % role, w, x.same(mk('bsub', A.data(i), ZERO, I(32), 1, 0), mint), 'mint of wallet %d not compared' % i)
                    sp.oblige('R7 %s is an SPL token account' % role, w, token(x, A, i), 'wallet %d not checked as token account' % i)
                elif role == 'payer':
                    sp.oblige('R7 payer is an SPL token account', w, token(x, A, i), 'payer not checked')
                elif role == 'spl':
                    sp.oblige('R8 token program', w, x.same(A.key(i), SPL), 'token program %d not checked' % i)
                elif role == 'vault_signer':
                    sp.oblige('R9 vault signer address', w, x.same(A.key(i), mk('pda', PROG, A.m(m, 'own_address'), A.m(m, 'vault_signer_nonce'))), 'vault signer %d not compared with the derived address' % i)
            if v in OWNED:
                o = OWNED[v][0]
                bind_oo(sp, x, A, o, m, w, OWNED[v][3])
            if v == 'Prune':
                bind_oo(sp, x, A, 4, m, w, False)
                sp.oblige('R13 pruned owner', w, x.same(A.key(5), A.oo(4, 'owner')), 'declared owner not compared')
            if v == 'NewOrderV3':
                payer_mint(sp, x, A, m, w)
            if v == 'SettleFunds':
                referrer(sp, x, A, m, w)
    for v in ('ConsumeEvents', 'ConsumeEventsPermissioned'):
        consume_bind(sp, handler(dex, v))
    h = handler(dex, 'ReplaceOrderByClientId')
    replace_map(sp, h)
    replace_map(sp, handler(dex, 'ReplaceOrdersByClientIds'))


def replace_map(sp, h):
    for n, x in enumerate(h.ok):
        for l in x.st.log:
            if l.op == 'sub_cancel':
                arrs = [w for w in walk(l.a[1]) if w.op == 'sel' and w.a[0].op == 'agg' and all(is_int(y) for y in w.a[0].a[1])]
                vals = {tuple(y.a[0] for y in w.a[0].a[1]) for w in arrs}
                exp = ROLES['NewOrderV3']
                want = (0, exp['bids'], exp['asks'], 1, 7, exp['event_q'])
                if not arrs:
                    # the accounts listed one by one
                    for w in walk(l.a[1]):
                        if w.op == 'agg' and w.a[0][0] == 'array' and len(w.a[1]) == len(want):
                            at = {mk('init', mk('idx', A0, I(i))): i for A0 in (mk('deref', mk('arg', 'accounts')),) for i in range(16)}
                            vals.add(tuple(at.get(y) for y in w.a[1]))
                sp.oblige('R14 cancel leg uses the order\'s accounts', hexit(h, n, x), vals == {want}, lambda: 'cancel accounts taken from positions %s, expected %s' % (vals, want))


def markers(x, A, i):
    d = A.data(i)
    head = mk('bsub', d, ZERO, I(5), 1, 0)
    tail = mk('bsub', d, add(A.dlen(i), I(-7)), I(7), 1, 0)
    return x.same(head, mk('bytes', '736572756d')) and x.same(tail, mk('bytes', '70616464696e67'))


def token(x, A, i):
    return x.same(A.owner(i), SPL) and x.e.lookup(x.st, A.dlen(i)) == 165 and x.e.lookup(x.st, mk('init', mk('idx', A.data(i), I(108)))) == 1


def bind_oo(sp, x, A, o, m, w, fresh):
    sp.oblige('R10 open orders owned by program', w, x.same(A.owner(o), PROG), 'open-orders account %s owner not checked' % (o if isinstance(o, int) else sh(o)))
    fl = flag_values(x, A, o, 'state::OpenOrders')
    if fresh and fl == {0}:
        t = x.read(A.f(o, 'state::OpenOrders', 'account_flags'))
        sp.oblige('R11 fresh open orders flagged', w, t is I(5), lambda: sh(t))
    else:
        sp.oblige('R11 open orders flags', w, fl == {5}, 'accepted flag words %s' % sorted(fl)[:8])
        sp.oblige('R12 open orders of this market', w, x.same(A.oo(o, 'market'), A.m(m, 'own_address')), 'open-orders market not compared')


def payer_mint(sp, x, A, m, w):
    dt = [(k, v) for k, v in x.st.facts.items() if k.op == 'discr' and k.a[0] is mk('arg', 'ix.side')]
    side = None
    if dt and dt[0][1][0] == 'in' and len(dt[0][1][1]) == 1:
        side = next(iter(dt[0][1][1]))
    mint = mk('bsub', A.data(6), ZERO, I(32), 1, 0)
    exp = A.m(m, 'pc_mint') if side == 0 else A.m(m, 'coin_mint')
    sp.oblige('R15 payer mint matches side', w, side is not None and x.same(mint, exp), lambda: 'payer mint not compared with the %s mint' % ('pc' if side == 0 else 'coin'))


def referrer(sp, x, A, m, w):
    for l in x.st.log:
        if l.op == 'invoke' and l.a[0].op == 'spl_transfer' and x.same(l.a[0].a[2], A.key(9)):
            sp.oblige('R16 referrer wallet', w, token(x, A, 9) and x.same(mk('bsub', A.data(9), ZERO, I(32), 1, 0), A.m(m, 'pc_mint')), 'referrer account not checked as a pc token account')


def consume_bind(sp, h):
    A = h.A
    n = 0
    for fr, bb, st, suf, mark in h.trs:
        x = View(h.e, st)
        popped = [l for l in suf if l.op == 'pop']
        if not popped:
            continue
        n += 1
        w = '%s loop iteration %d' % (h.variant, n)
        m = pos(A, MARKET[h.variant])
        # the account the updates go to
        views = [r for r in st.mem if r.op == 'view' and r.a[2].endswith('OpenOrders')]
        for r in views:
            idx = acc_index(r, A)
            if idx is None:
                sp.fail('R17 consume target is an account of the list', w, sh(r))
                continue
            bind_oo(sp, x, A, idx, m, w, False)
    sp.floor(h.variant + ' iterations that consume an event', n, 4)


def acc_index(r, A):
    """index term of the account whose data r overlays"""
    t = r
    while isinstance(t, V):
        if t.op == 'idx' and t.a[0] is A.base:
            return t.a[1]
        t = t.a[0] if t.a else None
    return None


def check_c15(sp):
    dex = sp.dex
    for v, h in units(sp, ALL):
        A = h.A
        m = pos(A, MARKET[v])
        union = set()
        for n, x in enumerate(h.ok):
            fl = flag_values(x, A, m, 'state::MarketState')
            union |= fl
            if v in LIVE_ONLY:
                sp.oblige('R1 refused on a disabled market', hexit(h, n, x), fl and all(not f & 128 for f in fl), 'succeeds with flag words %s' % sorted(f for f in fl if f & 128)[:8])
            now = x.read(A.f(m, 'state::MarketState', 'account_flags'))
            old = A.m(m, 'account_flags')
            if v == 'DisableMarket':
                good = fl and all(ev(now, {old: f}) == f | 128 for f in fl)
                sp.oblige('R3 disable sets exactly the disabled flag', hexit(h, n, x), good, lambda: sh(now))
            else:
                sp.oblige('R4 flags unchanged', hexit(h, n, x), now is old, lambda: sh(now))
        if v in DISABLED_OK:
            base = {f & ~128 for f in union}
            want = {f | 128 for f in base}
            sp.oblige('R2 allowed on a disabled market', v, want and want <= union, 'accepted flag words %s' % sorted(union))
        else:
            sp.oblige('R2b allowed on a live market', v, any(not f & 128 for f in union), sorted(union))
        want = {3, 515, 1539}
        if v == 'Prune':
            want = {515, 1539}
        elif v == 'ConsumeEvents':
            want = {3, 515}
        elif v == 'ConsumeEventsPermissioned':
            want = {1539}
        sp.oblige('R5 no other market kind is locked out', v, want <= union, 'refused on market kinds %s' % sorted(want - union))
    for v in ('ReplaceOrderByClientId', 'ReplaceOrdersByClientIds'):
        h = handler(dex, v)
        sp.count(v, **h.stats())
        n = sum(1 for t in h.trs for l in t[3] if l.op == 'sub_new') + sum(1 for x in h.ok for l in x.st.log if l.op == 'sub_new')
        sp.oblige('R6 replace places orders through the new-order path', v, n > 0)
    # DisableMarket changes nothing else
    h = handler(dex, 'DisableMarket')
    for n, x in enumerate(h.ok):
        for r in x.st.mem:
            if r.op != 'L' and not r.op.startswith('frame'):
                if r is h.A.view(0, 'state::MarketState'):
                    v = x.st.mem[r]
                    ok = v.op == 'upd' and len(v.a[1]) == 1
                    sp.oblige('R7 nothing else changes', hexit(h, n, x), ok, lambda: sh(v))


CHECKS = {'C01': check_c01, 'C02': check_c02, 'C03': check_c03, 'C15': check_c15}
