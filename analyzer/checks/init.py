"""C17 market creation."""
from spec import *
from access import units, hexit, token

MS = 'state::MarketState'
M2 = 'state::MarketStateV2'


def zero_cover(x, d, ranges):
    """byte ranges of d known to be zero on this outcome -> list of (offset term, length)"""
    out = []
    for f, (k, s) in x.st.facts.items():
        if k != 'in' or len(s) != 1:
            continue
        v = next(iter(s))
        if f.op == 'eq' and v == 1:
            for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if b.op == 'bsub' and b.a[0] is d and isbytes0(a):
                    out.append((b.a[1], b.a[2]))
        elif f.op == 'le' and v == 0 and f.a[0].op == 'bsub' and f.a[0].a[0] is d:
            out.append((f.a[0].a[1], f.a[0].a[2]))
        elif f.op == 'init' and v == 0 and f.a[0].op == 'idx' and f.a[0].a[0] is d:
            out.append((f.a[0].a[1], I(1)))
    return out


def isbytes0(t):
    if t.op == 'bytes':
        b = t.a[0]
        return all(c == 0 for c in (bytes.fromhex(b) if isinstance(b, str) else b))
    if t.op == 'rep':
        return t.a[0] is ZERO
    if t.op in ('list', 'arr'):
        return all(q is ZERO for q in t.a)
    return False


def covered(zs, lo, n):
    """[lo, lo+n) (lo a term) covered by the zero ranges"""
    need = set(range(n))
    for o, m in zs:
        df = sub(o, lo)
        if df.op == 'int' and m.op == 'int':
            need -= set(range(df.a[0], df.a[0] + m.a[0]))
    return not need


def slab_lens(x, d):
    """terms that stand for the length of the slab stored in account data d"""
    out = set()
    for f in x.st.facts:
        for w in walk(f):
            if w.op == 'len' and any(q.op == 'slab' and any(r is d for r in walk(q)) for q in walk(w)):
                out.add(w)
    return out


def feasible(x, env):
    for f, (k, s) in x.st.facts.items():
        v = ev(f, env)
        if v is None:
            continue
        if (v in s) != (k == 'in'):
            return False
    return True


def check_c17(sp):
    dex = sp.dex
    kinds = {}
    for v, h in units(sp, ['InitializeMarket']):
        A = h.A
        for n, x in enumerate(h.ok):
            w = hexit(h, n, x)
            facts = x.st.facts
            # ---- the accounts given to the program are blank and its own
            for i in range(5):
                sp.oblige('R1 owned by the program', '%s account %d' % (w, i), x.same(A.owner(i), PROG), 'owner not compared with the program id')
                d = A.data(i)
                zs = zero_cover(x, d, None)
                sp.oblige('R2 not initialised before (head)', '%s account %d' % (w, i), covered(zs, ZERO, 13), lambda: 'zero ranges checked: %s' % [(sh(a), sh(b)) for a, b in zs])
                sp.oblige('R2 not initialised before (tail)', '%s account %d' % (w, i), covered(zs, add(A.dlen(i), I(-7)), 7), lambda: 'zero ranges checked: %s' % [(sh(a), sh(b)) for a, b in zs])
            for i in range(1, 9):
                ok = x.lt(mk('init', A.lamports(i)), mk('minbal', mk('sysvar', 'rent'), A.dlen(i))) is False
                sp.oblige('R3 rent-exempt', '%s account %d' % (w, i), ok, 'rent exemption of account %d not established' % i)
            # ---- vaults and mints
            for i, m in ((5, 7), (6, 8)):
                wi = '%s account %d' % (w, i)
                d = A.data(i)
                sp.oblige('R4 vault is an initialised token account', wi, token(x, A, i), 'not checked')
                sp.oblige('R5 vault mint', wi, x.same(mk('bsub', d, ZERO, I(32), 1, 0), A.key(m)), 'mint not compared with account %d' % m)
                own = mk('bsub', d, I(32), I(32), 1, 0)
                good = False
                for f, (k, s) in facts.items():
                    if f.op == 'eq' and k == 'in' and s == {1} and any(q is own or x.same(q, own) for q in f.a):
                        for q in f.a:
                            if q.op == 'pda':
                                kk = q.a[1]
                                if kk.op == 'bsub' and kk.a[1] is ZERO:
                                    kk = kk.a[0]
                                    kk = mk('init', kk) if kk.op != 'init' else kk
                                good = good or (x.same(q.a[0], PROG) and x.same(kk, A.key(0)) and x.eqv(q.a[2], mk('arg', 'ix.vault_signer_nonce')))
                sp.oblige('R6 vault controlled by the vault signer', wi, good, 'token owner not compared with the derived signer')
                zs = zero_cover(x, d, None)
                sp.oblige('R7 vault without delegate', wi, covered(zs, I(72), 4), 'delegate tag not checked')
                sp.oblige('R8 vault without close authority', wi, covered(zs, I(129), 4), 'close-authority tag not checked')
                wm = '%s account %d' % (w, m)
                sp.oblige('R9 mint is an initialised mint', wm, x.same(A.owner(m), SPL) and x.e.lookup(x.st, A.dlen(m)) == 82 and x.e.lookup(x.st, mk('init', mk('idx', A.data(m), I(45)))) == 1, 'not checked')
            # ---- minimum sizes: the outcome's facts are refuted for every smaller account
            bad = [c for c in range(20, 12 + 32 + 80, 8) if feasible(x, {A.dlen(1): c})]
            sp.oblige('R10 request queue holds a request', w, not bad, lambda: 'accepted data lengths %s' % bad[:4])
            bad = [c for c in range(20, 12 + 32 + 88 * 128, 8) if feasible(x, {A.dlen(2): c})]
            sp.oblige('R11 event queue holds 128 events', w, not bad, lambda: 'accepted data lengths %s' % bad[:4])
            for i in (3, 4):
                sl = slab_lens(x, A.data(i))
                bad = []
                for c in range(20 + 32, 20 + 32 + 72 * 201, 8):
                    env = {A.dlen(i): c}
                    env.update({q: c - 20 for q in sl})
                    if feasible(x, env):
                        bad.append(c)
                sp.oblige('R12 book side holds more than 200 nodes', '%s account %d' % (w, i), not bad, lambda: 'accepted data lengths %s' % bad[:4])
            for i, L in ((1, 12 + 32 + 80 * 4096), (2, 12 + 32 + 88 * 4096)):
                sp.oblige('R13 ordinary sizes accepted', '%s account %d' % (w, i), feasible(x, {A.dlen(i): L + (-L + 4) % 8}), 'refused')
            for i in (3, 4):
                env = {A.dlen(i): 65556}
                env.update({q: 65536 for q in slab_lens(x, A.data(i))})
                sp.oblige('R13 ordinary sizes accepted', '%s account %d' % (w, i), feasible(x, env), 'refused')
            # ---- flags written
            for i, t, fl in ((1, 'state::RequestQueueHeader', 9), (2, 'state::EventQueueHeader', 17)):
                vw = queue_head(A, x, i, t, dex)
                names = [f[0] for f in dex.type_by_path(t)['v'][0]['f']]
                for j, nm in enumerate(names):
                    sp.oblige('R14 queue header', '%s account %d %s' % (w, i, nm), x.eqv(x.read(mk('fld', vw, j, nm, 0)), I(fl) if nm == 'account_flags' else ZERO), lambda: sh(x.read(mk('fld', vw, j, nm, 0))))
            for i, fl in ((3, 33), (4, 65)):
                vw = A.view(i, 'matching::OrderBookStateHeader') if has(dex, 'matching::OrderBookStateHeader') else A.view(i, 'state::OrderBookStateHeader')
                val = x.read(mk('fld', vw, 0, 'account_flags', 0))
                sp.oblige('R15 book flags', '%s account %d' % (w, i), x.eqv(val, I(fl)), lambda: sh(val))
            for i in range(5):
                got = marker_bytes(x, A, i)
                sp.oblige('R16 head and tail marker', '%s account %d' % (w, i), got == list(b'serumpadding'), lambda: str(got))
            # ---- the market record
            nacc = {n_ for n_ in range(0, 20) if feasible(x, {A.len: n_})}
            sp.oblige('R17 number of accounts decides the kind', w, len(nacc) == 1 or min(nacc) > 12, lambda: str(sorted(nacc)))
            na = min(nacc)
            kinds[min(na, 13)] = kinds.get(min(na, 13), 0) + 1
            flags = {10: 3, 11: 515, 12: 515}.get(na, 1539)
            a = lambda s_: mk('arg', 'ix.' + s_)
            exp = {'account_flags': I(flags), 'own_address': A.key(0), 'vault_signer_nonce': a('vault_signer_nonce'),
                   'coin_mint': A.key(7), 'pc_mint': A.key(8), 'coin_vault': A.key(5), 'coin_deposits_total': ZERO, 'coin_fees_accrued': ZERO,
                   'pc_vault': A.key(6), 'pc_deposits_total': ZERO, 'pc_fees_accrued': ZERO, 'pc_dust_threshold': a('pc_dust_threshold'),
                   'req_q': A.key(1), 'event_q': A.key(2), 'bids': A.key(3), 'asks': A.key(4), 'coin_lot_size': a('coin_lot_size'),
                   'pc_lot_size': a('pc_lot_size'), 'fee_rate_bps': a('fee_rate_bps'), 'referrer_rebates_accrued': ZERO}
            vw = A.view(0, MS)
            t = dex.type_by_path(MS)
            sp.oblige('R18 all fields specified', w, {f[0] for f in t['v'][0]['f']} == set(exp), 'MarketState has other fields')
            for j, f in enumerate(t['v'][0]['f']):
                val = x.read(mk('fld', vw, j, f[0], 0))
                e = exp.get(f[0])
                sp.oblige('R18 market records %s' % f[0], w, e is not None and (x.eqv(val, e) or x.same(val, e)), lambda: '%s := %s' % (f[0], sh(val)))
            # ---- authorities
            v2 = A.view(0, M2)
            t2 = dex.type_by_path(M2)
            for j, f in enumerate(t2['v'][0]['f']):
                val = x.read(mk('fld', v2, j, f[0], 0))
                want = {'open_orders_authority': 10, 'prune_authority': 11, 'consume_events_authority': 12}.get(f[0])
                if want is None:
                    continue
                if na > want and na >= 11:
                    ok = x.same(val, A.key(want))
                elif na >= 11 and f[0] == 'prune_authority':
                    ok = isbytes0(val) or val is mk('init', mk('fld', v2, j, f[0], 0)) or zero_key(val)
                else:
                    ok = val is mk('init', mk('fld', v2, j, f[0], 0)) or isbytes0(val) or zero_key(val)
                sp.oblige('R19 authority %s' % f[0], w, ok, lambda: '%s := %s with %d accounts' % (f[0], sh(val), na))
            sp.oblige('R20 no transfer and no book change', w, not [l for l in x.st.log if l.op in ('invoke', 'push', 'insert', 'remove', 'match', 'pop')])
    for k in (10, 11, 12, 13):
        sp.floor('market creations with %d accounts' % k, kinds.get(k, 0), 1)


def marker_bytes(x, A, i, L=1004):
    """first five and last seven bytes written to account i (positions are affine in the length, L stands for any length >= 20)"""
    d = A.data(i)
    w = {}
    ws = []
    v = x.st.mem.get(d, d)
    if v.op == 'upd':
        ws = list(v.a[1])
    for k, val in ws:
        c = ev(k[1], {A.dlen(i): L}) if k[0] == 'i' else None
        if c is not None:
            w[c] = val.a[0] if val.op == 'int' else None
    return [w.get(j) for j in list(range(5)) + list(range(L - 7, L))]


def zero_key(v):
    return v.op in ('adt', 'struct') and all(isbytes0(q) or q is ZERO for q in v.a if hasattr(q, 'op'))


def has(dex, t):
    try:
        return dex.type_by_path(t) is not None
    except Missing:
        return False


def queue_head(A, x, i, t, dex):
    # written either through the header overlay or through the typed slice of one
    v = A.view(i, t)
    if any(r is v for r in x.st.mem):
        return v
    return mk('idx', mk('one', v), ZERO)


CHECKS = {'C17': check_c17}
