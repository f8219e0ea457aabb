"""C19: the client-side instruction builders list the accounts the program parses."""
import itertools
from spec import *
from codec import tydef, fieldnames

RENT = 'rent'
CANCEL_ARGS = ['program', 'market', 'bids', 'asks', 'oo', 'owner', 'event_q']
CANCEL_ACC = [('market', 0, 1), ('bids', 0, 1), ('asks', 0, 1), ('oo', 0, 1), ('owner', 1, 0), ('event_q', 0, 1)]
# builder -> (arguments by position, accounts (role, signs, written), optional tail, variant, payload)
# an argument '?x' is an optional account, '*x' a list of accounts, '=x' plain data
B = {
    'initialize_market': (['market', 'program', 'coin_mint', 'pc_mint', 'coin_vault', 'pc_vault', '?auth', '?prune', '?crank', 'bids', 'asks', 'req_q', 'event_q', '=coin_lot_size', '=pc_lot_size', '=vault_signer_nonce', '=pc_dust_threshold'],
                          [('market', 0, 1), ('req_q', 0, 1), ('event_q', 0, 1), ('bids', 0, 1), ('asks', 0, 1), ('coin_vault', 0, 0), ('pc_vault', 0, 0), ('coin_mint', 0, 0), ('pc_mint', 0, 0), (RENT, 0, 0), ('?auth', 0, 0), ('?prune', 0, 0), ('?crank', 0, 0)],
                          'InitializeMarket', {'coin_lot_size': '=', 'pc_lot_size': '=', 'fee_rate_bps': 0, 'vault_signer_nonce': '=', 'pc_dust_threshold': '='}),
    'new_order': (['market', 'oo', 'req_q', 'event_q', 'bids', 'asks', 'payer', 'owner', 'coin_vault', 'pc_vault', 'spl', 'rentarg', '?srm', 'program', '=side', '=limit_price', '=max_coin_qty', '=order_type', '=client_order_id', '=self_trade_behavior', '=limit', '=max_native_pc_qty_including_fees', '=max_ts'],
                  [('market', 0, 1), ('oo', 0, 1), ('req_q', 0, 1), ('event_q', 0, 1), ('bids', 0, 1), ('asks', 0, 1), ('payer', 0, 1), ('owner', 1, 0), ('coin_vault', 0, 1), ('pc_vault', 0, 1), ('spl', 0, 0), ('rentarg', 0, 0), ('?srm', 0, 0)],
                  'NewOrderV3', {k: '=' for k in ('side', 'limit_price', 'max_coin_qty', 'order_type', 'client_order_id', 'self_trade_behavior', 'limit', 'max_native_pc_qty_including_fees', 'max_ts')}),
    'match_orders': (['program', 'market', 'req_q', 'bids', 'asks', 'event_q', 'coin_fee', 'pc_fee', '=0'],
                     [('market', 0, 1), ('req_q', 0, 1), ('event_q', 0, 1), ('bids', 0, 1), ('asks', 0, 1), ('coin_fee', 0, 0), ('pc_fee', 0, 0)], 'MatchOrders', {'0': '='}),
    'consume_events': (['program', '*oos', 'market', 'event_q', 'coin_fee', 'pc_fee', '=0'],
                       [('*oos', 0, 1), ('market', 0, 1), ('event_q', 0, 1), ('coin_fee', 0, 0), ('pc_fee', 0, 0)], 'ConsumeEvents', {'0': '='}),
    'consume_events_permissioned': (['program', '*oos', 'market', 'event_q', 'crank', '=0'],
                                    [('*oos', 0, 1), ('market', 0, 1), ('event_q', 0, 1), ('crank', 1, 0)], 'ConsumeEventsPermissioned', {'0': '='}),
    'cancel_order': (CANCEL_ARGS + ['=side', '=order_id'], CANCEL_ACC, 'CancelOrderV2', {'side': '=', 'order_id': '='}),
    'cancel_order_by_client_order_id': (CANCEL_ARGS + ['=0'], CANCEL_ACC, 'CancelOrderByClientIdV2', {'0': '='}),
    'cancel_orders_by_client_order_ids': (CANCEL_ARGS + ['=0'], CANCEL_ACC, 'CancelOrdersByClientIds', {'0': '='}),
    'settle_funds': (['program', 'market', 'spl', 'oo', 'owner', 'coin_vault', 'coin_wallet', 'pc_vault', 'pc_wallet', '?referrer', 'vault_signer'],
                     [('market', 0, 1), ('oo', 0, 1), ('owner', 1, 0), ('coin_vault', 0, 1), ('pc_vault', 0, 1), ('coin_wallet', 0, 1), ('pc_wallet', 0, 1), ('vault_signer', 0, 0), ('spl', 0, 0), ('?referrer', 0, 1)], 'SettleFunds', {}),
    'disable_market': (['program', 'market', 'auth'], [('market', 0, 1), ('auth', 1, 0)], 'DisableMarket', {}),
    'sweep_fees': (['program', 'market', 'pc_vault', 'auth', 'dest', 'vault_signer', 'spl'],
                   [('market', 0, 1), ('pc_vault', 0, 1), ('auth', 1, 0), ('dest', 0, 1), ('vault_signer', 0, 0), ('spl', 0, 0)], 'SweepFees', {}),
    'send_take': (['market', 'req_q', 'event_q', 'bids', 'asks', 'coin_wallet', 'pc_wallet', 'owner', 'coin_vault', 'pc_vault', 'spl', 'vault_signer', '?srm', 'program', '=side', '=limit_price', '=max_coin_qty', '=max_native_pc_qty_including_fees', '=min_coin_qty', '=min_native_pc_qty', '=limit'],
                  [('market', 0, 1), ('req_q', 0, 1), ('event_q', 0, 1), ('bids', 0, 1), ('asks', 0, 1), ('coin_wallet', 0, 1), ('pc_wallet', 0, 1), ('owner', 1, 0), ('coin_vault', 0, 1), ('pc_vault', 0, 1), ('spl', 0, 0), ('vault_signer', 0, 0), ('?srm', 0, 0)],
                  'SendTake', {k: '=' for k in ('side', 'limit_price', 'max_coin_qty', 'max_native_pc_qty_including_fees', 'min_coin_qty', 'min_native_pc_qty', 'limit')}),
    'close_open_orders': (['program', 'oo', 'owner', 'dest', 'market'], [('oo', 0, 1), ('owner', 1, 0), ('dest', 0, 1), ('market', 0, 0)], 'CloseOpenOrders', {}),
    'init_open_orders': (['program', 'oo', 'owner', 'market', '?auth'], [('oo', 0, 1), ('owner', 1, 0), ('market', 0, 0), (RENT, 0, 0), ('?auth', 1, 0)], 'InitOpenOrders', {}),
    'prune': (['program', 'market', 'bids', 'asks', 'auth', 'oo', 'oo_owner', 'event_q', '=0'],
              [('market', 0, 1), ('bids', 0, 1), ('asks', 0, 1), ('auth', 1, 0), ('oo', 0, 1), ('oo_owner', 0, 0), ('event_q', 0, 1)], 'Prune', {'0': '='}),
}
RENT_ID = 'SysvarRent111111111111111111111111111111111'


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'.index(c)
    return n.to_bytes(32, 'big')


def is_rent(v):
    b = b58(RENT_ID)
    for z in walk(v):
        if z.op == 'agg' and len(z.a[1]) == 32 and all(is_int(x) for x in z.a[1]):
            return bytes(x.a[0] for x in z.a[1]) == b
        if z.op == 'bytes':
            q = z.a[0] if isinstance(z.a[0], (bytes, bytearray)) else bytes.fromhex(z.a[0])
            if len(q) == 32:
                return q == b
        if z.op == 'const' or z.op == 'static':
            return 'sysvar::rent' in show(z)
    return 'rent::ID' in show(v)


def run(sp, name, opts, nlist):
    D = sp.dex
    f = D.fn('instruction::' + name)
    e = D.engine()
    e.nomerge = lambda st, fr: True
    e.models['serum_dex::instruction::MarketInstruction::pack'] = lambda e, c, st: [(st, mk('packed', e.read(st, deref_loc(c.args[0]))))]
    e.boundary['serum_dex::instruction::MarketInstruction::pack'] = e.models['serum_dex::instruction::MarketInstruction::pack']
    args = []
    for a in B[name][0]:
        if a[0] == '=':
            args.append(mk('arg', a))
        elif a[0] == '?':
            args.append(e.some(mk('ptr', mk('deref', mk('arg', a[1:])))) if opts[a] else e.none())
        elif a[0] == '*':
            args.append(e.vec(agg(('array',), [mk('ptr', mk('deref', mk('arg', '%s%d' % (a[1:], i)))) for i in range(nlist)]), I(nlist)))
        else:
            args.append(mk('ptr', mk('deref', mk('arg', a))))
    if len(f.locals) and f.argc != len(args):
        raise Unsupported('%s takes %d arguments, %d expected' % (name, f.argc, len(args)))
    outs = e.call_fn(f, args, State(), mk('frame0', name))
    return e, outs


def expected(name, opts, nlist):
    out = []
    stop = False
    for r, s, w in B[name][1]:
        if r[0] == '?':
            if stop or not opts[r]:
                stop = True
                continue
            out.append((r[1:], s, w))
        elif r[0] == '*':
            out += [('%s%d' % (r[1:], i), s, w) for i in range(nlist)]
        else:
            out.append((r, s, w))
    return out


def check_c19(sp):
    prog = sp.dex.prog if hasattr(sp.dex, 'prog') else sp.dex.p
    names = fieldnames(prog, 'solana_program::instruction::AccountMeta')
    inames = fieldnames(prog, 'solana_program::instruction::Instruction')
    nb = 0
    for name, (argl, accs, variant, payload) in B.items():
        optn = [a for a in argl if a[0] == '?']
        lists = [0, 1, 3] if any(a[0] == '*' for a in argl) else [0]
        for combo in itertools.product((0, 1), repeat=len(optn)):
            opts = dict(zip(optn, combo))
            for nl in lists:
                e, outs = run(sp, name, opts, nl)
                w0 = '%s(%s)' % (name, ', '.join(['%s%s' % (a, '' if opts[a] else '=None') for a in optn] + (['%d accounts' % nl] if len(lists) > 1 else [])))
                oks = [(s, r) for s, r in outs if not is_err(r)]
                sp.oblige('R0 builder succeeds', w0, len(oks) >= 1 and len(oks) == len(outs), '%d of %d outcomes' % (len(oks), len(outs)))
                for s, r in oks:
                    nb += 1
                    ix = r.a[1][0]
                    if ix.op != 'agg':
                        sp.fail('R1 instruction', w0, sh(ix, 200))
                        continue
                    g = dict(zip(inames, ix.a[1]))
                    sp.oblige('R1 program id', w0, g['program_id'] is mk('init', mk('deref', mk('arg', 'program'))), lambda: sh(g['program_id'], 100))
                    d = g['data']
                    ok = d.op == 'packed' and d.a[0].op == 'agg' and d.a[0].a[0][3] == variant
                    if sp.oblige('R2 instruction variant', w0, ok, lambda: sh(d, 200)):
                        p = d.a[0].a[1]
                        if p and p[0].op == 'agg' and p[0].a[0][0] == 'adt':
                            vals = dict(zip(fieldnames(prog, p[0].a[0][1]), p[0].a[1]))
                        else:
                            vals = {'0': p[0]} if p else {}
                        for k, want in payload.items():
                            v = vals.get(k)
                            good = v is not None and (v is mk('arg', '=' + k) if want == '=' else is_int(v) and v.a[0] == want)
                            sp.oblige('R2 instruction field', w0 + ' ' + k, good, lambda: '%s := %s' % (k, sh(v, 100) if v is not None else None))
                    exp = expected(name, opts, nl)
                    metas = vecitems(e, s, g['accounts'])
                    if not sp.oblige('R3 account list', w0, metas is not None and len(metas) == len(exp), lambda: '%s accounts, %d parsed' % (len(metas) if metas is not None else sh(g['accounts'], 200), len(exp))):
                        continue
                    for i, (m, (role, sg, wr)) in enumerate(zip(metas, exp)):
                        w = '%s account %d (%s)' % (w0, i, role)
                        if m.op != 'agg':
                            sp.fail('R3 account', w, sh(m, 200))
                            continue
                        q = dict(zip(names, m.a[1]))
                        k = is_rent(q['pubkey']) if role == RENT else q['pubkey'] is mk('init', mk('deref', mk('arg', role)))
                        sp.oblige('R3 account key', w, k, lambda: 'lists %s' % sh(q['pubkey'], 120))
                        sp.oblige('R4 signer flag', w, is_int(q['is_signer']) and q['is_signer'].a[0] == sg, lambda: 'is_signer = %s, the program %s' % (sh(q['is_signer'], 60), 'requires the signature' if sg else 'asks for no signature'))
                        sp.oblige('R5 writable flag', w, not wr or is_int(q['is_writable']) and q['is_writable'].a[0] == 1, 'the program writes this account')
        sp.count(name, combinations=len(lists) << len(optn))
    # the table against what the handlers demand
    for name, (argl, accs, variant, payload) in B.items():
        if variant in ('MatchOrders',) or any(a[0][0] == '*' for a in accs):
            continue
        h = handler(sp.dex, variant)
        A = h.A
        for n, x in enumerate(h.ok):
            if x.infeasible():
                continue
            wrote = written(x, A, len(accs))
            for i, (role, sg, wr) in enumerate(accs):
                w = '%s ok-exit %d account %d (%s)' % (variant, n, i, role)
                if not sg:
                    sp.oblige('R6 signature demanded by the program', w, not x.nz(A.signer(i)), 'the program requires account %d to sign, the builder lists it unsigned' % i)
                if not wr:
                    sp.oblige('R7 account written by the program', w, i not in wrote, 'the program writes account %d, the builder may list it read-only' % i)
        sp.count(variant, ok_exits=len(h.ok))
    sp.floor('builder runs', nb, 30)


def vecitems(e, st, v):
    if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'vec' and is_int(v.a[1][1]):
        b, n = v.a[1]
        if b.op == 'agg':
            return list(b.a[1])[:n.a[0]]
        return [project(b, ('i', I(i))) for i in range(n.a[0])]
    return None


def written(x, A, n):
    data = {A.data(i): i for i in range(n)}
    lam = {A.lamports(i): i for i in range(n)}
    keys = {A.key(i): i for i in range(n)}
    out = set()

    def root(l):
        while l.op in ('fld', 'idx', 'sl', 'view', 'one', 'byte', 'idx2', 'mid') and isinstance(l.a[0], V):
            if l in data or l in lam:
                break
            l = l.a[0]
        return l
    for l, v in x.st.mem.items():
        r = root(l)
        if r in data and not unchanged(l, v):
            out.add(data[r])
        if r in lam and not unchanged(l, v):
            out.add(lam[r])
    for l in x.st.log:
        if l.op in ('push', 'pop', 'insert', 'remove') and l.a and isinstance(l.a[0], V):
            r = root(l.a[0])
            if r in data:
                out.add(data[r])
    for t in transfers(x):
        for k in t[:2]:
            if k in keys:
                out.add(keys[k])
    return out


def unchanged(l, v):
    return v.op == 'init' and v.a[0] is l


CHECKS = {'C19': check_c19}
TECHNIQUE = {'C19': 'abstract interpretation of every client-side builder, its account list and payload compared with the account order, signatures and writes of the program handlers'}
