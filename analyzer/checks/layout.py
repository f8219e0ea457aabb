"""C24: types overlaid on account bytes.  Type-level rules over the compiler's layouts (every Pod / TriviallyTransmutable
implementation of the crate), the byte layout clients rely on, and - per handler outcome - the head and tail markers of
every account whose bytes are interpreted."""
from spec import *
from access import hexit, markers
from init import marker_bytes
from engine import Unsupported

CR = 'serum_dex::'
P = {
    'critbit::AnyNode': (72, {'tag': (0, 4), 'data': (4, 68)}),
    'critbit::FreeNode': (72, {'tag': (0, 4), 'next': (4, 4)}),
    'critbit::InnerNode': (72, {'tag': (0, 4), 'prefix_len': (4, 4), 'key': (8, 16), 'children': (24, 8)}),
    'critbit::LeafNode': (72, {'tag': (0, 4), 'owner_slot': (4, 1), 'fee_tier': (5, 1), 'key': (8, 16), 'owner': (24, 32), 'quantity': (56, 8), 'client_order_id': (64, 8)}),
    'critbit::SlabHeader': (32, {'bump_index': (0, 8), 'free_list_len': (8, 8), 'free_list_head': (16, 4), 'root_node': (20, 4), 'leaf_count': (24, 8)}),
    'state::Event': (88, {'event_flags': (0, 1), 'owner_slot': (1, 1), 'fee_tier': (2, 1), 'native_qty_released': (8, 8), 'native_qty_paid': (16, 8),
                          'native_fee_or_rebate': (24, 8), 'order_id': (32, 16), 'owner': (48, 32), 'client_order_id': (80, 8)}),
    'state::EventQueueHeader': (32, {'account_flags': (0, 8), 'head': (8, 8), 'count': (16, 8), 'seq_num': (24, 8)}),
    'state::MarketState': (376, {'account_flags': (0, 8), 'own_address': (8, 32), 'vault_signer_nonce': (40, 8), 'coin_mint': (48, 32), 'pc_mint': (80, 32), 'coin_vault': (112, 32),
                                 'coin_deposits_total': (144, 8), 'coin_fees_accrued': (152, 8), 'pc_vault': (160, 32), 'pc_deposits_total': (192, 8), 'pc_fees_accrued': (200, 8),
                                 'pc_dust_threshold': (208, 8), 'req_q': (216, 32), 'event_q': (248, 32), 'bids': (280, 32), 'asks': (312, 32), 'coin_lot_size': (344, 8),
                                 'pc_lot_size': (352, 8), 'fee_rate_bps': (360, 8), 'referrer_rebates_accrued': (368, 8)}),
    'state::MarketStateV2': (1464, {'inner': (0, 376), 'open_orders_authority': (376, 32), 'prune_authority': (408, 32), 'consume_events_authority': (440, 32)}),
    'state::OpenOrders': (3216, {'account_flags': (0, 8), 'market': (8, 32), 'owner': (40, 32), 'native_coin_free': (72, 8), 'native_coin_total': (80, 8), 'native_pc_free': (88, 8),
                                 'native_pc_total': (96, 8), 'free_slot_bits': (104, 16), 'is_bid_bits': (120, 16), 'orders': (136, 2048), 'client_order_ids': (2184, 1024),
                                 'referrer_rebates_accrued': (3208, 8)}),
    'state::OrderBookStateHeader': (8, {'account_flags': (0, 8)}),
    'state::Request': (80, {'request_flags': (0, 1), 'owner_slot': (1, 1), 'fee_tier': (2, 1), 'self_trade_behavior': (3, 1), 'max_coin_qty_or_cancel_id': (8, 8),
                            'native_pc_qty_locked': (16, 8), 'order_id': (24, 16), 'owner': (40, 32), 'client_order_id': (72, 8)}),
    'state::RequestQueueHeader': (32, {'account_flags': (0, 8), 'head': (8, 8), 'count': (16, 8), 'next_seq_num': (24, 8)}),
}
E = {
    'critbit::NodeTag': {'Uninitialized': 0, 'InnerNode': 1, 'LeafNode': 2, 'FreeNode': 3, 'LastFreeNode': 4},
    'fees::FeeTier': {'Base': 0, 'SRM2': 1, 'SRM3': 2, 'SRM4': 3, 'SRM5': 4, 'SRM6': 5, 'MSRM': 6, 'Stable': 7},
    'state::AccountFlag': {'Initialized': 1, 'Market': 2, 'OpenOrders': 4, 'RequestQueue': 8, 'EventQueue': 16, 'Bids': 32, 'Asks': 64, 'Disabled': 128, 'Closed': 256,
                           'Permissioned': 512, 'CrankAuthorityRequired': 1024},
    'state::RequestFlag': {'NewOrder': 1, 'CancelOrder': 2, 'Bid': 4, 'PostOnly': 8, 'ImmediateOrCancel': 16, 'DecrementTakeOnSelfTrade': 32},
    'state::EventFlag': {'Fill': 1, 'Out': 2, 'Bid': 4, 'Maker': 8, 'ReleaseFunds': 16},
    'instruction::SelfTradeBehavior': {'DecrementTake': 0, 'CancelProvide': 1, 'AbortTransaction': 2},
    'matching::Side': {'Bid': 0, 'Ask': 1},
    'matching::OrderType': {'Limit': 0, 'ImmediateOrCancel': 1, 'PostOnly': 2},
}
PLAIN = ('uint', 'int')


def plain(prog, tid, pods, why):
    """every bit pattern of the type is a value and no byte is padding"""
    t = prog.types[tid]
    k = t['k']
    if k in PLAIN:
        return True
    if k == 'array':
        el = t.get('e')
        return el is None or plain(prog, el, pods, why)
    if k == 'struct':
        r = t.get('repr') or {}
        fs, off = t['v'][0]['f'], t.get('off')
        if t.get('size') is None or off is None:
            return t.get('path') in pods
        if len(fs) != 1 and not (r.get('c') or r.get('packed') or r.get('transparent')):
            why.append('%s has no fixed representation' % t['path'])
            return False
        at = 0
        for f, o in sorted(zip(fs, off), key=lambda q: q[1]):
            sz = prog.types[f[1]].get('size')
            if sz is None:
                sz = {'uint': 0, 'int': 0}.get(prog.types[f[1]]['k'])
            if o != at:
                why.append('%s has %d bytes of padding before %s' % (t['path'], o - at, f[0]))
                return False
            if not plain(prog, f[1], pods, why):
                why.append('field %s.%s: %s is not plain data' % (t['path'], f[0], prog.types[f[1]].get('s')))
                return False
            at = o + (sz or 0)
        if at != t['size']:
            why.append('%s has %d bytes of trailing padding' % (t['path'], t['size'] - at))
            return False
        return True
    why.append('%s has invalid bit patterns' % t.get('s'))
    return False


def types(sp):
    prog = sp.dex.prog
    impls = {}
    for i in prog.impls:
        nm = i['trait'].split('::')[-1]
        if nm in ('Pod', 'TriviallyTransmutable') and not prog.types[i['self']].get('args'):
            impls.setdefault(i['self'], set()).add(nm)
    pods = {prog.types[t].get('path') for t in impls}
    n = 0
    for tid, tr in sorted(impls.items()):
        t = prog.types[tid]
        why = []
        ok = plain(prog, tid, pods, why)
        n += 1
        sp.oblige('T1 plain data without padding', '%s for %s' % ('/'.join(sorted(tr)), t.get('path') or t.get('s')), ok, lambda: '; '.join(why))
    sp.floor('Pod implementations', n, 12)
    sp.count('types', pod_implementations=n)
    for nm, (size, fs) in P.items():
        t = next((t for t in prog.types if t.get('path') == CR + nm and t.get('off')), None)
        if t is None:
            sp.count('layout', absent=nm)
            continue
        sp.oblige('T2 size', nm, t['size'] == size, lambda: '%d bytes, clients expect %d' % (t['size'], size))
        got = {f[0]: (o, prog.types[f[1]].get('size')) for f, o in zip(t['v'][0]['f'], t['off'])}
        spans = {}
        for f, o in got.items():
            spans[o[0]] = f
        for f, (o, s) in fs.items():
            if f in got:
                sp.oblige('T3 field offset', '%s.%s' % (nm, f), got[f][0] == o and got[f][1] in (None, s), lambda: 'at %s, clients expect (%d, %d)' % (got[f], o, s))
            else:
                sp.oblige('T3 a field at every offset', '%s offset %d' % (nm, o), o in spans, lambda: '%s not found' % f)
    for nm, vs in E.items():
        t = next((t for t in prog.types if t.get('path') == CR + nm), None)
        if t is None:
            continue
        for v in t['v']:
            if v['n'] in vs:
                sp.oblige('T4 encoded value', '%s::%s' % (nm, v['n']), int(v['d']) == vs[v['n']], lambda: '%s, stored as %d' % (v['d'], vs[v['n']]))


# instructions whose outcomes are examined; the replace instructions delegate to two of them
VS = ('InitializeMarket', 'NewOrderV3', 'SendTake', 'CancelOrderV2', 'CancelOrderByClientIdV2', 'CancelOrdersByClientIds', 'SettleFunds', 'DisableMarket',
      'SweepFees', 'CloseOpenOrders', 'InitOpenOrders', 'Prune', 'ConsumeEvents', 'ConsumeEventsPermissioned')


def viewed(x, A):
    """indices of the accounts whose data is interpreted through a typed overlay in this outcome"""
    out = set()
    seen = set()

    def scan(t):
        for z in walk(t):
            if z in seen:
                continue
            seen.add(z)
            if z.op == 'view':
                for y in walk(z.a[0]):
                    if y.op == 'idx' and y.a[0] is A.base:
                        out.add(y.a[1])
    for r, v in x.st.mem.items():
        if r.op != 'L':
            scan(r)
    for f in x.st.facts:
        scan(f)
    return out


def accounts(sp):
    D = sp.dex
    n = 0
    for v in VS:
        h = handler(D, v)
        sp.count(v, **h.stats())
        for i, x in enumerate(h.ok):
            if x.infeasible():
                continue
            for a in viewed(x, h.A):
                n += 1
                ok = markers(x, h.A, a)
                if not ok:
                    try:
                        ok = marker_bytes(x, h.A, a) == list(b'serumpadding')
                    except Exception:
                        ok = False
                sp.oblige('A1 markers checked or written before the data is interpreted', '%s account %s' % (hexit(h, i, x), sh(a, 60)), ok, 'head/tail markers not established')
    sp.floor('interpreted accounts', n, 100)


def slab_new(sp):
    """the unsized cast to Slab happens on at least a header's worth of bytes, in whole nodes"""
    D = sp.dex
    prog = D.prog
    e = D.engine(slab=False)
    e.nomerge = lambda s, f: True
    e.precise_err = True
    n = mk('arg', 'len')
    b = mk('heap', mk('bytes0', 0))
    outs = e.call_fn(D.fn('critbit::Slab::new'), [mk('slice', b, ZERO, n)], State(), mk('frame0', 'new'))
    k = 0
    for s, r in outs:
        x = View(e, s, r)
        if x.infeasible():
            continue
        k += 1
        w = 'Slab::new outcome %d' % k
        sl = next((z for z in walk(r) if z.op in ('slice', 'sl')), None)
        if not sp.oblige('S1 result is part of the given bytes', w, sl is not None and sl.a[0] is b and sl.a[1] is ZERO, lambda: sh(r, 200)):
            continue
        sp.oblige('S2 long enough for the header', w, x.lt(n, I(32)) is False, 'length not checked')
        want = sub(n, mk('rem', sub(n, I(32)), I(72)))
        sp.oblige('S3 whole nodes only', w, x.eqv(sl.a[2], want), lambda: 'length %s' % sh(sl.a[2], 120))
    sp.floor('Slab::new', k, 1)
    for nm in ('critbit::SlabHeader', 'critbit::AnyNode'):
        t = next((t for t in prog.types if t.get('path') == CR + nm and t.get('off')), None)
        sp.oblige('S4 no alignment requirement', nm, t is None or t['align'] == 1, lambda: 'alignment %s' % t['align'])


def check_c24(sp):
    types(sp)
    slab_new(sp)
    accounts(sp)


CHECKS = {'C24': check_c24}
TECHNIQUE = {'C24': 'type-level audit of the compiler\'s layouts for every Pod implementation, plus abstract interpretation of the handlers for the markers of each overlaid account'}
