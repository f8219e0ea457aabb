"""C20: queue records.  Event::new/Request::new are summarised for every kind of record with symbolic
quantities; the stored record is compared with the published layout and decoding it with what was encoded."""
import itertools
from spec import *
from codec import tydef, fieldnames
import funds

# record -> fields of the stored struct as published (flag bits given per view)
EV_BITS = {'Fill': 1, 'Out': 2, 'Bid': 4, 'Maker': 8, 'ReleaseFunds': 16}
RQ_BITS = {'NewOrder': 1, 'CancelOrder': 2, 'Bid': 4, 'PostOnly': 8, 'ImmediateOrCancel': 16}


def value(e, st, D, prog, tid, name, choice):
    """a value of type tid: enums by choice, Option<NonZero> by choice, everything else symbolic"""
    t = prog.types[tid]
    if t['k'] == 'bool':
        return I(choice)
    if t['k'] == 'enum' and t['s'].endswith('Option<core::num::nonzero::NonZero<u64>>') or (t.get('path') or '').endswith('option::Option'):
        if not choice:
            return e.none()
        a = mk('arg', 'v.' + name)
        e.constrain(st, a, 'ni', {0})
        return e.some(a)
    if t['k'] == 'enum':
        return agg(('adt', t['path'], choice, t['v'][choice]['n']), [])
    a = mk('arg', 'v.' + name)
    if 'NonZero' in t['s']:
        e.constrain(st, a, 'ni', {0})
    return a


def choices(prog, tid):
    t = prog.types[tid]
    if t['k'] == 'bool':
        return [0, 1]
    if (t.get('path') or '').endswith('option::Option'):
        return [0, 1]
    if t['k'] == 'enum':
        return range(len(t['v']))
    return [None]


def same_val(x, a, b):
    if a is b:
        return True
    if a.op == 'agg' and b.op == 'agg' and a.a[0][0] == b.a[0][0] == 'adt':
        return a.a[0][3] == b.a[0][3] and len(a.a[1]) == len(b.a[1]) and all(same_val(x, p, q) for p, q in zip(a.a[1], b.a[1]))
    if is_int(b) and b.op == 'int' and a.op != 'agg':
        return x.e.lookup(x.st, a) == b.a[0]
    return a.op != 'agg' and b.op != 'agg' and x.same(a, b)


def opt(v):
    return v.a[1][0] if v.op == 'agg' and v.a[1] else ZERO


def code(D, v):
    t = D.type_by_path(v.a[0][1].split('::', 1)[1])
    return int(t['v'][v.a[0][2]]['d'])


def stored_event(D, nm, f):
    bid = EV_BITS['Bid'] if f['side'].a[0][3] == 'Bid' else 0
    r = {'owner_slot': f['owner_slot'], 'order_id': f['order_id'], 'owner': f['owner'], 'client_order_id': opt(f['client_order_id'])}
    if nm == 'Fill':
        r.update(event_flags=I(EV_BITS['Fill'] | bid | (EV_BITS['Maker'] if f['maker'].a[0] else 0)), fee_tier=I(code(D, f['fee_tier'])),
                 native_qty_released=f['native_qty_received'], native_qty_paid=f['native_qty_paid'], native_fee_or_rebate=f['native_fee_or_rebate'])
    else:
        r.update(event_flags=I(EV_BITS['Out'] | bid | (EV_BITS['ReleaseFunds'] if f['release_funds'].a[0] else 0)), fee_tier=ZERO,
                 native_qty_released=f['native_qty_unlocked'], native_qty_paid=f['native_qty_still_locked'], native_fee_or_rebate=ZERO)
    return r


def stored_request(D, nm, f):
    bid = RQ_BITS['Bid'] if f['side'].a[0][3] == 'Bid' else 0
    r = {'order_id': f['order_id'], 'client_order_id': opt(f['client_order_id'])}
    if nm == 'NewOrder':
        ot = {'PostOnly': 8, 'ImmediateOrCancel': 16, 'Limit': 0}[f['order_type'].a[0][3]]
        r.update(request_flags=I(1 | bid | ot), owner_slot=f['owner_slot'], fee_tier=I(code(D, f['fee_tier'])), self_trade_behavior=I(code(D, f['self_trade_behavior'])),
                 max_coin_qty_or_cancel_id=f['max_coin_qty'], native_pc_qty_locked=opt(f['native_pc_qty_locked']), owner=f['owner'])
    else:
        r.update(request_flags=I(2 | bid), owner_slot=f['expected_owner_slot'], fee_tier=ZERO, self_trade_behavior=ZERO, max_coin_qty_or_cancel_id=f['cancel_id'],
                 native_pc_qty_locked=ZERO, owner=f['expected_owner'])
    return r


def roundtrip(sp, rec, view, stored):
    D = sp.dex
    prog = D.prog
    vt = D.type_by_path('state::' + view)
    rt = D.type_by_path('state::' + rec)
    rnames = [f[0] for f in rt['v'][0]['f']]
    new, as_view = D.fn('state::%s::new' % rec), D.fn('state::%s::as_view' % rec)
    n = 0
    for vi, v in enumerate(vt['v']):
        for ch in itertools.product(*[choices(prog, f[1]) for f in v['f']]):
            e = D.engine(fees=False)
            e.nomerge = lambda st, fr: True
            st = State()
            fs = [value(e, st, D, prog, f[1], f[0], c) for f, c in zip(v['f'], ch)]
            f = dict(zip([q[0] for q in v['f']], fs))
            w = '%s::%s{%s}' % (view, v['n'], ', '.join('%s: %s' % (q[0], x.a[0][3] if x.op == 'agg' else sh(x, 20)) for q, x, c in zip(v['f'], fs, ch) if c is not None))
            outs = e.call_fn(new, [agg(('adt', vt['path'], vi, v['n']), fs)], st, mk('frame0', 'new'))
            sp.oblige('R1 encoding is total', w, len(outs) == 1, '%d outcomes' % len(outs))
            for s, r in outs:
                n += 1
                x = View(e, s)
                if r.op != 'agg':
                    sp.fail('R1 stored record', w, sh(r, 200))
                    continue
                g = dict(zip(rnames, r.a[1]))
                for k, want in stored(D, v['n'], f).items():
                    sp.oblige('R1 stored field', w + ' ' + k, k in g and same_val(x, g[k], want), lambda: '%s := %s, published %s' % (k, sh(g.get(k, ZERO), 100), sh(want, 100)))
                loc = mk('heap', mk('rec', n))
                s.mem[loc] = r
                back = e.call_fn(as_view, [mk('ptr', loc)], s, mk('frame0', 'as_view'))
                sp.oblige('R2 decoding succeeds', w, len(back) >= 1 and not any(is_err(q) for _, q in back), '%d outcomes, %d refusals' % (len(back), sum(is_err(q) for _, q in back)))
                for s2, q in back:
                    if is_err(q):
                        continue
                    x2 = View(e, s2)
                    d = q.a[1][0] if q.op == 'agg' else q
                    if not sp.oblige('R2 same kind of record', w, d.op == 'agg' and d.a[0][3] == v['n'], lambda: sh(d, 150)):
                        continue
                    for name, a, b in zip([z[0] for z in v['f']], d.a[1], fs):
                        sp.oblige('R2 decoded field', w + ' ' + name, same_val(x2, a, b), lambda: '%s decoded as %s, encoded %s' % (name, sh(a, 100), sh(b, 100)))
    return n


def check_c20(sp):
    n = roundtrip(sp, 'Event', 'EventView', stored_event)
    m = roundtrip(sp, 'Request', 'RequestView', stored_request)
    sp.count('Event', records=n)
    sp.count('Request', records=m)
    sp.floor('event records', n, 60)
    sp.floor('request records', m, 100)
    funds.request_terms(sp)


CHECKS = {'C20': check_c20}
TECHNIQUE = {'C20': 'abstract interpretation of the record encoder followed by the decoder, for every kind of record with symbolic quantities; round trip and published layout compared field by field'}
