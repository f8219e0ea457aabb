"""C18: the instruction codec.  The decoder is summarised over a symbolic byte string; every accepting
outcome is compared with the published wire format, and the encoder's serde implementation with the same table."""
from spec import *

I32 = 'Side', 'SelfTradeBehavior', 'OrderType'
ENUMS = {'Side': ('Bid', 'Ask'), 'SelfTradeBehavior': ('DecrementTake', 'CancelProvide', 'AbortTransaction'),
         'OrderType': ('Limit', 'ImmediateOrCancel', 'PostOnly')}
V3 = [('side', 'Side'), ('limit_price', 'nz64'), ('max_coin_qty', 'nz64'), ('max_native_pc_qty_including_fees', 'nz64'),
      ('self_trade_behavior', 'SelfTradeBehavior'), ('order_type', 'OrderType'), ('client_order_id', 'u64'), ('limit', 'u16'), ('max_ts', 'i64')]
V1 = [('side', 'Side'), ('limit_price', 'nz64'), ('max_qty', 'nz64'), ('order_type', 'OrderType'), ('client_id', 'u64')]
# tag -> (variant, payload type or scalar, fields)
WIRE = {
    0: ('InitializeMarket', 'InitializeMarketInstruction', [('coin_lot_size', 'u64'), ('pc_lot_size', 'u64'), ('fee_rate_bps', 'u16'), ('vault_signer_nonce', 'u64'), ('pc_dust_threshold', 'u64')]),
    1: ('NewOrder', 'NewOrderInstructionV1', V1),
    2: ('MatchOrders', None, [('0', 'u16')]),
    3: ('ConsumeEvents', None, [('0', 'u16')]),
    4: ('CancelOrder', 'CancelOrderInstruction', [('side', 'Side'), ('order_id', 'u128'), ('owner', 'k256'), ('owner_slot', 'u8')]),
    5: ('SettleFunds', None, []),
    6: ('CancelOrderByClientId', None, [('0', 'u64')]),
    7: ('DisableMarket', None, []),
    8: ('SweepFees', None, []),
    9: ('NewOrderV2', 'NewOrderInstructionV2', V1 + [('self_trade_behavior', 'SelfTradeBehavior')]),
    10: ('NewOrderV3', 'NewOrderInstructionV3', V3),
    11: ('CancelOrderV2', 'CancelOrderInstructionV2', [('side', 'Side'), ('order_id', 'u128')]),
    12: ('CancelOrderByClientIdV2', None, [('0', 'u64')]),
    13: ('SendTake', 'SendTakeInstruction', [('side', 'Side'), ('limit_price', 'nz64'), ('max_coin_qty', 'nz64'), ('max_native_pc_qty_including_fees', 'nz64'), ('min_coin_qty', 'u64'), ('min_native_pc_qty', 'u64'), ('limit', 'u16')]),
    14: ('CloseOpenOrders', None, []),
    15: ('InitOpenOrders', None, []),
    16: ('Prune', None, [('0', 'u16')]),
    17: ('ConsumeEventsPermissioned', None, [('0', 'u16')]),
    18: ('CancelOrdersByClientIds', None, 'ids'),
    19: ('ReplaceOrderByClientId', 'NewOrderInstructionV3', V3),
    20: ('ReplaceOrdersByClientIds', None, 'orders'),
}
W = {'u8': 1, 'u16': 2, 'u64': 8, 'i64': 8, 'nz64': 8, 'u128': 16, 'k256': 32, 'Side': 4, 'SelfTradeBehavior': 4, 'OrderType': 4}
# what serde writes for a payload of this Rust type (bincode: fixed width little endian, u32 variant indices)
RUST = {'u8': ('u8',), 'u16': ('u16',), 'u64': ('u64',), 'i64': ('i64',), 'u128': ('u128',), 'nz64': ('core::num::nonzero::NonZero<u64>', 'std::num::NonZero<u64>', 'core::num::NonZero<u64>', 'std::num::NonZeroU64'),
        'k256': ('[u64; 4]', '[u8; 32]'), 'Side': ('matching::Side',), 'SelfTradeBehavior': ('instruction::SelfTradeBehavior',), 'OrderType': ('matching::OrderType',)}
BYTES = mk('arg', 'bytes')
BUF = mk('deref', BYTES)
LEN = mk('len', BYTES)
MAXLEN = 5 + 8 + 8 * 54


def width(fs):
    return sum(W[k] for _, k in fs)


def lengths(tag):
    """total lengths of the encodings of a tag"""
    fs = WIRE[tag][2]
    if fs == 'ids':
        return {5 + 8 * k for k in range(9)}
    if fs == 'orders':
        return {13 + 54 * k for k in range(9)}
    n = 5 + width(fs)
    return {n, n - 8} if tag == 10 else {n}      # NewOrderV3 without max_ts: no expiry


def pos(t, L):
    """byte positions of the input (or ('c', byte)) a term is made of, in order; None if not of that form"""
    op = t.op
    env = {LEN: L}
    if op == 'le':
        return pos(t.a[0], L)
    if op in ('zext', 'sext'):
        return pos(t.a[0], L)
    if op == 'bsub' and t.a[0] is BUF:
        o, n = ev(t.a[1], env), ev(t.a[2], env) if isinstance(t.a[2], V) else t.a[2]
        return None if o is None or n is None else list(range(o, o + n))
    if op == 'bytes':
        b = t.a[0] if isinstance(t.a[0], (bytes, bytearray)) else bytes.fromhex(t.a[0])
        return [('c', x) for x in b]
    if op == 'concat':
        r = []
        for x in t.a:
            p = pos(x, L)
            if p is None:
                return None
            r += p
        return r
    if op == 'subval':
        p = pos(t.a[0], L)
        o, n = ev(t.a[1], env), ev(t.a[2], env)
        return None if p is None or o is None or n is None or o + n > len(p) else p[o:o + n]
    if op == 'init' and t.a[0].op == 'idx' and t.a[0].a[0] is BUF:
        o = ev(t.a[0].a[1], env)
        return None if o is None else [o]
    if op == 'prj' and isinstance(t.a[1], tuple) and t.a[1][0] == 'i':
        p = pos(t.a[0], L)
        k = t.a[1][1]
        k = k if isinstance(k, int) else ev(k, env) if isinstance(k, V) else None
        return None if p is None or k is None or k >= len(p) else [p[k]]
    if op == 'agg' and t.a[0][0] in ('array', 'tuple', 'adt'):
        r = []
        for x in t.a[1]:
            p = [('c', x.a[0])] if is_int(x) and t.a[0][0] == 'array' else pos(x, L)
            if p is None:
                return None
            r += p
        return r
    if op in ('cast', 'transmute', 'podcast') and isinstance(t.a[0], V):
        return pos(t.a[0], L)
    return None


def simp(t, env):
    """evaluate with the length and the known fields"""
    return ev(t, env)


class Exit:
    def __init__(s, e, st, r, L=None):
        s.e, s.st, s.r = e, st, r
        s.L = L

    def known(s, off, n, L):
        """constant value of the little-endian integer at off..off+n under the facts"""
        want = list(range(off, off + n))
        for f, (k, v) in s.st.facts.items():
            if k == 'in' and len(v) == 1 and f.op in ('le', 'init', 'prj', 'zext', 'subval', 'bsub') and pos(f, L) == want:
                return next(iter(v))
        got = [s.byte(i, L) for i in want]
        return None if None in got else int.from_bytes(bytes(got), 'little')

    def byte(s, i, L):
        for f, (k, v) in s.st.facts.items():
            if k == 'in' and len(v) == 1 and f.op in ('init', 'prj', 'le') and pos(f, L) == [i]:
                return next(iter(v))
        return None

    def nonzero(s, off, n, L):
        want = list(range(off, off + n))
        for f, (k, v) in s.st.facts.items():
            if pos(f, L) == want and (k == 'ni' and 0 in v or k == 'in' and 0 not in v):
                return True
            if f.op == 'eq' and k == 'in' and v == frozenset({0}) and any(pos(f.a[i], L) == want and is_int(f.a[1 - i]) and f.a[1 - i].a[0] == 0 for i in (0, 1)):
                return True
        return False

    def consistent(s, L):
        env = {LEN: L}
        for f, (k, v) in s.st.facts.items():
            x = ev(f, env)
            if x is not None and (x in v) != (k == 'in'):
                return False
        return True


def payload_fields(prog, r, L):
    """[(name, value)] of the payload of a decoded instruction"""
    if not r.a[1]:
        return []
    p = r.a[1][0]
    if p.op == 'agg' and p.a[0][0] == 'adt' and p.a[0][1] not in ('vec',):
        names = fieldnames(prog, p.a[0][1])
        return list(zip(names, p.a[1]))
    return [('0', p)]


def tydef(prog, path):
    for t in prog.types:
        if isinstance(t, dict) and t.get('path') == path and t.get('v') is not None:
            return t
    raise Missing('type ' + path)


def fieldnames(prog, path):
    return [f[0] for f in tydef(prog, path)['v'][0]['f']]


def check_fields(sp, w, ex, L, base, fs, got, rule='R3'):
    """fields `got` (name -> value) against the layout fs at payload offset base; returns the enum combination"""
    combo = []
    off = base
    g = dict(got)
    sp.oblige(rule + ' fields', w, set(g) == {n for n, _ in fs}, lambda: 'decoded fields %s, published %s' % (sorted(g), [n for n, _ in fs]))
    for n, k in fs:
        v = g.get(n)
        if v is None:
            off += W[k]
            continue
        want = list(range(off, off + W[k]))
        if k in ENUMS:
            code = ex.known(off, 4, L)
            nm = v.a[0][3] if v.op == 'agg' else None
            if nm is None and v.op in ('agg', 'call', 'prj'):
                nm = None
            sp.oblige(rule + ' enum code', w, code is not None and code < len(ENUMS[k]) and nm == ENUMS[k][code], lambda: '%s: code %s decoded as %s' % (n, code, nm or sh(v, 120)))
            combo.append((off, code))
        else:
            p = pos(v, L)
            if p is None and is_int(v):
                p = [('c', b) for b in (v.a[0] & ((1 << 8 * W[k]) - 1)).to_bytes(W[k], 'little')]
            if n == 'max_ts' and off >= L:
                # absent: no expiry
                sp.oblige(rule + ' field value', w, p == [('c', 255)] * 7 + [('c', 127)], lambda: 'absent max_ts decoded as %s' % sh(v, 200))
            else:
                sp.oblige(rule + ' field value', w, p == want, lambda: '%s expected at bytes %d..%d, decoded from %s' % (n, off, off + W[k], sh(v, 200)))
            if k == 'nz64':
                sp.oblige(rule + ' non-zero field', w, ex.nonzero(off, 8, L), '%s not compared with zero' % n)
        off += W[k]
    return tuple(combo)


def extra_facts(ex, L, fs, base):
    """facts about the input that are not part of accepting this encoding"""
    out = []
    enums, nz = [], []
    off = base
    for n, k in fs:
        (enums if k in ENUMS else nz if k == 'nz64' else []).append((off, W[k]))
        off += W[k]
    okpos = [list(range(o, o + n)) for o, n in enums + nz + [(0, 1), (1, 4)]]
    env = {LEN: L}
    for f, (k, v) in ex.st.facts.items():
        if ev(f, env) is not None:
            continue
        ts = [z for z in walk(f) if z.op in ('le', 'bsub', 'subval') and pos(z, L) is not None or z.op == 'init' and pos(z, L)]
        tops = maximal(f, L)
        if not tops:
            continue
        if f.op in ('le', 'bsub', 'subval', 'init', 'prj'):
            p = pos(f, L)
            if p in okpos and (k == 'in' and len(v) == 1 and (p[0] not in [o for o, _ in nz]) or p[0] in [o for o, _ in nz] and k == 'ni' and v == frozenset({0})):
                continue
        env2 = dict(env)
        for z, p in tops:
            if all(isinstance(i, int) for i in p):
                c = ex.known(p[0], len(p), L)
                if c is not None:
                    env2[z] = c
        if ev(f, env2) is not None:
            continue
        if f.op == 'eq':
            p = [pos(x, L) for x in f.a]
            if any(p[i] in [list(range(o, o + n)) for o, n in nz] and f.a[1 - i] is ZERO for i in (0, 1)) and k == 'in' and v == frozenset({0}):
                continue
            # the element count of a list
            if any(p[i] == list(range(5, 13)) and ev(f.a[1 - i], env) is not None for i in (0, 1)):
                continue
        out.append((f, k, v))
    return out


def maximal(t, L, out=None):
    out = [] if out is None else out
    if t.op in ('le', 'bsub', 'subval', 'init', 'prj'):
        p = pos(t, L)
        if p is not None:
            out.append((t, p))
            return out
    for x in t.a:
        if isinstance(x, V):
            maximal(x, L, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    maximal(y, L, out)
    if t.op == 'poly':
        for m, c in t.a[0]:
            for y in m:
                maximal(y, L, out)
    return out


def decode(sp, n=None, pre=()):
    D = sp.dex
    f = D.fn('instruction::MarketInstruction::unpack')
    e = D.engine()
    e.nomerge = lambda st, fr: True
    e.max_parts = 6000
    st = State()
    for t, v in pre:
        e.constrain(st, t, 'in', {v})
    outs = e.call_fn(f, [mk('slice', BUF, ZERO, LEN if n is None else I(n))], st, mk('frame0', 'unpack'))
    res = []
    for s, r in outs:
        if r.op != 'agg':
            raise Unsupported('undetermined decoder outcome %s' % sh(r, 200))
        if r.a[0][3] == 'None':
            continue
        res.append(Exit(e, s, r.a[1][0]))
    return e, res


def le(off, n):
    return mk('le', mk('bsub', BUF, I(off), I(n), 1, 0), 8 * n)


def check_c18(sp):
    prog = sp.dex.prog if hasattr(sp.dex, 'prog') else sp.dex.p
    D = sp.dex
    e, exits = decode(sp)
    seen = {}
    for i, ex in enumerate(exits):
        r = ex.r
        w = 'MarketInstruction::unpack outcome %d' % i
        if not (r.op == 'agg' and r.a[0][0] == 'adt'):
            sp.fail('R1 decoded variant', w, sh(r, 200))
            continue
        nm = r.a[0][3]
        w += ' (%s)' % nm
        Ls = [L for L in range(0, 1500) if ex.consistent(L)]
        if not Ls:
            continue
        L0 = Ls[0]
        tag = ex.known(1, 4, L0) if L0 >= 5 else None
        sp.oblige('R1 version byte', w, ex.known(0, 1, L0) == 0, 'accepted without the version byte being 0')
        if not sp.oblige('R1 tag', w, tag in WIRE, 'accepted with tag %s' % tag):
            continue
        var, ty, fs = WIRE[tag]
        sp.oblige('R1 variant of the tag', w, nm == var, 'tag %d decoded as %s, published %s' % (tag, nm, var))
        bad = [L for L in Ls if L not in lengths(tag)]
        if not sp.oblige('R2 length', w, not bad, 'tag %d accepted with %d..%d bytes' % (tag, bad[0] if bad else 0, bad[-1] if bad else 0)) or nm != var:
            continue
        for L in Ls:
            wl = '%s length %d' % (w, L)
            if fs == 'ids':
                combo, fl = (), []
            elif fs == 'orders':
                cnt = [f for f, (k, v) in ex.st.facts.items() if f.op == 'eq' and k == 'in' and v == frozenset({1}) and any(pos(f.a[q], L) == list(range(5, 13)) and ev(f.a[1 - q], {LEN: L}) == (L - 13) // 54 for q in (0, 1))]
                kc = ex.known(5, 8, L)
                sp.oblige('R3 element count', wl, bool(cnt) or kc == (L - 13) // 54, 'the stored element count is not compared with the length')
                combo, fl = (), [('count', 'u64')]
            else:
                combo = check_fields(sp, wl, ex, L, 5, fs, payload_fields(prog, r, L))
                fl = fs
            seen.setdefault((tag, L), {}).setdefault(tuple(c for _, c in combo), []).append(extra_facts(ex, L, fl, 5))
    # completeness: every published encoding is accepted
    import itertools
    for tag, (var, ty, fs) in WIRE.items():
        combos = set(itertools.product(*[range(len(ENUMS[k])) for _, k in fs if k in ENUMS])) if isinstance(fs, list) else {()}
        for L in sorted(lengths(tag)):
            got = seen.get((tag, L), {})
            for c in combos:
                w = 'tag %d (%s) length %d codes %s' % (tag, var, L, list(c))
                if sp.oblige('R4 published encoding accepted', w, c in got, 'refused'):
                    alts = got[c]
                    ok = any(not a for a in alts)
                    if not ok:
                        pol = {}
                        for a in alts:
                            for f, k, v in a:
                                pol.setdefault(f, set()).add((k, v))
                        ok = all(len(x) > 1 for x in pol.values())
                    sp.oblige('R4 accepted for every field value', w, ok, lambda: 'accepted only if ' + '; '.join('%s %s %s' % (sh(f, 100), k, sorted(v)) for f, k, v in alts[0]))
    # lists of ids, element by element
    for k in range(9):
        L = 5 + 8 * k
        e2, ex2 = decode(sp, L, [(le(1, 4), 18)])
        ex2 = [x for x in ex2 if x.r.op == 'agg' and x.r.a[0][3] == 'CancelOrdersByClientIds']
        w = 'unpack tag 18, %d ids' % k
        sp.oblige('R3 list of ids accepted', w, len(ex2) >= 1, 'refused')
        for x in ex2:
            a = x.r.a[1][0]
            if sp.oblige('R3 list of ids', w, a.op == 'agg' and len(a.a[1]) == 8, lambda: sh(a, 200)):
                for j in range(8):
                    p = pos(a.a[1][j], L)
                    sp.oblige('R3 id in the list', w, p == list(range(5 + 8 * j, 13 + 8 * j)) if j < k else is_int(a.a[1][j]) and a.a[1][j].a[0] == 0, lambda: 'entry %d of %d: %s' % (j, k, sh(a.a[1][j], 160)))
    # lists of orders, element by element
    runs = [(k, [(j % 2, j % 3, (j + 1) % 3) for j in range(k)]) for k in range(9) if k != 1]
    runs += [(1, [c]) for c in itertools.product(range(2), range(3), range(3))]
    for k, codes in runs:
        pre = [(le(1, 4), 20)]
        for j, c in enumerate(codes):
            o = 13 + 54 * j
            pre += [(le(o, 4), c[0]), (le(o + 28, 4), c[1]), (le(o + 32, 4), c[2])]
        L = 13 + 54 * k
        e2, ex2 = decode(sp, L, pre)
        ex2 = [x for x in ex2 if x.r.op == 'agg' and x.r.a[0][3] == 'ReplaceOrdersByClientIds']
        sp.oblige('R5 list of %d orders' % k, 'unpack tag 20', len(ex2) >= 1, '%d accepting outcomes' % len(ex2))
        for x in ex2:
            w = 'unpack tag 20, %d orders' % k
            v = x.r.a[1][0]
            items = vec_items(v)
            if not sp.oblige('R5 decoded orders', w, items is not None and len(items) == k, lambda: sh(v, 200)):
                continue
            for j, it in enumerate(items):
                if it.op == 'agg':
                    names = fieldnames(prog, it.a[0][1])
                    check_fields(sp, '%s, order %d' % (w, j), x, L, 13 + 54 * j, V3, list(zip(names, it.a[1])), 'R5')
                else:
                    sp.fail('R5 decoded orders', w, sh(it, 200))
        sp.count('unpack lists', outcomes=len(ex2))
    sp.count('unpack', outcomes=len(exits), encodings=len(seen))
    encoder(sp, prog)
    sp.floor('accepting decoder outcomes', len(exits), 80)


def vec_items(v):
    if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'vec':
        b, n = v.a[1]
        if b.op == 'agg' and is_int(n):
            return list(b.a[1])[:n.a[0]]
        if is_int(n) and n.a[0] == 0:
            return []
    return None


# ---------------------------------------------------------------- encoder
def serfn(prog, ty):
    c = [k for k in prog.fns if k.endswith('Serialize for %s>::serialize::<__S>' % ty)]
    if len(c) != 1:
        raise Missing('Serialize for %s (%d)' % (ty, len(c)))
    return prog.fns[c[0]]


def serialise(sp, prog, ty):
    """outcomes of the serde implementation: [(state, log, return value)]"""
    e = sp.dex.engine()
    e.nomerge = lambda st, fr: True

    def logm(path):
        def f(e, c, st):
            args = []
            for a in c.args[1:]:
                args.append(a)
            st.log = st.log + (mk('ser', path.rsplit('::', 1)[-1], *args),)
            s2 = st.copy()
            ok = mk('serok', path, *args)
            return [(st, e.okv(ok)), (s2, e.errv(mk('sererr')))]
        return f
    M = e.models
    for p in ('serialize_struct', 'serialize_newtype_variant', 'serialize_unit_variant', 'serialize_struct_variant', 'serialize_tuple_variant', 'serialize_newtype_struct',
              'serialize_u8', 'serialize_u16', 'serialize_u32', 'serialize_u64', 'serialize_i64', 'serialize_u128', 'serialize_tuple', 'serialize_unit', 'serialize_seq', 'serialize_bytes'):
        M['serde::ser::Serializer::' + p] = logm('serde::ser::Serializer::' + p)
    for t in ('SerializeStruct', 'SerializeStructVariant', 'SerializeTupleVariant', 'SerializeTuple', 'SerializeSeq'):
        for m in ('serialize_field', 'serialize_element', 'skip_field', 'end'):
            M['serde::ser::%s::%s' % (t, m)] = logm('serde::ser::%s::%s' % (t, m))
    st = State()
    f = serfn(prog, ty)
    outs = e.call_fn(f, [mk('ptr', mk('deref', mk('arg', 'self'))), mk('arg', 'ser')], st, mk('frame0', 'ser'))
    return e, [(s, s.log, r) for s, r in outs if not (r.op == 'agg' and r.a[0][3] == 'Err')]


def selffield(v):
    """(field index, name) of a reference to a field of *self"""
    if v.op == 'ptr' and v.a[0].op == 'fld' and v.a[0].a[0] is mk('deref', mk('arg', 'self')):
        return v.a[0].a[1], v.a[0].a[2]
    return None


def cstr(v):
    if v.op == 'bytes':
        b = v.a[0]
        return b.decode() if isinstance(b, (bytes, bytearray)) else b
    return str(v.a[0]) if v.a else show(v)


def encoder(sp, prog):
    D = sp.dex
    f = D.fn('instruction::MarketInstruction::pack')
    e = D.engine()
    outs = e.call_fn(f, [mk('ptr', mk('deref', mk('arg', 'self')))], State(), mk('frame0', 'pack'))
    for s, r in outs:
        calls = [z for z in walk(r) if z.op == 'call' and z.a[0] == 'bincode::serialize']
        ok = len(calls) == 1 and any(z.op == 'agg' and z.a[0][0] == 'tuple' and len(z.a[1]) == 2 and is_int(z.a[1][0]) and z.a[1][0].a[0] == 0 and z.a[1][1] is mk('ptr', mk('deref', mk('arg', 'self'))) for z in walk(calls[0]))
        sp.oblige('E1 pack = version 0 then the instruction', 'MarketInstruction::pack', ok, lambda: sh(r, 300))
    sp.floor('pack outcomes', len(outs), 1)
    t = tydef(prog, 'serum_dex::instruction::MarketInstruction')
    vs = {v['n']: v for v in t['v']}
    e, outs = serialise(sp, prog, 'instruction::MarketInstruction')
    done = set()
    for s, log, r in outs:
        if len(log) != 1 or log[0].a[0] not in ('serialize_newtype_variant', 'serialize_unit_variant'):
            sp.fail('E2 one variant record', 'Serialize for MarketInstruction', '; '.join(sh(x, 100) for x in log))
            continue
        a = log[0].a
        idx = a[2].a[0] if is_int(a[2]) else None
        nm = cstr(a[3])
        w = 'Serialize for MarketInstruction, variant %s' % nm
        d = [k for k, v in enumerate(t['v']) if e.lookup(s, mk('discr', mk('init', mk('deref', mk('arg', 'self'))))) == int(v['d'])]
        real = t['v'][d[0]]['n'] if d else nm
        if not sp.oblige('E2 tag', w, idx in WIRE and WIRE[idx][0] == real, 'variant %s encoded with tag %s' % (real, idx)):
            continue
        done.add(idx)
        var, ty, fs = WIRE[idx]
        v = vs[real]
        if a[0] == 'serialize_unit_variant':
            sp.oblige('E3 payload', w, fs == [], 'payload not encoded')
            continue
        pt = prog.types[v['f'][0][1]]
        if ty:
            sp.oblige('E3 payload type', w, pt['s'] == 'instruction::' + ty, '%s instead of %s' % (pt['s'], ty))
        elif fs == 'ids':
            # eight ids without a length prefix
            sp.oblige('E3 payload type', w, pt['s'] == '[u64; 8]', pt['s'])
        elif fs == 'orders':
            sp.oblige('E3 payload type', w, pt['s'].endswith('Vec<instruction::NewOrderInstructionV3>'), pt['s'])
        else:
            sp.oblige('E3 payload type', w, pt['s'] in RUST[fs[0][1]], '%s instead of %s' % (pt['s'], fs[0][1]))
        sp.oblige('E3 payload is the variant field', w, a[4].op == 'ptr' and a[4].a[0].op == 'fld' and a[4].a[0].a[1] == 0, lambda: sh(a[4], 200))
    sp.oblige('E2 every variant encoded', 'Serialize for MarketInstruction', done == set(WIRE), lambda: 'missing %s' % sorted(set(WIRE) - done))
    for ty, fs in {WIRE[k][1]: WIRE[k][2] for k in WIRE if WIRE[k][1]}.items():
        td = tydef(prog, 'serum_dex::instruction::' + ty)
        names = [x[0] for x in td['v'][0]['f']]
        e, outs = serialise(sp, prog, 'instruction::' + ty)
        w = 'Serialize for ' + ty
        sp.oblige('E4 encoder total', w, len(outs) >= 1, 'no outcome')
        for s, log, r in outs:
            fl = [x for x in log if x.a[0] in ('serialize_field', 'serialize_element')]
            bad = [x for x in log if x.a[0] not in ('serialize_field', 'serialize_element', 'serialize_struct', 'end', 'serialize_tuple')]
            order = [selffield(x.a[-1]) for x in fl]
            sp.oblige('E4 fields in published order', w, not bad and [o and names[o[0]] for o in order] == [n for n, _ in fs], lambda: 'encoded %s, published %s' % ([o and names[o[0]] for o in order], [n for n, _ in fs]))
        for n, k in fs:
            ft = [prog.types[x[1]]['s'] for x in td['v'][0]['f'] if x[0] == n]
            sp.oblige('E5 field width', w + '.' + n, bool(ft) and ft[0] in RUST[k], lambda: '%s instead of %s' % (ft, k))
    for en, names in ENUMS.items():
        mod = 'instruction' if en == 'SelfTradeBehavior' else 'matching'
        td = tydef(prog, 'serum_dex::%s::%s' % (mod, en))
        e, outs = serialise(sp, prog, '%s::%s' % (mod, en))
        got = {}
        for s, log, r in outs:
            a = log[0].a
            d = [v['n'] for v in td['v'] if e.lookup(s, mk('discr', mk('init', mk('deref', mk('arg', 'self'))))) == int(v['d'])]
            if a[0] == 'serialize_unit_variant' and is_int(a[2]):
                got[d[0] if d else cstr(a[3])] = a[2].a[0]
        sp.oblige('E6 enum codes', 'Serialize for ' + en, got == {n: i for i, n in enumerate(names)}, lambda: '%s' % got)
    sp.count('encoder', types=6 + len(ENUMS) + 1)


CHECKS = {'C18': check_c18}
TECHNIQUE = {'C18': 'abstract interpretation of the decoder over a symbolic byte string (all lengths) and of the derived serde encoder, both compared with the published wire-format table'}
