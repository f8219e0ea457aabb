"""C26: the open orders proxy signs only for the user who signed.  Every middleware hook is interpreted on a symbolic
request context (accounts acc0..accN, empty seed and instruction lists); the rules are about the context it leaves."""
from spec import *
from builders import b58
from layout import P as LAYOUT

CRATE = 'serum_dex_permissioned'
MW = 'middleware::MarketMiddleware>::'
# hook -> (accounts the proxy requires, user, open orders, market)
HOOKS = {'new_order_v3': (12, 7, 1, 0), 'cancel_order_v2': (6, 4, 3, 0), 'cancel_order_by_client_id_v2': (6, 4, 3, 0),
         'settle_funds': (10, 2, 1, 0), 'close_open_orders': (4, 1, 0, 3)}
PAYER = 6
LISTS = ('seeds', 'pre_instructions', 'post_instructions', 'post_callbacks')
DEX_ID = b58('9xQeWvG816bUx9EPjHmaT23yvVM2ZWbrrpZb9PusVFin')
TOKEN_ID = b58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
SYSTEM_ID = bytes(32)
PADDING = 12


def find(prog, suffix):
    for p in prog.bypath:
        if p.endswith(suffix):
            f = prog.bypath[p]
            return f[0] if isinstance(f, list) else f
    raise Missing('function ' + suffix)


def fieldval(D, base, ty, name):
    """the value field `name` of the struct at `*base` had on entry"""
    i, _ = D.field(ty, name)
    return mk('init', mk('fld', mk('deref', mk('arg', base)), i, name, 0))


def elems(v):
    """elements of a vector value, None when its length is not known"""
    if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'vec' and is_int(v.a[1][1]) and v.a[1][0].op == 'agg' and len(v.a[1][0].a[1]) == v.a[1][1].a[0]:
        return list(v.a[1][0].a[1])
    return None


def seed_of(v):
    """what the bytes of one seed are: a literal, one byte, or a whole value"""
    if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'vec':
        return seed_of(v.a[1][0])
    if v.op == 'bsub' and is_int(v.a[1]) and v.a[1].a[0] == 0:
        b = v.a[0]
        return mk('init', b) if b.op in ('deref', 'fld', 'idx') else seed_of(b)
    if v.op == 'agg' and v.a[0][0] == 'array' and len(v.a[1]) > 1 and all(is_int(x) for x in v.a[1]):
        return mk('bytes', bytes(x.a[0] & 255 for x in v.a[1]).hex())
    if v.op == 'agg' and v.a[0][0] == 'array' and len(v.a[1]) == 1:
        return v.a[1][0]
    return v


def lit(b):
    return mk('bytes', b.hex())


def pdas(e):
    """derived addresses as terms of the program and the seeds (the bump seed left out: it is a function of the others
    for find_program_address; for create_program_address the last one-byte seed is the bump)"""
    def seeds(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        if not is_int(n):
            raise Unsupported('seed list of unknown length')
        out = []
        for j in range(n.a[0]):
            x = e.read(st, mkidx2(b, add(s, I(j))))
            out.append(seed_of(e.read(st, mk('sl', *e.to_slice(st, x)))))
        return out

    def fpa(e, c, st):
        k = [e.read(st, deref_loc(c.args[1]))] + seeds(e, c, st)
        return [(st, agg(('tuple',), [mk('pdaof', *k, mk('pdabump', *k)), mk('pdabump', *k)]))]

    def cpa(e, c, st):
        k = [e.read(st, deref_loc(c.args[1]))] + seeds(e, c, st)
        return [(st, e.okv(mk('pdaof', *k))), (st.copy(), e.errv(mk('pdaerr')))]
    P = 'solana_program::pubkey::Pubkey::'
    for k, h in (('find_program_address', fpa), ('create_program_address', cpa)):
        e.boundary[P + k] = e.models[P + k] = h


def address(prog, e, v):
    """the bytes a constant address term denotes, else None"""
    if v.op == 'init' and v.a[0].op == 'static':
        b = prog.statics.get(v.a[0].a[0]) if hasattr(prog, 'statics') else None
        if b is not None:
            v = e.const_bytes(b) if hasattr(e, 'const_bytes') else b
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, V):
        for z in walk(v):
            if z.op == 'agg' and len(z.a[1]) == 32 and all(is_int(x) for x in z.a[1]):
                return bytes(x.a[0] & 255 for x in z.a[1])
            if z.op == 'bytes' and len(z.a[0]) == 64:
                return bytes.fromhex(z.a[0])
    return None


class Ctx:
    """a symbolic request context with n accounts"""

    def __init__(self, D, n):
        self.D, self.n = D, n
        self.e = e = Engine(D.prog)
        e.nomerge = lambda st, fr: True
        self.ai = D.type_by_path('account_info::AccountInfo')
        self.ct = D.type_by_path('middleware::Context')
        self.af = [x[0] for x in self.ai['v'][0]['f']]
        self.cf = [x[0] for x in self.ct['v'][0]['f']]
        self.st = State()
        self.loc = mk('deref', mk('arg', 'ctx'))
        vals = {'program_id': self.ref('program_id'), 'dex_program_id': self.ref('dex'),
                'accounts': e.vec(agg(('array',), [self.acc(i) for i in range(n)]), I(n))}
        for k in LISTS:
            vals[k] = e.vec(agg(('array',), []), I(0))
        self.st.mem[self.loc] = agg(('adt', self.ct['path'], 0, 'Context'), [vals[k] for k in self.cf])
        pdas(e)
        self.program, self.dex = [mk('init', mk('deref', mk('arg', k))) for k in ('program_id', 'dex')]

    def ref(self, name):
        return mk('ptr', mk('deref', mk('arg', name)))

    def key(self, i):
        return mk('init', mk('deref', mk('arg', 'acc%d.key' % i)))

    def acc(self, i, **over):
        return agg(('adt', self.ai['path'], 0, 'AccountInfo'),
                   [over[k] if k in over else self.ref('acc%d.%s' % (i, k)) if k in ('key', 'owner') else mk('arg', 'acc%d.%s' % (i, k)) for k in self.af])

    def run(self, f, *more):
        outs = self.e.call_fn(f, [self.ref('self'), mk('ptr', self.loc)] + list(more), self.st, mk('frame0', 'hook'))
        r = []
        for s, v in outs:
            if not is_err(v):
                w = View(self.e, s, v)
                if not w.infeasible():
                    r.append((s, w))
        return outs, r

    def field(self, s, name):
        return self.e.read(s, self.loc).a[1][self.cf.index(name)]

    def lists(self, s, *names):
        return [elems(self.field(s, k)) for k in names]

    def seeds(self, s):
        q = elems(self.field(s, 'seeds'))
        return [[seed_of(x) for x in (elems(y) or [])] for y in q] if q is not None else None


def sames(got, want):
    return got is not None and len(got) == len(want) and all(x is y for x, y in zip(got, want))


def shows(vs):
    return [show(x)[:160] for x in vs] if vs is not None else None


def hooks(sp, D):
    prog = D.prog
    for name, (n0, u, o, m) in HOOKS.items():
        f = find(prog, '<middleware::OpenOrdersPda as ' + MW + name)
        for n in (n0, n0 + 2):
            for side in ((0, 1) if name == 'new_order_v3' else (None,)):
                hook(sp, D, f, name, n, u, o, m, side)


def hook(sp, D, f, name, n, u, o, m, side):
    C = Ctx(D, n)
    e = C.e
    w0 = '%s%s, %d accounts' % (name, '' if side is None else ('(bid)', '(ask)')[side], n)
    more = []
    if f.argc > 2:
        more = [C.ref('ix')]
    if side is not None:
        st_ = D.type_by_path('matching::Side')
        C.st.mem[mk('deref', mk('arg', 'ix'))] = D.struct_val('instruction::NewOrderInstructionV3', {'side': agg(('adt', st_['path'], side, st_['v'][side]['n']), [])})
    outs, oks = C.run(f, *more)
    sp.oblige('R0 the hook has a successful outcome', w0, len(oks) > 0, '%d outcomes' % len(outs))
    user = C.key(u)
    for i, (s, v) in enumerate(oks):
        w = '%s, outcome %d' % (w0, i)
        sp.oblige('R1 the user signed', w, v.nz(mk('arg', 'acc%d.is_signer' % u)), 'nothing on this path requires accounts[%d].is_signer' % u)
        accs, pre, post, cbs = C.lists(s, 'accounts', 'pre_instructions', 'post_instructions', 'post_callbacks')
        want = [C.acc(o, is_signer=I(1)) if j == u else C.acc(j) for j in range(n)]
        if sp.oblige('R2 the owner position carries the open orders account, as signer; nothing else changes', w, accs is not None and len(accs) == n, lambda: show(C.field(s, 'accounts'))[:600]):
            for j in range(n):
                sp.oblige('R2 the owner position carries the open orders account, as signer; nothing else changes', '%s, position %d' % (w, j), accs[j] is want[j],
                          lambda: 'is %s, required %s' % (show(accs[j])[:300], show(want[j])[:300]))
        base = [lit(b'open-orders'), C.dex, C.key(m), user]
        got = C.seeds(s)
        sp.oblige("R3 the proxy signs as this user's open orders account of this market, and as nothing else", w,
                  got is not None and len(got) == 1 and sames(got[0], base + [mk('pdabump', C.program, *base)]), lambda: 'seeds %s' % [shows(q) for q in got or []])
        sp.oblige('R4 the hook itself invokes nothing and leaves no callback', w, cbs == [] and not [x for x in s.log if x.op == 'invoke'], lambda: [show(x)[:200] for x in s.log])
        if side is None:
            sp.oblige('R4 no other instruction', w, pre == [] and post == [], lambda: '%s %s' % (show(C.field(s, 'pre_instructions'))[:200], show(C.field(s, 'post_instructions'))[:200]))
            continue
        if not sp.oblige('R5 one approval before the order, one revocation after', w, pre is not None and post is not None and len(pre) == 1 and len(post) == 1,
                         lambda: '%s / %s' % (show(C.field(s, 'pre_instructions'))[:300], show(C.field(s, 'post_instructions'))[:300])):
            continue
        ixf = [x[0] for x in D.type_by_path('instruction::Instruction')['v'][0]['f']]
        for which, q in (('approve', pre[0]), ('revoke', post[0])):
            ix, infos, sg = q.a[1]
            p, metas, data = [ix.a[1][ixf.index(k)] for k in ('program_id', 'accounts', 'data')]
            wm = [(C.key(PAYER), 0, 1), (C.key(o), 0, 0), (user, 1, 0)] if which == 'approve' else [(C.key(PAYER), 0, 1), (user, 1, 0)]
            ms = elems(metas) or []
            sp.oblige('R5 %s names the payer, the user%s' % (which, ' and, as delegate, the open orders account' if which == 'approve' else ''), w,
                      len(ms) == len(wm) and all(sames(list(a.a[1]), [b[0], I(b[1]), I(b[2])]) for a, b in zip(ms, wm)), lambda: show(metas)[:500])
            sp.oblige('R5 %s goes to the token program' % which, w, address(D.prog, e, p) == TOKEN_ID or 'spl_token::ID' in show(p), lambda: show(p)[:200])
            sp.oblige('R5 %s needs no program signature' % which, w, elems(sg) == [], lambda: show(sg)[:200])
            d = elems(data) or []
            if which == 'revoke':
                sp.oblige('R5 revoke is a revocation', w, len(d) == 1 and d[0] is I(5), lambda: show(data)[:200])
                continue
            amt = amount(d)
            if side == 0:
                good = amt is mk('arg', 'max_native_pc_qty_including_fees')
            else:
                lots = [z for z in walk(amt) if z.op == 'le'] if amt is not None else []
                good = len(set(lots)) == 1 and amt is mul(mk('arg', 'max_coin_qty'), lots[0]) and lot(lots[0])
            sp.oblige("R5 the approval is for the order's full worst case and no more", w, len(d) == 9 and d[0] is I(4) and good, lambda: 'amount %s' % (show(amt)[:300] if amt is not None else show(data)[:300]))


def amount(d):
    """the integer whose little-endian bytes follow the tag"""
    if len(d) != 9:
        return None
    b = d[1]
    if b.op != 'prj' or b.a[0].op != 'tole':
        return None
    t = b.a[0]
    return t.a[0] if all(x.op == 'prj' and x.a[0] is t and x.a[1] == ('i', I(j)) or project(t, ('i', I(j))) is x for j, x in enumerate(d[1:])) else None


def lot(z):
    """the market's coin lot size, read from the bytes of account 0"""
    b = z.a[0]
    off = 5 + LAYOUT['state::MarketState'][1]['coin_lot_size'][0]
    return z.a[1] == 64 and b.op == 'bsub' and b.a[1] is I(off) and b.a[2] is I(8) and b.a[3] == 1 and 'acc0.data' in show(b.a[0]) and not any(
        y.op == 'arg' and y.a[0] != 'acc0.data' for y in walk(b.a[0]))


def prune(sp, D):
    f = find(D.prog, '<middleware::OpenOrdersPda as ' + MW + 'prune')
    for n in (7, 9):
        C = Ctx(D, n)
        outs, oks = C.run(f, C.ref('ix'))
        sp.oblige('R0 the hook has a successful outcome', 'prune, %d accounts' % n, len(oks) > 0, '%d outcomes' % len(outs))
        for i, (s, v) in enumerate(oks):
            w = 'prune, %d accounts, outcome %d' % (n, i)
            sp.oblige('R6 prune names the open orders account as its own owner and changes nothing else', w,
                      sames(elems(C.field(s, 'accounts')), [C.acc(4) if j == 5 else C.acc(j) for j in range(n)]), lambda: show(C.field(s, 'accounts'))[:900])
            sp.oblige('R6 prune adds no signature and no instruction', w, all(x == [] for x in C.lists(s, *LISTS)), '')


def init(sp, D):
    f = find(D.prog, '<middleware::OpenOrdersPda as ' + MW + 'init_open_orders')
    OO = 'middleware::OpenOrdersPda'
    for n in (7, 8):
        C = Ctx(D, n)
        e = C.e
        # Anchor re-reads the instruction arguments from the two bytes it is handed

        def de(e, c, st):
            b, s, k = e.to_slice(st, e.read(st, deref_loc(c.args[0])))
            s2 = st.copy()
            if not is_int(k) or k.a[0] == 0:
                return [(s2, e.errv(mk('ioerr')))]
            x = e.read(st, mkidx2(b, s))
            e.write(st, deref_loc(c.args[0]), mk('slice', b, add(s, I(1)), add(k, I(-1))))
            return [(st, e.okv(x))]
        e.models['<u8 as borsh::de::BorshDeserialize>::deserialize'] = de
        outs, oks = C.run(f)
        sp.oblige('R0 the hook has a successful outcome', 'init_open_orders, %d accounts' % n, len(oks) > 0, '%d outcomes' % len(outs))
        bump, binit = fieldval(D, 'self', OO, 'bump'), fieldval(D, 'self', OO, 'bump_init')
        dx = C.key(0)
        for i, (s, v) in enumerate(oks):
            w = 'init_open_orders, %d accounts, outcome %d' % (n, i)
            sp.oblige('R7 the user signed', w, v.nz(mk('arg', 'acc3.is_signer')), 'nothing on this path requires accounts[3].is_signer')
            want = [C.acc(2), C.acc(2, is_signer=I(1)), C.acc(4), C.acc(5), C.acc(6, is_signer=I(1))] + [C.acc(j) for j in range(7, n)]
            sp.oblige('R7 the relayed accounts', w, sames(elems(C.field(s, 'accounts')), want), lambda: show(C.field(s, 'accounts'))[:900])
            got = C.seeds(s)
            sp.oblige("R7 the proxy signs as this user's open orders account and as the market's init authority", w,
                      got is not None and len(got) == 2 and sames(got[0], [lit(b'open-orders'), C.dex, C.key(4), C.key(3), bump]) and sames(got[1], [lit(b'open-orders-init'), C.dex, C.key(4), binit]),
                      lambda: 'seeds %s' % [shows(q) for q in got or []])
            sp.oblige('R7 no other instruction', w, all(x == [] for x in C.lists(s, *LISTS[1:])), '')
            base = [C.program, lit(b'open-orders'), dx, C.key(4), C.key(3)]
            sp.oblige('R8 the account created is the one derived for this user and market', w,
                      v.same(C.key(2), mk('pdaof', *base, mk('pdabump', *base))), lambda: facts(s, 'acc2.key'))
            sp.oblige('R8 with the bump the proxy signs with', w, v.same(bump, mk('pdabump', *base)), lambda: facts(s, 'bump'))
            ib = [C.program, lit(b'open-orders-init'), dx, C.key(4)]
            sp.oblige('R8 the init authority is the one derived for this market', w, v.same(C.key(6), mk('pdaof', *ib, binit)), lambda: facts(s, 'acc6.key'))
            sp.oblige('R8 the program signed for is the DEX', w, isaddr(v, D.prog, e, s, dx, DEX_ID), lambda: facts(s, 'acc0.key'))
            calls = [syscall(x) for x in s.log if x.op == 'invoke']
            sp.oblige('R8 only the system program is invoked', w, len(calls) > 0 and all(x is not None for x in calls), lambda: [show(x)[:200] for x in s.log])
            calls = [x for x in calls if x is not None]
            sizes = [b[-2] if k == 'CreateAccount' else b[-1] for k, b, _ in calls if k in ('CreateAccount', 'Allocate')]
            own = [b[-1] for k, b, _ in calls if k in ('CreateAccount', 'Assign')]
            sp.oblige('R8 the account gets the size of an open orders account', w, len(sizes) == 1 and sizes[0] is I(LAYOUT['state::OpenOrders'][0] + PADDING), lambda: shows(sizes))
            sp.oblige('R8 the account belongs to the DEX', w, len(own) == 1 and (address(D.prog, e, own[0]) == DEX_ID or 'anchor_spl::dex' in show(own[0])), lambda: shows(own))


def facts(s, sub_):
    return [show(x)[:300] for x in s.facts if sub_ in show(x)][:8]


def isaddr(v, prog, e, s, t, b):
    for x in list(s.facts):
        if x.op == 'eq' and t in x.a:
            o = x.a[1] if x.a[0] is t else x.a[0]
            if (address(prog, e, o) == b or 'anchor_spl::dex' in show(o)) and v.same(t, o):
                return True
    return False


def syscall(x):
    """(kind, fields, invoke) of a system program invocation"""
    ix = x.a[0]
    if 'system_program::ID' not in show(ix.a[1][0]):
        return None
    for z in walk(ix.a[1][2]):
        if z.op == 'agg' and z.a[0][0] == 'adt' and z.a[0][1].endswith('SystemInstruction'):
            return z.a[0][3], list(z.a[1]), x
    return None


def referral(sp, D):
    f = find(D.prog, '<middleware::ReferralFees as ' + MW + 'settle_funds')
    for n in (10, 11):
        C = Ctx(D, n)
        e = C.e
        ki = C.af.index('key')

        def authority(e, c, st):
            a = e.read(st, deref_loc(c.args[0]))
            k = e.read(st, deref_loc(project(a, ('f', ki)) if a.op != 'agg' else a.a[1][ki]))
            return [(st, e.okv(mk('authority', k))), (st.copy(), e.errv(mk('accerr')))]
        e.boundary['anchor_spl::token::accessor::authority'] = e.models['anchor_spl::token::accessor::authority'] = authority
        outs, oks = C.run(f)
        sp.oblige('R0 the hook has a successful outcome', 'ReferralFees::settle_funds, %d accounts' % n, len(oks) > 0, '')
        for i, (s, v) in enumerate(oks):
            w = 'ReferralFees::settle_funds, %d accounts, outcome %d' % (n, i)
            sp.oblige('R9 the referrer account belongs to the configured referrer', w, v.same(mk('authority', C.key(9)), fieldval(D, 'self', 'middleware::ReferralFees', 'referral')), lambda: facts(s, 'authority'))
            sp.oblige('R9 the request is relayed as it came', w, sames(elems(C.field(s, 'accounts')), [C.acc(j) for j in range(n)]) and all(x == [] for x in C.lists(s, *LISTS)), '')


def instruction(sp, D):
    f = find(D.prog, '<middleware::OpenOrdersPda as ' + MW + 'instruction')
    OO = 'middleware::OpenOrdersPda'
    e = Engine(D.prog)
    e.nomerge = lambda st, fr: True
    st = State()
    base, n = mk('deref', mk('arg', 'bytes')), mk('arg', 'n')
    st.mem[mk('deref', mk('arg', 'data'))] = mk('slice', base, ZERO, n)
    outs = e.call_fn(f, [mk('ptr', mk('deref', mk('arg', 'self'))), mk('ptr', mk('deref', mk('arg', 'data')))], st, mk('frame0', 'hook'))
    oks = [(s, View(e, s, r)) for s, r in outs if not is_err(r)]
    oks = [x for x in oks if not x[1].infeasible()]
    b = [mk('init', mk('idx', base, I(j))) for j in range(3)]
    kinds = set()
    for i, (s, v) in enumerate(oks):
        w = 'instruction, outcome %d' % i
        left = e.read(s, mk('deref', mk('arg', 'data')))
        cur = [e.read(s, mk('fld', mk('deref', mk('arg', 'self')), D.field(OO, k)[0], k, 0)) for k in ('bump', 'bump_init')]
        if v.is0(b[0]):
            kinds.add(0)
            want, k = b[1:], 3
        elif v.nz(b[0]):
            kinds.add(1)
            want, k = [fieldval(D, 'self', OO, x) for x in ('bump', 'bump_init')], 1
        else:
            sp.oblige('R10 the discriminator decides', w, False, lambda: [show(x) for x in s.facts])
            continue
        sp.oblige('R10 the bumps are the two bytes after a zero discriminator', w, all(v.same(x, y) for x, y in zip(cur, want)), lambda: shows(cur))
        sp.oblige('R10 exactly these bytes are stripped', w, left.op == 'slice' and left.a[0] is base and v.same(left.a[1], I(k)) and v.same(left.a[2], add(n, I(-k))), lambda: show(left)[:200])
    sp.oblige('R10 both kinds of request are accepted', 'instruction', kinds == {0, 1}, '')


def check_c26(sp):
    D = Dex(sp.progs[CRATE])
    hooks(sp, D)
    prune(sp, D)
    init(sp, D)
    referral(sp, D)
    instruction(sp, D)
    sp.units = ['OpenOrdersPda::' + k for k in HOOKS] + ['OpenOrdersPda::prune', 'OpenOrdersPda::init_open_orders', 'OpenOrdersPda::instruction', 'ReferralFees::settle_funds']


CHECKS = {'C26': check_c26}
SCOPE = {'C26': [CRATE]}


# ---------------------------------------------------------------------------------------------- C27: the relay
# request -> (hook, accounts required after the DEX program, has a payload)
RELAY = {'InitOpenOrders': ('init_open_orders', 4, 0), 'NewOrderV3': ('new_order_v3', 12, 1), 'CancelOrderV2': ('cancel_order_v2', 6, 1),
         'CancelOrderByClientIdV2': ('cancel_order_by_client_id_v2', 6, 1), 'SettleFunds': ('settle_funds', 10, 0), 'CloseOpenOrders': ('close_open_orders', 4, 0),
         'ConsumeEvents': ('consume_events', 4, 1), 'ConsumeEventsPermissioned': ('consume_events_permissioned', 3, 1), 'Prune': ('prune', 7, 1)}
MWP = CRATE + '::middleware::MarketMiddleware::'
UNPACK, PACK = ['serum_dex::instruction::MarketInstruction::' + k for k in ('unpack', 'pack')]


class Run:
    """MarketProxy::run with nm symbolic middlewares, n accounts and a request that decodes to `variant` (None: to nothing)"""

    def __init__(self, D, nm, n, variant):
        self.D = D
        self.e = e = Engine(D.prog)
        e.nomerge = lambda st, fr: True
        self.ai = D.type_by_path('account_info::AccountInfo')
        self.af = [x[0] for x in self.ai['v'][0]['f']]
        self.ct = D.type_by_path('middleware::Context')
        self.cf = [x[0] for x in self.ct['v'][0]['f']]
        self.mi = D.type_by_path('instruction::MarketInstruction')
        self.n, self.nm = n, nm
        self.ix = None
        if variant is not None:
            vi = [i for i, v in enumerate(self.mi['v']) if v['n'] == variant]
            if not vi:
                raise Missing('instruction ' + variant)
            self.tag = ('adt', self.mi['path'], vi[0], variant)
            self.nf = len(self.mi['v'][vi[0]]['f'])
            self.ix = agg(self.tag, [mk('arg', 'payload%d' % j) for j in range(self.nf)])
        self.install(e)
        mt = D.type_by_path('proxy::MarketProxy')
        self_ = agg(('adt', mt['path'], 0, 'MarketProxy'), [e.vec(agg(('array',), [self.mw(i) for i in range(nm)]), I(nm)) for _ in mt['v'][0]['f']])
        st = State()
        base = mk('deref', mk('arg', 'accs'))
        st.mem[base] = agg(('array',), [self.acc('acc%d' % i) for i in range(n)])
        f = find(D.prog, "proxy::MarketProxy::<'a>::run")
        self.prog_id = mk('ptr', mk('deref', mk('arg', 'program_id')))
        self.data0 = mk('slice', mk('deref', mk('arg', 'bytes')), ZERO, mk('arg', 'n'))
        outs = e.call_fn(f, [self_, self.prog_id, mk('slice', base, ZERO, I(n)), self.data0], st, mk('frame0', 'run'))
        self.oks = []
        for s, r in outs:
            if not is_err(r):
                v = View(e, s, r)
                if not v.infeasible():
                    self.oks.append((s, v))

    def mw(self, i):
        return mk('ptr', mk('deref', mk('arg', 'mw%d' % i)))

    def acc(self, p):
        self.e.bools.update(mk('arg', '%s.%s' % (p, k)) for k in ('is_signer', 'is_writable'))
        return agg(('adt', self.ai['path'], 0, 'AccountInfo'),
                   [mk('ptr', mk('deref', mk('arg', '%s.%s' % (p, k)))) if k in ('key', 'owner') else mk('arg', '%s.%s' % (p, k)) for k in self.af])

    def vec(self, xs):
        return self.e.vec(agg(('array',), list(xs)), I(len(xs)))

    def seeds(self, p):
        return self.vec([self.vec([self.e.vec(mk('arg', '%s.s%d.%d' % (p, i, j)), I(32)) for j in range(2)]) for i in range(2)])

    def extra(self, p):
        """an instruction a middleware asked for"""
        return agg(('tuple',), [mk('arg', p + '.ix'), self.vec([self.acc(p + '.acc0'), self.acc(p + '.acc1')]), self.seeds(p + '.seeds')])

    def after(self, k):
        """the context the k-th middleware leaves"""
        p = 'after%d' % k
        return {'accounts': self.vec([self.acc('%s.acc%d' % (p, i)) for i in range(3)]), 'seeds': self.seeds(p + '.seeds'),
                'pre_instructions': self.vec([self.extra(p + '.pre0'), self.extra(p + '.pre1')]), 'post_instructions': self.vec([self.extra(p + '.post0'), self.extra(p + '.post1')]),
                'post_callbacks': self.vec([agg(('tuple',), [mk('fn', 'callback:%s%s' % (p, q), 'callback:%s%s' % (p, q), (), 'item'), self.vec([self.acc(p + q)]), self.e.vec(mk('arg', p + q + '.arg'), I(8))]) for q in ('.cb0', '.cb1')])}

    def payload(self, k):
        return mk('arg', 'after%d.payload' % k)

    def install(self, e):
        def which(p):
            for i in range(self.nm):
                if p is self.mw(i) or p is mk('arg', 'mw%d' % i):
                    return i
            return None

        def instr(e, c, st):
            k = which(c.args[0])
            l = deref_loc(c.args[1])
            st.log = st.log + (mk('hook', 'instruction', I(-1 if k is None else k), e.read(st, l)),)
            er = st.copy()
            er.log = er.log + (mk('failed', 'instruction'),)
            e.write(st, l, mk('slice', mk('deref', mk('arg', 'after%s.bytes' % k)), ZERO, mk('arg', 'after%s.n' % k)))
            return [(st, e.okv(UNIT)), (er, e.errv(mk('mwerr')))]

        def hook(name):
            def h(e, c, st):
                k = which(c.args[0])
                l = deref_loc(c.args[1])
                ctx = e.read(st, l)
                pl = [e.read(st, deref_loc(c.args[2]))] if len(c.args) > 2 else []
                st.log = st.log + (mk('hook', name, I(-1 if k is None else k), ctx, *pl),)
                er = st.copy()
                er.log = er.log + (mk('failed', name),)
                if k is not None and ctx.op == 'agg':
                    new = self.after(k)
                    e.write(st, l, agg(ctx.a[0], [new.get(n, x) for n, x in zip(self.cf, ctx.a[1])]))
                    if pl:
                        e.write(st, deref_loc(c.args[2]), self.payload(k))
                return [(st, e.okv(UNIT)), (er, e.errv(mk('mwerr')))]
            return h
        e.models[MWP + 'instruction'] = instr
        for name in [x[0] for x in RELAY.values()] + ['fallback']:
            e.models[MWP + name] = hook(name)

        def unpack(e, c, st):
            b, s, n = e.to_slice(st, c.args[0])
            st.log = st.log + (mk('unpack', b, s, n),)
            return [(st, e.some(self.ix) if self.ix is not None else e.none())]

        def pack(e, c, st):
            v = mk('packed', e.read(st, deref_loc(c.args[0])))
            return [(st, e.vec(v, mk('plen', v)))]
        def callback(e, c, st):
            st.log = st.log + (mk('callback', c.callee['path'][9:], *c.args),)
            er = st.copy()
            er.log = er.log + (mk('failed', 'callback'),)
            return [(st, e.okv(UNIT)), (er, e.errv(mk('cberr')))]
        for k in range(self.nm):
            for q in ('.cb0', '.cb1'):
                e.models['callback:after%d%s' % (k, q)] = callback
        for p, h in ((UNPACK, unpack), (PACK, pack)):
            e.boundary[p] = e.models[p] = h


def infolist(x, infos):
    v = x.a[1]
    return v.op == 'list' and sames(list(v.a), infos)


def plain(e, s, v):
    """nested vectors and slices of seeds as nested tuples with the bytes of each seed at the leaves"""
    if v.op == 'list':
        return tuple(plain(e, s, z) for z in v.a)
    xs = elems(v)
    if xs is not None and all(z.op in ('agg', 'slice', 'ptr', 'list') for z in xs):
        return tuple(plain(e, s, z) for z in xs)
    while True:
        if v.op == 'agg' and v.a[0][:2] == ('adt', 'vec') and v.a[1][1] is I(32):
            v = v.a[1][0]
        elif v.op == 'subval' and v.a[1] is ZERO and v.a[2] is I(32):
            v = v.a[0]
        else:
            return v


def signers(e, s, x, want):
    return plain(e, s, x.a[2]) == plain(e, s, want)


def check_c27(sp):
    D = Dex(sp.progs[CRATE])
    for variant, (hk, need, pl) in RELAY.items():
        for nm in (0, 1, 2):
            few = Run(D, nm, need, variant)
            sp.oblige('R1 a request with too few accounts is refused', '%s, %d middlewares, %d accounts' % (variant, nm, need - 1), not few.oks, '%d successful outcomes' % len(few.oks))
            relay(sp, D, variant, hk, need, pl, nm, need + 1)
            relay(sp, D, variant, hk, need, pl, nm, need + 3)
    for variant in (None, 'DisableMarket', 'SweepFees', 'SendTake', 'MatchOrders', 'InitializeMarket', 'CancelOrdersByClientIds'):
        for nm in (0, 2):
            R = Run(D, nm, 5, variant)
            w = '%s, %d middlewares' % (variant or 'undecodable request', nm)
            for i, (s, v) in enumerate(R.oks):
                sp.oblige('R9 an error of a hook or a callback aborts the request', '%s, outcome %d' % (w, i), not [x for x in s.log if x.op == 'failed'], lambda: [show(x) for x in s.log if x.op == 'failed'])
                hooks_ = [x for x in s.log if x.op == 'hook' and x.a[0] != 'instruction']
                sp.oblige('R7 any other request reaches the fallback hooks only', '%s, outcome %d' % (w, i),
                          [x.a[:2] for x in hooks_] == [('fallback', I(k)) for k in range(nm)] and not [x for x in s.log if x.op == 'invoke'], lambda: [show(x)[:200] for x in s.log])
    sp.units = list(RELAY)


def relay(sp, D, variant, hk, need, pl, nm, n):
    R = Run(D, nm, n, variant)
    e = R.e
    w0 = '%s, %d middlewares, %d accounts' % (variant, nm, n - 1)
    sp.oblige('R0 the request is relayed', w0, len(R.oks) > 0, 'no successful outcome')
    key0 = mk('init', mk('deref', mk('arg', 'acc0.key')))
    for i, (s, v) in enumerate(R.oks):
        w = '%s, outcome %d' % (w0, i)
        sp.oblige('R9 an error of a hook or a callback aborts the request', w, not [x for x in s.log if x.op == 'failed'], lambda: [show(x) for x in s.log if x.op == 'failed'])
        sp.oblige('R2 the first account is the DEX', w, isaddr(v, D.prog, e, s, key0, DEX_ID), lambda: facts(s, 'acc0.key'))
        log = [x for x in s.log if x.op in ('hook', 'invoke', 'unpack', 'callback')]
        ins = [x for x in log if x.op == 'hook' and x.a[0] == 'instruction']
        data = [R.data0] + [mk('slice', mk('deref', mk('arg', 'after%d.bytes' % k)), ZERO, mk('arg', 'after%d.n' % k)) for k in range(nm)]
        up = [x for x in log if x.op == 'unpack']
        sp.oblige('R3 every middleware sees the instruction data, in order, before it is decoded', w,
                  [(x.a[1], x.a[2]) for x in ins] == [(I(k), data[k]) for k in range(nm)] and len(up) == 1 and sames(list(up[0].a), list(data[nm].a)) and log[:nm + 1] == ins + up, lambda: [show(x)[:160] for x in log])
        hs = [x for x in log if x.op == 'hook' and x.a[0] != 'instruction']
        sp.oblige('R4 every middleware gets the hook of this request, once, in order', w, [x.a[:2] for x in hs] == [(hk, I(k)) for k in range(nm)], lambda: [show(x)[:120] for x in hs])
        for k, x in enumerate(hs):
            ctx = x.a[2]
            cur = dict(zip(R.cf, ctx.a[1])) if ctx.op == 'agg' else {}
            want = {q: R.vec([]) for q in LISTS}
            want['accounts'] = R.vec([R.acc('acc%d' % j) for j in range(1, n)])
            if k:
                want = R.after(k - 1)
            bad = [q for q in want if not samevec(cur.get(q), want[q])]
            sp.oblige('R4 the hook sees what came in, as the middlewares before it left it', '%s, middleware %d' % (w, k), not bad and e.read(s, deref_loc(cur['program_id'])) is e.read(s, deref_loc(R.prog_id)) and e.read(s, deref_loc(cur['dex_program_id'])) is key0
                      and (not pl or len(x.a) == 4 and x.a[3] is (R.ix.a[1][0] if k == 0 else R.payload(k - 1))), lambda: '%s: %s' % (bad, [show(cur.get(q))[:200] for q in bad]))
        inv, cbs = [[x for x in log if x.op == k] for k in ('invoke', 'callback')]
        last = R.after(nm - 1) if nm else {'accounts': R.vec([R.acc('acc%d' % j) for j in range(1, n)]), **{q: R.vec([]) for q in LISTS}}
        pre, post = [elems(last[q]) for q in ('pre_instructions', 'post_instructions')]
        sp.oblige('R5 invocations: those asked for before, the DEX, those asked for after', w, len(inv) == len(pre) + 1 + len(post) and log[2 * nm + 1:] == inv + cbs, lambda: [show(x)[:120] for x in inv])
        if len(inv) != len(pre) + 1 + len(post):
            continue
        for q, x in zip(pre + [None] + post, inv[:len(pre)] + [inv[len(pre)]] + inv[len(pre) + 1:]):
            if q is not None:
                ix, infos, sd = q.a[1]
                sp.oblige('R5 a requested instruction is invoked as it was asked for', w, x.a[0] is ix and infolist(x, elems(infos)) and signers(e, s, x, sd), lambda: '%s' % show(x)[:700])
        x = inv[len(pre)]
        ixf = [y[0] for y in D.type_by_path('instruction::Instruction')['v'][0]['f']]
        vals = dict(zip(ixf, x.a[0].a[1])) if x.a[0].op == 'agg' else {}
        accs = elems(last['accounts'])
        sp.oblige('R6 the relay goes to the DEX', w, 'program_id' in vals and (address(D.prog, e, vals['program_id']) == DEX_ID or 'anchor_spl::dex' in show(vals['program_id'])), lambda: show(vals.get('program_id', UNIT))[:200])
        pay = [R.payload(nm - 1)] if pl and nm else list(R.ix.a[1])
        pk = mk('packed', agg(R.tag, pay))
        sp.oblige('R6 the relayed data is the request as the middlewares left it', w, 'data' in vals and bytes_are(vals['data'], pk), lambda: show(vals.get('data', UNIT))[:300])
        ms = elems(vals['accounts']) if 'accounts' in vals else None
        mw_ = [[e.read(s, deref_loc(a.a[1][R.af.index('key')])), a.a[1][R.af.index('is_signer')], a.a[1][R.af.index('is_writable')]] for a in accs]
        sp.oblige('R6 the relayed accounts and flags are those of the context', w, ms is not None and len(ms) == len(mw_) and all(sames(list(a.a[1]), b) for a, b in zip(ms, mw_)) and infolist(x, accs), lambda: show(vals.get('accounts', UNIT))[:600])
        cbw = elems(last['post_callbacks'])
        sp.oblige('R8 callbacks run last, each once, in order, with the relayed data and their own accounts and arguments', w,
                  len(cbs) == len(cbw) and all(x.a[0] == q.a[1][0].a[1][9:] and len(x.a) == 5 and e.read(s, deref_loc(x.a[1])) is e.read(s, deref_loc(R.prog_id))
                                               and samevec(x.a[2], q.a[1][1]) and bytes_are(x.a[3], pk) and x.a[4] is q.a[1][2] for x, q in zip(cbs, cbw)), lambda: [show(x)[:300] for x in cbs])
        sp.oblige('R6 the relay is signed with the seeds of the context', w, signers(e, s, x, last['seeds']), lambda: show(x.a[2])[:500] if len(x.a) > 2 else show(x)[:300])


def samevec(a, b):
    return a is not None and (a is b or elems(a) is not None and elems(b) is not None and sames(elems(a), elems(b)))


def bytes_are(v, pk):
    if v.op == 'agg' and v.a[0][:2] == ('adt', 'vec'):
        if v.a[1][1] is not mk('plen', pk):
            return False
        v = v.a[1][0]
    if v.op == 'subval' and is_int(v.a[1]) and v.a[1].a[0] == 0 and v.a[2] is mk('plen', pk):
        v = v.a[0]
    return v is pk


CHECKS['C27'] = check_c27
SCOPE['C27'] = [CRATE]
