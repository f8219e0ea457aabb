"""C28, C29: the pool framework.  `pool_entrypoint` is interpreted on a symbolic request, account list and pool state; the
hooks of the `Pool` trait are recorded, not entered (C28).  C29 interprets the hooks' own default bodies."""
from spec import *
from proxy import find, elems, sames, shows, facts, pdas, seed_of, address, plain, samevec
from builders import b58

CRATE = 'serum_pool'
HOOK = 'serum_pool::pool::Pool::'
TOKEN_ID = b58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
RENT_ID = b58('SysvarRent111111111111111111111111111111111')
ACTIONS = {'Create': ('get_creation_basket', 'process_creation'), 'Redeem': ('get_redemption_basket', 'process_redemption'), 'Swap': ('get_swap_basket', 'process_swap')}
NHOOK = {'initialize_pool', 'process_foreign_instruction'} | {x for p in ACTIONS.values() for x in p}


class World:
    """types and symbolic values of the pool crate"""

    def __init__(self, D):
        self.D = D
        self.e = e = Engine(D.prog)
        e.nomerge = lambda st, fr: True
        e.headsplit = True
        self.T = {k: D.type_by_path(p) for k, p in (('AccountInfo', 'account_info::AccountInfo'), ('PoolState', 'schema::PoolState'), ('AssetInfo', 'schema::AssetInfo'),
                                                    ('ParamDesc', 'schema::ParamDesc'), ('PoolRequestInner', 'schema::PoolRequestInner'), ('PoolRequest', 'schema::PoolRequest'), ('PoolAction', 'schema::PoolAction'),
                                                    ('PoolContext', 'context::PoolContext'), ('UserAccounts', 'context::UserAccounts'), ('FeeAccounts', 'context::FeeAccounts'), ('Basket', 'schema::Basket'))}
        pdas(e)
        e.boundary['solana_program::program_pack::Pack::unpack'] = self.unpack
        self.st = State()

    def names(self, ty, variant=0):
        return [x[0] for x in self.T[ty]['v'][variant]['f']]

    def make(self, ty, vals, variant=None):
        t = self.T[ty]
        i = 0 if variant is None else [j for j, v in enumerate(t['v']) if v['n'] == variant][0]
        return agg(('adt', t['path'], i, variant or ty), vals)

    def struct(self, ty, p, **over):
        return self.make(ty, [over[k] if k in over else mk('arg', '%s.%s' % (p, k)) for k in self.names(ty)])

    def vec(self, xs):
        return self.e.vec(agg(('array',), list(xs)), I(len(xs)))

    def acc(self, p):
        self.e.bools.update(mk('arg', '%s.%s' % (p, k)) for k in ('is_signer', 'is_writable'))
        return self.make('AccountInfo', [mk('ptr', mk('deref', mk('arg', '%s.%s' % (p, k)))) if k in ('key', 'owner') else mk('arg', '%s.%s' % (p, k)) for k in self.names('AccountInfo')])

    def key(self, p):
        return mk('init', mk('deref', mk('arg', p + '.key')))

    def owner(self, p):
        return mk('init', mk('deref', mk('arg', p + '.owner')))

    def state(self, p, k, params):
        return self.struct('PoolState', p, assets=self.vec([self.struct('AssetInfo', '%s.asset%d' % (p, i)) for i in range(k)]),
                           account_params=self.vec([self.struct('ParamDesc', '%s.param%d' % (p, i)) for i in range(params)]))

    def unpack(self, e, c, st):
        v = e.read(st, deref_loc(c.args[0])) if c.args[0].op == 'ptr' else e.read(st, mk('sl', *e.to_slice(st, c.args[0])))
        ty = 'Mint' if '::Mint' in c.callee['key'] else 'Account'
        return [(st, e.okv(mk('unpacked', ty, v))), (st.copy(), e.errv(mk('unpackerr')))]

    def oks_of(self, outs):
        r = []
        for s, v in outs:
            if not is_err(v):
                w = View(self.e, s, v)
                if not w.infeasible():
                    r.append((s, w))
        return r


def pk(v):
    """the key inside an Address"""
    return project(v, ('f', 0, '0', 0)) if v.op != 'agg' else v.a[1][0]


class Entry(World):
    """pool_entrypoint for a request of kind `what` ('Initialize', 'GetBasket Create', ...), n accounts, k assets, one account
    parameter.  Both an empty and an initialised pool account are considered."""

    def __init__(self, D, k, n, what, params=1):
        World.__init__(self, D)
        self.k, self.n, self.params = k, n, params
        e, st = self.e, self.st
        kind, _, act = what.partition(' ')
        self.kind, self.act = kind, act
        if kind == 'Initialize':
            rq = D.type_by_path('schema::InitializePoolRequest')
            self.req = agg(('adt', rq['path'], 0, 'InitializePoolRequest'), [I(k) if x[0] == 'assets_length' else mk('arg', 'req.' + x[0]) for x in rq['v'][0]['f']])
            inner = self.make('PoolRequestInner', [self.req], kind)
        else:
            inner = self.make('PoolRequestInner', [self.make('PoolAction', [mk('arg', 'amount')], act)], kind)
        request = self.make('PoolRequest', [inner if x == 'inner' else mk('arg', 'tag') for x in self.names('PoolRequest')])
        self.before = self.state('state', k, params)
        self.after = self.state('after', k, params)

        def parse(e, c, st):
            return [(st, e.okv(request)), (st.copy(), e.errv(mk('parseerr')))]

        def load(e, c, st):
            sl = e.read(st, deref_loc(c.args[0]))
            st.log = st.log + (mk('load', sl),)
            return [(st, e.okv(self.before)), (st.copy(), e.errv(mk('parseerr')))]

        def save(e, c, st):
            v = c.args[0]
            while v.op == 'ptr':
                v = e.read(st, deref_loc(v))
            to = c.args[1]
            if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1].endswith('PoolState'):
                st.log = st.log + (mk('save', v, e.deepval(st, to)),)
                return [(st, e.okv(UNIT)), (st.copy(), e.errv(mk('ioerr')))]
            l = deref_loc(to)
            b = e.read(st, l)
            xs = elems(b)
            if xs is None:
                raise Unsupported('serialisation into a buffer of unknown content')
            e.write(st, l, e.vec(agg(('array',), xs + [mk('serialized', v)]), I(len(xs) + 1)))
            return [(st, e.okv(UNIT)), (st.copy(), e.errv(mk('ioerr')))]

        def hook(name):
            def h(e, c, st):
                vals = []
                for a in c.args:
                    while a.op == 'ptr':
                        a = e.read(st, deref_loc(a))
                    vals.append(a)
                st.log = st.log + (mk('hook', name, *vals),)
                er = st.copy()
                er.log = er.log + (mk('failed', name),)
                r = UNIT
                if name.startswith('get_'):
                    r = self.struct('Basket', 'basket')
                elif name != 'process_foreign_instruction':
                    e.write(st, deref_loc(c.args[1]), self.after)
                return [(st, e.okv(r)), (er, e.errv(mk('hookerr')))]
            return h
        for p, h in (('borsh::de::BorshDeserialize::try_from_slice', parse), ('borsh::de::BorshDeserialize::deserialize', load), ('borsh::ser::BorshSerialize::serialize', save)):
            e.boundary[p] = h
        for x in NHOOK:
            e.boundary[HOOK + x] = e.models[HOOK + x] = hook(x)
        base = mk('deref', mk('arg', 'accs'))
        st.mem[base] = agg(('array',), [self.acc('acc%d' % i) for i in range(n)])
        f = find(D.prog, 'serum_pool::pool_entrypoint')
        self.data = mk('slice', mk('deref', mk('arg', 'bytes')), ZERO, mk('arg', 'n'))
        self.outs = e.call_fn(f, [mk('ptr', mk('deref', mk('arg', 'program_id'))), mk('slice', base, ZERO, I(n)), self.data], st, mk('frame0', 'pool'))
        self.oks = self.oks_of(self.outs)


    def unpacked(self, s, ty, i):
        """what account i was unpacked to"""
        a = mk('arg', 'acc%d.data' % i)
        r = set()
        for t in list(s.facts) + list(s.log):
            for z in walk(t):
                if z.op == 'unpacked' and z.a[0] == ty and a in walk(z):
                    r.add(z)
        return r


FIELD = {'Account': {'mint': 0, 'owner': 1, 'delegate': 3, 'close_authority': 7, 'amount': 2}, 'Mint': {'mint_authority': 0, 'supply': 1}}


def fld(u, name):
    return project(u, ('f', FIELD[u.a[0]][name], name, 0))


def payload(v):
    return project(v, ('f', 0, '0', 1))


def some_is(v, opt, key):
    return v.e.lookup(v.st, mk('discr', opt)) == 1 and v.same(payload(opt), key)


def known(v, R, t, addr, name):
    """the facts say that key t is the constant address"""
    for x in list(v.st.facts):
        if x.op == 'eq' and t in x.a:
            o = x.a[1] if x.a[0] is t else x.a[0]
            b = address(R.D.prog, R.e, o)
            if (b == addr if b is not None and addr is not None else show(o).endswith(name)) and v.same(t, o):
                return True
    return False


def token(sp, w, v, R, s, i, mint, auth=None, authname=None):
    """account i is a token account of the mint (and controlled by auth)"""
    us = R.unpacked(s, 'Account', i)
    sp.oblige('R2 token accounts are accounts of the token program', '%s, account %d' % (w, i), known(v, R, R.owner('acc%d' % i), TOKEN_ID, 'spl_token::ID'), lambda: facts(s, 'acc%d.owner' % i))
    sp.oblige('R2 token accounts hold the expected asset', '%s, account %d' % (w, i), any(v.same(fld(u, 'mint'), mint) for u in us), lambda: facts(s, 'acc%d.data' % i))
    if auth is not None:
        def is_(t):
            return known(v, R, t, None, auth) if isinstance(auth, str) else v.same(t, auth)

        def ctl(u):
            d = fld(u, 'delegate')
            return is_(fld(u, 'owner')) or v.e.lookup(s, mk('discr', d)) == 1 and is_(payload(d))
        sp.oblige('R2 vaults are controlled by the pool, the protocol fee account by the protocol', '%s, account %d' % (w, i), any(ctl(u) for u in us), lambda: facts(s, 'acc%d.data' % i))


def common(sp, w, v, R, s, S):
    """what every request checks about the pool's own accounts; S: field of the pool state -> value"""
    k = R.k
    sig = pk(S['vault_signer'])
    sp.oblige('R1 the pool account belongs to the program', w, v.same(R.owner('acc0'), mk('init', mk('deref', mk('arg', 'program_id')))), lambda: facts(s, 'acc0.owner'))
    sp.oblige('R2 the pool token mint is the recorded one', w, v.same(R.key('acc1'), pk(S['pool_token_mint'])), lambda: facts(s, 'acc1.key'))
    sp.oblige('R2 the pool token mint is a mint of the token program that only the pool can mint', w,
              known(v, R, R.owner('acc1'), TOKEN_ID, 'spl_token::ID') and any(some_is(v, fld(u, 'mint_authority'), sig) for u in R.unpacked(s, 'Mint', 1)), lambda: facts(s, 'acc1'))
    for j, a in enumerate(elems(S['assets'])):
        af = dict(zip(R.names('AssetInfo'), a.a[1]))
        sp.oblige('R2 every vault is the recorded one', '%s, asset %d' % (w, j), v.same(R.key('acc%d' % (2 + j)), pk(af['vault_address'])), lambda: facts(s, 'acc%d.key' % (2 + j)))
        token(sp, w, v, R, s, 2 + j, pk(af['mint']), sig)
    sp.oblige('R2 the authority is the recorded one', w, v.same(R.key('acc%d' % (2 + k)), sig), lambda: facts(s, 'acc%d.key' % (2 + k)))


def fees(sp, w, v, R, s, S, l, i, r):
    mint = pk(S['pool_token_mint'])
    for a, name in ((l, 'lqd_fee_vault'), (i, 'initializer_fee_vault')):
        sp.oblige('R2 fee accounts are the recorded ones', '%s, %s' % (w, name), v.same(R.key('acc%d' % a), pk(S[name])), lambda: facts(s, 'acc%d.key' % a))
    token(sp, w, v, R, s, l, mint, 'fee_owner::ID')
    token(sp, w, v, R, s, i, mint)
    token(sp, w, v, R, s, r, mint)


def context(sp, w, R, s, ctx, want):
    """every reference of the context is the account at its place"""
    e = R.e

    def norm(x):
        while x.op == 'agg' and x.a[0][0] == 'adt' and x.a[0][3] == 'Some':
            x = x.a[1][0]
        if x.op == 'agg' and x.a[0][0] == 'adt' and x.a[0][3] == 'None':
            return None
        if x.op == 'agg' and x.a[0][0] == 'adt' and x.a[0][3] != 'AccountInfo':
            return tuple(norm(y) for y in x.a[1])
        if x.op == 'slice' or x.op == 'ptr' and x.a[0].op == 'sl':
            b, s0, n = e.to_slice(s, x)
            return [e.read(s, mkidx2(b, add(s0, I(j)))) for j in range(n.a[0])] if is_int(n) else x
        return e.read(s, deref_loc(x)) if x.op in ('ptr', 'arg') else x
    got = dict(zip(R.names('PoolContext'), ctx.a[1])) if ctx.op == 'agg' else {}
    for f, x in want.items():
        y = norm(got[f]) if f in got else '?'
        sp.oblige('R3 the pool sees each account in its role', '%s, %s' % (w, f), y == x, lambda: str(y)[:300])


def request(sp, D, k, what, params):
    kind, _, act = what.partition(' ')
    need = {'Initialize': 6 + k, 'GetBasket': 5 + k + params, 'Execute': 9 + 2 * k + params}[kind]
    w0 = '%s, %d assets, %d parameters' % (what, k, params)

    def main(R):
        return [(s, v) for s, v in R.oks if not [x for x in s.log if x.op == 'hook' and x.a[0] == 'process_foreign_instruction']]
    R = Entry(D, k, need - 1, what, params)
    sp.oblige('R4 a request with too few accounts is refused', w0, not main(R), '%d outcomes' % len(main(R)))
    R = Entry(D, k, need + 2, what, params)
    A = lambda i: R.acc('acc%d' % i)
    L = lambda i, n: [A(j) for j in range(i, i + n)]
    ok = main(R)
    sp.oblige('R0 the request can succeed', w0, len(ok) > 0, '')
    for i, (s, v) in enumerate(ok):
        w = '%s, outcome %d' % (w0, i)
        hs, saves, loads, inv = [[x for x in s.log if x.op == q] for q in ('hook', 'save', 'load', 'invoke')]
        sp.oblige('R5 an error of the pool aborts the request', w, not [x for x in s.log if x.op == 'failed'], '')
        hk = {'Initialize': 'initialize_pool', 'GetBasket': ACTIONS.get(act, '?')[0], 'Execute': ACTIONS.get(act, '??')[1]}[kind]
        sp.oblige('R5 exactly the pool function of the request runs, once', w, [x.a[0] for x in hs] == [hk], lambda: [x.a[0] for x in hs])
        if len(hs) != 1 or hs[0].a[0] != hk:
            continue
        h = hs[0]
        S0 = h.a[2]
        S = dict(zip(R.names('PoolState'), S0.a[1])) if S0.op == 'agg' else None
        if S is None or elems(S['assets']) is None or len(elems(S['assets'])) != k:
            sp.oblige('R5 the pool function gets the pool state', w, False, lambda: show(S0)[:200])
            continue
        common(sp, w, v, R, s, S)
        want = {'program_id': mk('init', mk('deref', mk('arg', 'program_id'))), 'pool_account': A(0), 'pool_token_mint': A(1), 'pool_vault_accounts': L(2, k), 'pool_authority': A(2 + k),
                'retbuf': None, 'user_accounts': None, 'fee_accounts': None, 'spl_token_program': None, 'account_params': None}
        b = 3 + k
        if kind == 'Initialize':
            sp.oblige('R6 a pool is initialised once', w, not loads and len(saves) == 1, lambda: [show(x)[:80] for x in s.log])
            pre = [x for x in s.facts if x.op == 'init' and x.a[0].op == 'idx' and is_int(x.a[0].a[1]) and mk('arg', 'acc0.data') in walk(x)]
            sp.oblige('R6 emptiness is a matter of the whole account', w, not pre, lambda: shows(pre)[:3])
            want.update(fee_accounts=(A(b), A(b + 1), A(b)), custom_accounts=L(b + 3, 2))
            fees(sp, w, v, R, s, S, b, b + 1, b)
            sp.oblige('R6 rent comes from the rent sysvar', w, known(v, R, R.key('acc%d' % (b + 2)), RENT_ID, 'rent::ID'), lambda: facts(s, 'acc%d.key' % (b + 2)))
            for j in [0, 1] + list(range(2, 2 + k)) + [b, b + 1]:
                r = [x for x in s.facts if x.op == 'lt' and s.facts[x] == ('in', frozenset({0})) and mk('arg', 'acc%d.lamports' % j) in walk(x.a[0]) and x.a[1].op == 'minbal' and mk('arg', 'acc%d.data' % j) in walk(x.a[1].a[1])]
                sp.oblige('R6 every account of a new pool is rent exempt', '%s, account %d' % (w, j), bool(r), lambda: facts(s, 'acc%d.lamports' % j))
            fin = dict(zip(R.names('PoolState'), R.after.a[1]))
            nonce = fin['vault_signer_nonce']
            sp.oblige('R6 the authority of a new pool is derived from the pool account and the nonce it stores', w,
                      v.same(R.key('acc%d' % (2 + k)), mk('pdaof', mk('init', mk('deref', mk('arg', 'program_id'))), R.key('acc0'), nonce)), lambda: facts(s, 'pdaof'))
            fr = fin['fee_rate']
            sp.oblige('R6 the fee rate of a new pool is at least 150 and less than 1000000 millionths', w, v.lt(fr, I(150)) is False and v.lt(fr, I(1000000)) is True, lambda: facts(s, 'fee_rate'))
            us = R.unpacked(s, 'Account', b)
            def cl(u):
                c = v.e.lookup(s, mk('discr', fld(u, 'close_authority')))
                return c == 0 or c == 1 and v.same(payload(fld(u, 'close_authority')), pk(S['vault_signer']))
            sp.oblige('R6 the protocol fee account of a new pool has no delegate and no foreign close authority', w,
                      any(v.e.lookup(s, mk('discr', fld(u, 'delegate'))) == 0 for u in us) and any(cl(u) for u in us) and any(known(v, R, fld(u, 'owner'), None, 'fee_owner::ID') for u in us), lambda: facts(s, 'acc%d.data' % b))
            rq = dict(zip([x[0] for x in D.type_by_path('schema::InitializePoolRequest')['v'][0]['f']], R.req.a[1]))
            exp = {'pool_token_mint': R.key('acc1'), 'vault_signer': R.key('acc%d' % (2 + k)), 'lqd_fee_vault': R.key('acc%d' % b), 'initializer_fee_vault': R.key('acc%d' % (b + 1))}
            for f, x in exp.items():
                sp.oblige('R6 a new pool records the accounts it was given', '%s, %s' % (w, f), pk(S[f]) is x, lambda: show(S[f])[:100])
            for j, a in enumerate(elems(S['assets'])):
                af = dict(zip(R.names('AssetInfo'), a.a[1]))
                sp.oblige('R6 a new pool records the accounts it was given', '%s, asset %d' % (w, j), pk(af['vault_address']) is R.key('acc%d' % (2 + j)) and any(pk(af['mint']) is fld(u, 'mint') for u in R.unpacked(s, 'Account', 2 + j)), lambda: show(a)[:200])
            sp.oblige('R6 a new pool records the requested terms', w, S['fee_rate'] is rq['fee_rate'] and S['vault_signer_nonce'] is rq['vault_signer_nonce'] and rq['pool_name'] in walk(S['name'])
                      and elems(S['account_params']) == [] and elems(S['custom_state']) == [] and S['admin_key'].op == 'agg' and S['admin_key'].a[0][3] == 'None', lambda: show(S0)[:400])
        else:
            sp.oblige('R6 only an initialised pool is used', w, len(loads) == 1 and mk('arg', 'acc0.data') in walk(loads[0]) and S0 is R.before, lambda: [show(x)[:100] for x in s.log])
            for x in s.facts:
                for z in walk(x):
                    if z.op == 'found' and mk('arg', 'acc0.data') in walk(z):
                        el = [y for y in s.facts if y.op == 'init' and y.a[0].op == 'idx' and y.a[0].a[1] is z]
                        sp.oblige('R6 a pool account with any non-zero byte is initialised', w, z.a[1] is ZERO and z.a[2].op == 'len' and all(v.nz(y) for y in el), lambda: show(z)[:200])
            sp.oblige('R5 the pool function gets what was asked for', w, len(h.a) == 4 and (h.a[3] is mk('arg', 'amount') or act == 'Swap' and mk('arg', 'amount') in walk(h.a[3])), lambda: show(h.a[-1])[:200])
            if kind == 'GetBasket':
                want.update(retbuf=(A(b), A(b + 1)), account_params=L(b + 2, params), custom_accounts=L(b + 2 + params, 2))
                p0 = b + 2
                sp.oblige('R7 the return buffer belongs to its program', w, v.same(R.owner('acc%d' % b), R.key('acc%d' % (b + 1))), lambda: facts(s, 'acc%d.owner' % b))
                sp.oblige('R7 a query changes no state', w, not saves and len(inv) == 1, lambda: [show(x)[:80] for x in s.log])
                if len(inv) == 1:
                    x = inv[0]
                    iv = dict(zip([y[0] for y in D.type_by_path('instruction::Instruction')['v'][0]['f']], x.a[0].a[1]))
                    ms = elems(iv['accounts'])
                    bk = R.struct('Basket', 'basket')
                    sp.oblige('R7 the basket goes to the return buffer, from its start', w, iv['program_id'] is R.key('acc%d' % (b + 1)) and ms is not None and len(ms) == 1 and list(ms[0].a[1]) == [R.key('acc%d' % b), ZERO, ONE]
                              and elems(iv['data']) == [ZERO] * 8 + [mk('serialized', bk)] and x.a[2] is mk('list'), lambda: show(x)[:400])
            else:
                u, a, f = b, b + 1, b + 2 + k
                want.update(user_accounts=(A(u), L(a, k), A(a + k)), fee_accounts=(A(f), A(f + 1), A(f + 2)), spl_token_program=A(f + 3), account_params=L(f + 4, params), custom_accounts=L(f + 4 + params, 2))
                p0 = f + 4
                mint = pk(S['pool_token_mint'])
                token(sp, w, v, R, s, u, mint)
                for j, q in enumerate(elems(S['assets'])):
                    token(sp, w, v, R, s, a + j, pk(dict(zip(R.names('AssetInfo'), q.a[1]))['mint']))
                fees(sp, w, v, R, s, S, f, f + 1, f + 2)
                sp.oblige('R2 the token program is the token program', w, known(v, R, R.key('acc%d' % (f + 3)), TOKEN_ID, 'spl_token::ID'), lambda: facts(s, 'acc%d.key' % (f + 3)))
            for j, q in enumerate(elems(S['account_params'])):
                sp.oblige('R2 parameter accounts are the recorded ones', '%s, parameter %d' % (w, j), v.same(R.key('acc%d' % (p0 + j)), pk(dict(zip(R.names('ParamDesc'), q.a[1]))['address'])), lambda: facts(s, 'acc%d.key' % (p0 + j)))
        if kind != 'GetBasket':
            sp.oblige('R5 the state the pool leaves is stored in the pool account, after it ran', w, len(saves) == 1 and saves[0].a[0] is R.after and mk('arg', 'acc0.data') in walk(saves[0].a[1]) and s.log[-1] is saves[0] and not inv, lambda: [show(x)[:80] for x in s.log])
        context(sp, w, R, s, h.a[1], want)


def check_c28(sp):
    D = Dex(sp.progs[CRATE])
    for k in (1, 2):
        for params in (0, 2):
            for act in ACTIONS:
                request(sp, D, k, 'GetBasket ' + act, params)
                request(sp, D, k, 'Execute ' + act, params)
        request(sp, D, k, 'Initialize', 0)
    sp.units = ['pool_entrypoint: ' + x for x in ('Initialize', 'GetBasket', 'Execute')]


CHECKS = {'C28': check_c28}
SCOPE = {'C28': [CRATE]}


# ---------------------------------------------------------------------------------------------- C29: token movements
class Body(World):
    """a default hook on a symbolic context with k assets, as an Execute request builds it"""

    def __init__(self, D, k, name, nbasket=None):
        World.__init__(self, D)
        e, st = self.e, self.st
        self.k = k

        def ref(p):
            l = mk('deref', mk('arg', 'at.' + p))
            st.mem[l] = self.acc(p)
            return mk('ptr', l)

        def refs(p):
            l = mk('deref', mk('arg', 'at.' + p))
            st.mem[l] = agg(('array',), [self.acc('%s%d' % (p, i)) for i in range(k)])
            return mk('slice', l, ZERO, I(k))
        user = self.struct('UserAccounts', 'x', pool_token_account=ref('user_token'), asset_accounts=refs('user_asset'), authority=ref('user_auth'))
        fee = self.struct('FeeAccounts', 'x', lqd_fee_account=ref('lqd'), initializer_fee_account=ref('initializer'), referrer_fee_account=ref('referrer'))
        ctx = self.struct('PoolContext', 'ctx', program_id=mk('ptr', mk('deref', mk('arg', 'program_id'))), pool_account=ref('pool'), pool_token_mint=ref('mint'), pool_vault_accounts=refs('vault'),
                          pool_authority=ref('auth'), rent=e.none(), retbuf=e.none(), user_accounts=e.some(user), fee_accounts=e.some(fee), spl_token_program=e.some(ref('token_program')))
        cl = mk('deref', mk('arg', 'context'))
        st.mem[cl] = ctx
        sl = mk('deref', mk('arg', 'state'))
        self.before = st.mem[sl] = self.state('state', k, 1)
        self.sl = sl
        for op in ('transfer', 'mint_to', 'burn'):
            e.boundary['spl_token::instruction::' + op] = e.models['spl_token::instruction::' + op] = self.token(op)
        self.basket = [mk('arg', 'basket.q%d' % j) for j in range(k)]

        def basket(n):
            def h(e, c, st):
                st.log = st.log + (mk('basket', n, c.args[0], e.read(st, deref_loc(c.args[1])), c.args[2]),)
                return [(st, e.okv(self.make('Basket', [self.vec(self.basket)]))), (st.copy(), e.errv(mk('hookerr')))]
            return h
        if name.startswith('process_'):
            for n in ('get_creation_basket', 'get_redemption_basket'):
                e.boundary[HOOK + n] = e.models[HOOK + n] = basket(n)
        f = find(D.prog, HOOK + name)
        self.amount = mk('arg', 'amount')
        self.outs = e.call_fn(f, [mk('ptr', cl), mk('ptr', sl), self.amount], st, mk('frame0', name))
        self.oks = self.oks_of(self.outs)

    def token(self, op):
        def h(e, c, st):
            ks = [e.read(st, deref_loc(a)) for a in c.args[:4]]
            b, s, n = e.to_slice(st, c.args[4])
            return [(st, e.okv(mk('token', op, *ks, n, c.args[5]))), (st.copy(), e.errv(mk('tokerr')))]
        return h


MIL = 1000000


def T(x):
    return mk('trunc', x, 64)


def fee_terms(rate, q):
    """total, protocol, referrer and initializer fee of q pool tokens (q > 0)"""
    total = T(add(ONE, mk('div', add(mul(rate, q), I(-1)), I(MIL))))
    lqd = mk('max', mk('div', mul(I(2), total), I(5)), add(ONE, mk('div', add(q, I(-1)), I(10000))))
    ref = mk('min', mk('div', lqd, I(2)), sub(total, lqd))
    return lqd, sub(sub(total, lqd), ref), ref


KEYS = ('user_token', 'lqd', 'initializer', 'referrer')
RATES = (150, 151, 2500, 2501, 40000, 500000, 999999)
QTYS = (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 24, 26, 99, 100, 101, 399, 401, 9999, 10000, 10001, 12345, 99999, 100001, 333333, 10 ** 9 + 7, 10 ** 12 + 1, 10 ** 15 + 3, 10 ** 18 - 1, 2 ** 62 + 5)


def points(R):
    """sample values for the terms of a summary that is not in a recognised form"""
    st = {k: mk('arg', 'state.' + k) for k in ('fee_rate',)}
    for pat in ((0, 1, 2, 3), (1, 1, 2, 3), (2, 1, 2, 3), (3, 1, 2, 3), (2, 1, 2, 2), (0, 1, 1, 3), (1, 1, 1, 1), (0, 1, 2, 1)):
        for r in RATES:
            for q in QTYS:
                env = {R.key(k): p for k, p in zip(KEYS, pat)}
                env[st['fee_rate']] = r
                env[R.amount] = q
                for j, b in enumerate(R.basket):
                    env[b] = 1000 + 7 * j
                    env[mk('sgn', b, 'uint')] = 1000 + 7 * j
                yield env


def agree(R, v, got, exp):
    """the two amounts are equal in this outcome"""
    if got is exp or v.eqv(got, exp) or exp is not ZERO and v.is0(got) and v.is0(exp) or got is ZERO and v.is0(exp):
        return True
    for env in points(R):
        for f, (k, s) in v.st.facts.items():
            x = ev(f, env)
            if x is not None and (x in s) != (k == 'in'):
                break
        else:
            a, b = ev(got, env), ev(exp, env)
            if a is None or b is None or a != b:
                return False
    return True     # equal on every sample the outcome admits


def instr(R, x):
    """(kind, keys, amount, signer seeds, infos complete) of a token instruction"""
    ix = x.a[0]
    if x.op != 'invoke' or ix.op != 'token':
        return None
    op, prog, ks, n, amt = ix.a[0], ix.a[1], ix.a[2:5], ix.a[5], ix.a[6]
    if not show(prog).endswith('spl_token::ID') or n is not ZERO or x.a[1].op != 'list':
        return None
    ki = R.names('AccountInfo').index('key')
    have = set()
    for a in x.a[1].a:
        if a.op == 'agg':
            have.add(R.e.read(R.last, deref_loc(a.a[1][ki])))
    seeds = x.a[2]
    if seeds.op != 'list':
        return None
    sd = [[seed_of(z) for z in g.a] if g.op == 'list' else g for g in seeds.a]
    return op, list(ks), amt, sd, all(k in have for k in ks) and len(x.a[1].a) >= 4


def movements(sp, D, k, name):
    R = Body(D, k, name)
    e = R.e
    K = R.key
    S = dict(zip(R.names('PoolState'), R.before.a[1]))
    rate, nonce, q = S['fee_rate'], S['vault_signer_nonce'], R.amount
    create = name == 'process_creation'
    sp.oblige('R0 the request can succeed', '%s, %d assets' % (name, k), len(R.oks) > 0, '')
    poolseed = [[mk("arg", "pool.key"), nonce]]
    for i, (s, v) in enumerate(R.oks):
        w = '%s, %d assets, outcome %d' % (name, k, i)
        R.last = s
        log = [x for x in s.log if x.op in ('basket', 'invoke')]
        bs = [x for x in log if x.op == 'basket']
        mv = [instr(R, x) for x in log if x.op == 'invoke']
        sp.oblige('R1 only token instructions of the token program, with all their accounts, are invoked', w, all(m is not None and m[4] for m in mv), lambda: [show(x)[:300] for x in log if x.op == 'invoke' and not (instr(R, x) or [0] * 5)[4]])
        if not all(mv):
            continue
        # the fees of this outcome
        same = {a: v.same(K('user_token'), K(a)) for a in ('lqd', 'initializer', 'referrer')}
        differ = {a: e.lookup(s, e.cmp_eq(s, K('user_token'), K(a))) == 0 for a in same}
        zero = v.is0(q)
        fl, fi, fr = (ZERO, ZERO, ZERO) if zero else fee_terms(rate, q)
        if same['lqd']:
            fl = fi = fr = ZERO
        if same['initializer']:
            fi = ZERO
        if same['referrer']:
            fr = ZERO
        fee = {'lqd': fl, 'initializer': fi, 'referrer': fr}
        if not same['lqd'] and not zero:
            sp.oblige('R3 who pays no fee is decided by the accounts', w, differ['lqd'] and all(same[a] or differ[a] for a in same), lambda: facts(s, 'user_token.key'))
        total = add(add(fl, fi), fr)
        sp.oblige('R3 fees follow the pool rate: total rounded up, at least a ten-thousandth and two fifths to the protocol, the referrer at most half of that', w,
                  zero or v.lt(rate, I(150)) is False and v.lt(rate, I(MIL)) is True, lambda: facts(s, 'fee_rate'))
        rest = sub(q, total)
        sp.oblige('R2 one basket is computed, for the pool tokens that change hands', w, len(bs) == 1 and bs[0].a[0] == ('get_creation_basket' if create else 'get_redemption_basket') and bs[0].a[2] is R.before and agree(R, v, bs[0].a[3], q if create else rest)
                  and log[0] is bs[0], lambda: [show(x.a[3])[:200] for x in bs])
        # assets
        for j in range(k):
            ua, va = K('user_asset%d' % j), K('vault%d' % j)
            ks = [ua, va, K('user_auth')] if create else [va, ua, K('auth')]
            got = [m for m in mv if m[0] == 'transfer' and m[1] == ks]
            amt = mk('sgn', R.basket[j], 'uint')
            sp.oblige('R2 each asset moves once, by the amount of the basket', '%s, asset %d' % (w, j), len(got) == 1 and got[0][2] in (amt, R.basket[j]) and v.lt(R.basket[j], ZERO) is not True, lambda: [show(m[2])[:100] for m in got])
            sp.oblige('R4 the user\'s tokens move by the user\'s signature, the pool\'s by the pool\'s', '%s, asset %d' % (w, j), all(m[3] == ([] if create else poolseed) for m in got), lambda: [str(m[3])[:200] for m in got])
        nm = k
        # pool tokens
        dests = list(fee.items()) + ([('user_token', rest)] if create else [])
        for a, amt in dests:
            ks = [K('mint'), K(a), K('auth')] if create else [K('user_token'), K(a), K('user_auth')]
            got = [m for m in mv if m[0] == ('mint_to' if create else 'transfer') and m[1] == ks]
            if not got:
                sp.oblige('R3 every fee and the remainder are paid', '%s, %s' % (w, a), agree(R, v, ZERO, amt), lambda: '%s is not paid' % show(amt)[:200])
            else:
                nm += len(got)
                sp.oblige('R3 every fee and the remainder are paid', '%s, %s' % (w, a), len(got) == 1 and agree(R, v, got[0][2], amt), lambda: [show(m[2])[:200] for m in got])
                sp.oblige('R4 the user\'s tokens move by the user\'s signature, the pool\'s by the pool\'s', '%s, %s' % (w, a), all(m[3] == (poolseed if create else []) for m in got), lambda: [str(m[3])[:200] for m in got])
        if not create:
            got = [m for m in mv if m[0] == 'burn']
            nm += len(got)
            sp.oblige('R3 what is redeemed, less the fees, is burned', w, len(got) == 1 and got[0][1] == [K('user_token'), K('mint'), K('user_auth')] and agree(R, v, got[0][2], rest) and got[0][3] == [], lambda: [show(m[2])[:200] for m in got])
        sp.oblige('R1 nothing else moves', w, nm == len(mv), lambda: [m[0] for m in mv])
        sp.oblige('R5 the pool state is left alone', w, e.read(s, R.sl) is R.before, lambda: show(e.read(s, R.sl))[:200])


def baskets(sp, D, k, name):
    R = Body(D, k, name)
    sp.oblige('R0 the request can succeed', '%s, %d assets' % (name, k), len(R.oks) > 0, '')
    up = name == 'get_creation_basket'
    for i, (s, v) in enumerate(R.oks):
        w = '%s, %d assets, outcome %d' % (name, k, i)
        bk = v.ret.a[1][0] if v.ret.op == 'agg' else UNIT
        qs = elems(bk.a[1][0]) if bk.op == 'agg' else None
        sp.oblige('R6 the basket has one quantity per asset', w, qs is not None and len(qs) == k, lambda: show(v.ret)[:200])
        if qs is None or len(qs) != k:
            continue
        sup = {z for t in list(s.facts) + qs for z in walk(t) if z.op == 'unpacked' and z.a[0] == 'Mint'}
        sup = [fld(z, 'supply') for z in sup if mk('arg', 'mint.data') in walk(z)]
        sp.oblige('R6 a pool without pool tokens has no basket', w, any(v.nz(z) for z in sup), lambda: facts(s, 'supply'))
        for j, t in enumerate(qs):
            am = [fld(z, 'amount') for z in {z for f in list(s.facts) + qs for z in walk(f) if z.op == 'unpacked' and z.a[0] == 'Account' and mk('arg', 'vault%d.data' % j) in walk(z)}]
            ok = len(am) == 1 and len(sup) == 1 and share(v, t, am[0], R.amount, sup[0], up)
            sp.oblige('R6 a basket is the share of each vault, rounded up for creation and down for redemption', '%s, asset %d' % (w, j), ok, lambda: show(t)[:300])


def share(v, t, a, q, sup, up):
    while t.op in ('trunc', 'zext', 'sgn'):
        t = t.a[0]
    x = mul(a, q)
    exps = [mk('div', add(add(x, sup), I(-1)), sup), mk('div', add(x, mk('zext', add(sup, I(-1)), 64)), sup)] if up else [mk('div', x, sup)]
    if t in exps:
        return True
    some = False
    for n in (1, 2, 3, 7, 10, 99, 100, 101, 12345, 10 ** 9):
        for y in (0, 1, 2, 5, 9, 10, 100, 333, 10 ** 6, 10 ** 9 + 1):
            for z in (0, 1, 2, 3, 50, 99, 100, 10 ** 6 + 1):
                env = {a: y, q: z, sup: n}
                for f, (k, s) in v.st.facts.items():
                    r = ev(f, env)
                    if r is not None and (r in s) != (k == 'in'):
                        break
                else:
                    if ev(t, env) != (-(-y * z // n) if up else y * z // n):
                        return False
                    some = True
    return some


def check_c29(sp):
    D = Dex(sp.progs[CRATE])
    for k in (1, 2):
        for n in ('process_creation', 'process_redemption'):
            movements(sp, D, k, n)
        for n in ('get_creation_basket', 'get_redemption_basket'):
            baskets(sp, D, k, n)
    for n in ('process_swap', 'get_swap_basket'):
        R = Body(D, 1, n)
        sp.oblige('R7 swaps are refused unless the pool defines them', n, not R.oks, '%d successful outcomes' % len(R.oks))
    sp.units = ['Pool::' + n for n in ('process_creation', 'process_redemption', 'get_creation_basket', 'get_redemption_basket', 'process_swap', 'get_swap_basket')]


CHECKS['C29'] = check_c29
SCOPE['C29'] = [CRATE]
