"""C32: the command line client reads accounts as the program writes them.
C33: the transactions it sends name the accounts the program expects, signed by those who must."""
from spec import *
from proxy import find, elems, bytes_are, address, SYSTEM_ID, TOKEN_ID
from builders import b58

CRATE = 'crank'
CHECKS, SCOPE = {}, {}
RENT_ID = b58('SysvarRent111111111111111111111111111111111')
HEAD, TAIL = b'serum', b'padding'
KEYS = ('market', 'req_q', 'event_q', 'bids', 'asks', 'coin_vault', 'pc_vault', 'vault_signer_key')
MAXACC = 32


def variant(r):
    return r.a[0][3] if r.op == 'agg' and r.a[0][0] == 'adt' and len(r.a[0]) > 3 else None


def ref(n):
    return mk('ptr', mk('deref', mk('arg', n)))


def val(n):
    return mk('init', mk('deref', mk('arg', n)))


def facts(s):
    return lambda: [('%s ' % (s.facts[x],)) + show(x)[:160] for x in s.facts][-12:]


def engine(D):
    e = Engine(D.prog)
    e.nomerge = lambda st, fr: True
    return e


def on(e, path, h):
    e.boundary[path] = e.models[path] = h


def loc_of(p):
    """location a shared slice or array pointer denotes"""
    return deref_loc(p)


ST = 'safe_transmute::'


def region(e, st, p):
    """a byte or word slice as (account bytes, byte offset, stride, elements)"""
    b, s, n = e.to_slice(st, p)
    if b.op == 'tv':
        return b.a[0], add(b.a[1], mul(s, I(b.a[3]))), b.a[3], n
    v = e.read(st, b) if b.op != 'deref' else None
    if v is not None and v.op == 'accdata':
        return mk('deref', mk('acct', v.a[0])), s, 1, n
    return b, s, None, n


def transmutes(e):
    """the reinterpretations of the library: whole words of the same bytes or an error.  A buffer that is not aligned is copied, which keeps the words: only the borrowed outcome is followed"""
    def many(e, c, st):
        T = e.prog.types[c.callee['targs'][0]]
        b, o, _, n = region(e, st, c.args[0])
        return [(st, e.okv(mk('slice', mk('tv', b, o, T['s'], T['size']), ZERO, mk('div', n, I(T['size']))))), (st.copy(), e.errv(mk('tmerr')))]

    def one(e, c, st):
        T = e.prog.types[c.callee['targs'][0]]
        b, o, _, n = region(e, st, c.args[0])
        st.log = st.log + (mk('exactly', n, I(T['size']), b, o),)
        return [(st, e.okv(e.read(st, mk('view', b, o, T['s'], T['size'])))), (st.copy(), e.errv(mk('tmerr')))]

    def to_bytes(e, c, st):
        T = e.prog.types[c.callee['targs'][0]]
        b, o, k, n = region(e, st, c.args[0])
        if k is not None:
            return [(st, mk('slice', mk('tv', b, o, 'u8', 1), ZERO, mul(n, I(k))))]
        return [(st, mk('slice', mk('bytesof', e.read(st, b) if o is ZERO else mk('part', e.read(st, b), o)), ZERO, mul(n, I(T['size']))))]

    def one_to_bytes(e, c, st):
        T = e.prog.types[c.callee['targs'][0]]
        return [(st, mk('slice', mk('bytesof', e.read(st, deref_loc(c.args[0]))), ZERO, I(T['size'])))]

    def pubkey(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        if b.op == 'bytesof' and s is ZERO and n is I(32):
            return [(st, b.a[0])]
        return None
    for k in ('transmute_many', 'transmute_many_pedantic'):
        on(e, ST + 'full::' + k, many)
    on(e, ST + 'full::transmute_one_pedantic', one)
    on(e, ST + 'to_bytes::transmute_to_bytes', to_bytes)
    on(e, ST + 'to_bytes::transmute_one_to_bytes', one_to_bytes)
    on(e, ST + "error::Error::<'a, S, T>::copy", lambda e, c, st: [(st, e.errv(mk('tmerr')))])
    on(e, ST + "error::Error::<'a, S, T>::without_src", lambda e, c, st: [(st, mk('tmerr'))])
    old = e.models['solana_program::pubkey::Pubkey::new']
    e.models['solana_program::pubkey::Pubkey::new'] = lambda e, c, st: pubkey(e, c, st) or old(e, c, st)


def rpc(e):
    """account data fetched over the network: any bytes"""
    def data(e, c, st):
        k = e.read(st, deref_loc(c.args[1]))
        return [(st, e.okv(e.vec(mk('accdata', k), mk('acclen', k)))), (st.copy(), e.errv(mk('rpcerr')))]
    on(e, 'solana_client::rpc_client::RpcClient::get_account_data', data)


def ok_outs(e, outs):
    return [(s, r) for s, r in outs if variant(r) != 'Err' and not View(e, s, r).infeasible()]


# ------------------------------------------------------------------ C32
def c32_padding(sp):
    D = sp.dex
    e = engine(D)
    transmutes(e)
    n = mk('arg', 'n')
    data = mk('deref', mk('arg', 'data'))
    outs = e.call_fn(find(D.prog, 'crank::remove_dex_account_padding'), [mk('slice', data, ZERO, n)], State(), mk('frame0', 'padding'))
    oks = ok_outs(e, outs)
    for i, (s, r) in enumerate(oks):
        v = View(e, s, r)
        w = 'remove_dex_account_padding outcome %d' % i

        def marker(at, b):
            def is_(x):
                return (x.op == 'bytes' and x.a[0] == b.hex() and 1) or (x.op == 'bsub' and x.a[0] is data and v.same(x.a[1], at) and v.same(x.a[2], I(len(b))) and 2) or 0
            return any(x.op == 'eq' and v.nz(x) and sorted((is_(x.a[0]), is_(x.a[1]))) == [1, 2] for x in s.facts)
        sp.oblige('R1 only data with the head and tail markers is read', w, marker(ZERO, HEAD) and marker(sub(n, I(len(TAIL))), TAIL), facts(s))
        p = r.a[1][0]
        if variant(p) == 'Borrowed':
            b, o, _, k = region(e, s, p.a[1][0])
            sp.oblige('R2 the words read are those between the markers', w, b is data and v.same(o, I(len(HEAD))) and v.same(k, mk('div', sub(n, I(len(HEAD) + len(TAIL))), I(8))), lambda: show(r)[:300])
        else:
            sp.oblige('R2 the words read are those between the markers', w, False, lambda: show(r)[:300])
    sp.floor('successful outcomes of remove_dex_account_padding', len(oks), 1)
    sp.count('remove_dex_account_padding', outcomes=len(outs), successful=len(oks))


def typ(D, suffix):
    for t in D.prog.types:
        if t.get('path', '').endswith(suffix) and 'size' in t:
            return t
    raise Missing('type ' + suffix)


def c32_queue(sp, name, hdr, item):
    D = sp.dex
    e = engine(D)
    transmutes(e)
    n = mk('arg', 'n')
    data = mk('deref', mk('arg', 'data'))
    outs = e.call_fn(find(D.prog, 'crank::' + name), [mk('slice', mk('tv', data, ZERO, 'u64', 8), ZERO, n)], State(), mk('frame0', name))
    ht, isz = typ(D, 'state::' + hdr), typ(D, 'state::' + item)['size']
    hs = ht['size']
    names = [x[0] for x in ht['v'][0]['f']]
    oks = ok_outs(e, outs)
    hv = e.read(State(), mk('view', data, ZERO, ht['s'], hs))
    head, count = [project(hv, ('f', names.index(k), k, 0)) for k in ('head', 'count')]
    cap = mk('div', sub(mul(n, I(8)), I(hs)), I(isz))
    for i, (s, r) in enumerate(oks):
        v = View(e, s, r)
        w = '%s outcome %d' % (name, i)
        t = r.a[1][0]
        ok = t.op == 'agg' and len(t.a[1]) == 3
        sp.oblige('R3 the queue is its header and two runs of records', w, ok, lambda: show(r)[:300])
        if not ok:
            continue
        h, a, b = t.a[1]
        sp.oblige('R3 the header is the first words', w, h is hv, lambda: show(h)[:200])
        hl = [mk('min', sub(cap, head), count), mk('min', count, sub(cap, head))]
        for nm, x, off, want in (('first', a, add(I(hs), mul(head, I(isz))), hl), ('wrapped', b, I(hs), [sub(count, y) for y in hl])):
            bb, oo, st_, kk = region(e, s, x)
            sp.oblige('R4 the %s records are the live ones, oldest first' % nm, w, bb is data and st_ == isz and v.same(oo, off) and same_count(v, kk, nm, cap, head, count, want), lambda: show(x)[:400])
    sp.floor('successful outcomes of ' + name, len(oks), 1)
    sp.count(name, outcomes=len(outs), successful=len(oks))


def same_count(v, k, nm, cap, head, count, want):
    """k is min(cap - head, count) resp. the rest: as that term, or under the path's comparison"""
    if any(v.same(k, y) for y in want):
        return True
    front = sub(cap, head)
    vals = []
    if not closed(k, {cap, head, count}):
        return False
    try:
        for c in (1, 2, 5, 9):
            for h in range(c):
                for m in range(c + 1):
                    env = {cap: c, head: h, count: m}
                    if contradicts(v, env):
                        continue
                    got = ev(k, env)
                    vals.append(got == (min(c - h, m) if nm == 'first' else m - min(c - h, m)))
    except Exception:
        return False
    return bool(vals) and all(vals)


ARITH = {'int', 'poly', 'lt', 'eq', 'ne', 'min', 'max', 'band', 'bor', 'bxor', 'shl', 'shr', 'div', 'rem', 'trunc', 'not', 'sub', 'add', 'mul'}


def closed(x, env):
    """x is arithmetic over the terms of env only"""
    if isinstance(x, tuple):
        return all(closed(y, env) for y in x)
    if not isinstance(x, V) or x in env:
        return True
    return x.op in ARITH and all(closed(y, env) for y in x.a)


def contradicts(v, env):
    for x in v.st.facts:
        if not closed(x, env):
            continue
        try:
            b = ev(x, env)
        except Exception:
            continue
        f = v.st.facts[x]
        if f[0] == 'in' and b not in f[1] or f[0] == 'ni' and b in f[1]:
            return True
    return False


def c32_keys(sp):
    D = sp.dex
    e = engine(D)
    transmutes(e)
    rpc(e)
    outs = e.call_fn(find(D.prog, 'crank::get_keys_for_market'), [ref(k) for k in ('client', 'program_id', 'market')], State(), mk('frame0', 'keys'))
    oks = ok_outs(e, outs)
    M1, M2, MK = typ(D, 'state::MarketState'), typ(D, 'state::MarketStateV2'), typ(D, 'crank::MarketPubkeys')
    names = [x[0] for x in MK['v'][0]['f']]
    acc = mk('deref', mk('acct', val('market')))
    seen = set()
    for i, (s, r) in enumerate(oks):
        v = View(e, s, r)
        w = 'get_keys_for_market outcome %d' % i
        reads = [x for x in s.log if x.op == 'exactly']
        kinds = [M for M in (M1, M2) if any(x.a[2] is acc and x.a[1] is I(M['size']) and v.same(x.a[3], I(5)) for x in reads)]
        sp.oblige('R5 the market account is read as a market', w, len(kinds) == 1 and len(reads) == 1, lambda: [show(x)[:200] for x in reads])
        if len(kinds) != 1:
            continue
        M = kinds[0]
        seen.add(M['s'])
        m = e.read(s, mk('view', acc, I(5), M['s'], M['size']))
        if M is M2:
            m = project(m, ('f', [x[0] for x in M2['v'][0]['f']].index('inner'), 'inner', 0))
        fn = [x[0] for x in M1['v'][0]['f']]

        def fld(k):
            return project(m, ('f', fn.index(k), k, 0))
        want = {'market': val('market')}
        for k in ('req_q', 'event_q', 'bids', 'asks', 'coin_vault', 'pc_vault'):
            want[k] = fld(k)
        for k in names:
            x = e.read(s, deref_loc(r.a[1][0].a[1][names.index(k)]))
            if k == 'vault_signer_key':
                ok = x.op == 'pda' and x.a[0] is val('program_id') and x.a[-1] is fld('vault_signer_nonce') and val('market').a[0] in set(walk(x))
            else:
                ok = k in want and (x is want[k] or v.same(x, want[k]))
            sp.oblige('R6 each key is the one the market records', '%s, %s' % (w, k), ok, lambda: show(x)[:200])
        sp.oblige('R7 the account says it is this market', w, v.same(val('market'), fld('own_address')) or any(x.op == 'eq' and v.nz(x) and {plain(x.a[0]), plain(x.a[1])} == {val('market'), fld('own_address')} for x in s.facts), facts(s))
        sp.oblige('R8 only initialized markets are used', w, flagged(v, fld('account_flags'), M is M2), facts(s))
    sp.oblige('R9 both kinds of market are read', 'get_keys_for_market', len(seen) == 2, str(seen))
    sp.count('get_keys_for_market', outcomes=len(outs), successful=len(oks))


def plain(x):
    return x.a[0].a[0] if x.op == 'bsub' and x.a[0].op == 'bytesof' and x.a[1] is ZERO and x.a[2] is I(32) else x


def flagged(v, flags, perm):
    """every flag word the path allows is that of a market: initialized, market, not a queue"""
    for word in range(2048):
        good = word & 3 == 3 and not word & 0b1111100 and bool(word & 512) == perm
        if not good and not contradicts(v, {flags: word}):
            return False
    return True


def check_c32(sp):
    c32_padding(sp)
    c32_queue(sp, 'parse_event_queue', 'EventQueueHeader', 'Event')
    c32_queue(sp, 'parse_req_queue', 'RequestQueueHeader', 'Request')
    c32_keys(sp)


CHECKS['C32'] = check_c32
SCOPE['C32'] = [CRATE]


# ------------------------------------------------------------------ C33
SEND = ('send_and_confirm_transaction_with_spinner_and_config', 'send_and_confirm_transaction_with_spinner', 'send_and_confirm_transaction', 'send_transaction', 'send_transaction_with_config')


class Client:
    """one function of the client, run on symbolic keys; network calls are opaque, sent transactions are logged"""

    def __init__(self, D, name, params, pre=None):
        self.D = D
        self.e = e = engine(D)
        transmutes(e)
        rpc(e)
        e.headsplit = True
        RC = 'solana_client::rpc_client::RpcClient::'
        for k in SEND:
            on(e, RC + k, self.send)
        on(e, RC + 'get_latest_blockhash', self.fresh('blockhash'))
        on(e, RC + 'get_minimum_balance_for_rent_exemption', lambda e, c, st: [(st, e.okv(mk('rent', c.args[1]))), (st.copy(), e.errv(mk('rpcerr')))])
        on(e, 'serum_common::client::rpc::simulate_transaction', self.simulate)
        on(e, 'serum_common::client::rpc::create_token_account', self.token_account)
        KP = '<solana_sdk::signer::keypair::Keypair as solana_sdk::signer::Signer>::pubkey'
        on(e, KP, lambda e, c, st: [(st, mk('pubkey', e.read(st, deref_loc(c.args[0]))))])
        on(e, 'solana_sdk::signer::keypair::Keypair::generate', lambda e, c, st: [(st, mk('newkey', c.site(st)))])
        on(e, 'solana_sdk::transaction::Transaction::new_signed_with_payer', self.txn)
        on(e, 'serum_dex::instruction::MarketInstruction::pack', self.pack)
        on(e, 'solana_program::system_instruction::create_account', self.create)
        on(e, 'solana_program::system_instruction::transfer', lambda e, c, st: [(st, mk('sysxfer', e.read(st, deref_loc(c.args[0])), e.read(st, deref_loc(c.args[1])), c.args[2]))])
        # logging writes nothing the properties are about: off
        on(e, 'log::max_level', lambda e, c, st: [(st, agg(('adt', 'log::LevelFilter', 0, 'Off'), []))])
        if pre:
            pre(self, e)
        st = State()
        MK = typ(D, 'crank::MarketPubkeys')
        st.mem[mk('deref', mk('arg', 'state'))] = agg(('adt', MK['path'], 0, 'MarketPubkeys'), [ref('state.' + x[0]) for x in MK['v'][0]['f']])
        self.IX = [x[0] for x in typ(D, 'instruction::Instruction')['v'][0]['f']]
        self.AM = [x[0] for x in typ(D, 'instruction::AccountMeta')['v'][0]['f']]
        self.outs = e.call_fn(find(D.prog, 'crank::' + name), params, st, mk('frame0', name))
        self.oks = ok_outs(e, self.outs)

    def fresh(self, n):
        return lambda e, c, st: [(st, e.okv(mk(n))), (st.copy(), e.errv(mk('rpcerr')))]

    def send(self, e, c, st):
        st.log = st.log + (mk('send', e.read(st, deref_loc(c.args[1]))),)
        return [(st, e.okv(mk('signature'))), (st.copy(), e.errv(mk('rpcerr')))]

    def simulate(self, e, c, st):
        st.log = st.log + (mk('simulate', e.read(st, deref_loc(c.args[1]))),)
        T = e.prog.types[c.dty]
        return [(st, e.okv(self.D.symbolic(T['args'][0], 'simulated'))), (st.copy(), e.errv(mk('rpcerr')))]

    def token_account(self, e, c, st):
        k = mk('newkey', 'token account', e.read(st, deref_loc(c.args[1])), e.read(st, deref_loc(c.args[2])))
        return [(st, e.okv(k)), (st.copy(), e.errv(mk('rpcerr')))]

    def pack(self, e, c, st):
        v = mk('packed', e.read(st, deref_loc(c.args[0])))
        return [(st, e.vec(v, mk('plen', v)))]

    def create(self, e, c, st):
        return [(st, mk('syscreate', *[e.read(st, deref_loc(c.args[i])) if i in (0, 1, 4) else c.args[i] for i in range(5)]))]

    def items(self, e, st, p):
        b, s, n = e.to_slice(st, p)
        if not is_int(n):
            raise Unsupported('list of unknown length')
        if b.op == 'one':
            return [e.read(st, b.a[0])]
        return [e.read(st, mkidx2(b, add(s, I(j)))) for j in range(n.a[0])]

    def txn(self, e, c, st):
        ixs = self.items(e, st, c.args[0])
        payer = e.read(st, deref_loc(c.args[1].a[1][0])) if variant(c.args[1]) == 'Some' else mk('nopayer')
        l = elems(e.read(st, deref_loc(c.args[2])))
        sg = [e.read(st, deref_loc(x)) for x in (self.items(e, st, c.args[2]) if l is None else l)]
        return [(st, mk('txn', mk('list', *ixs), payer, mk('list', *sg)))]

    # ---- views of an instruction
    def part(self, ix, k):
        return ix.a[1][self.IX.index(k)] if ix.op == 'agg' and len(ix.a[1]) == len(self.IX) else mk('none')

    def metas(self, ix):
        l = elems(self.part(ix, 'accounts'))
        return None if l is None or any(x.op != 'agg' for x in l) else [tuple(x.a[1][self.AM.index(k)] for k in ('pubkey', 'is_signer', 'is_writable')) for x in l]

    def data(self, ix, name, args):
        v = self.part(ix, 'data')
        for z in walk(v):
            if z.op == 'packed':
                x = z.a[0]
                return bytes_are(v, z) and variant(x) == name and len(x.a[1]) == len(args) and all(a is b for a, b in zip(x.a[1], args))
        return False


def known_key(C, v, want):
    if isinstance(want, tuple):
        return address(C.D.prog, C.e, v) == want[0] or show(v).endswith(want[1])
    return v is want


def dex_ix(sp, C, w, ix, name, args, want):
    """want: (key, signer, needs to be writable)"""
    sp.oblige('R1 the instruction goes to the DEX program', w, C.part(ix, 'program_id') is val('program_id'), lambda: show(C.part(ix, 'program_id'))[:200])
    sp.oblige('R2 the instruction is the one asked for, with the arguments given', w, C.data(ix, name, args), lambda: show(C.part(ix, 'data'))[:300])
    ms = C.metas(ix)
    sp.oblige('R3 it names all the accounts', w, ms is not None and len(ms) == len(want), lambda: show(C.part(ix, 'accounts'))[:400])
    if ms is None or len(ms) != len(want):
        return
    for j, (m, x) in enumerate(zip(ms, want)):
        sp.oblige('R3 each account is the right one', '%s, account %d' % (w, j), known_key(C, m[0], x[0]), lambda: show(m[0])[:200])
        sp.oblige('R4 signer and writable flags are those the program needs', '%s, account %d' % (w, j), is_int(m[1]) and is_int(m[2]) and bool(m[1].a[0]) == x[1] and (m[2].a[0] or not x[2]), lambda: show(mk('list', *m))[:200])


def sent(sp, C, w, s):
    """the transaction sent on this outcome"""
    l = [x for x in s.log if x.op == 'send']
    sp.oblige('R5 exactly one transaction is sent', w, len(l) == 1 and l[0].a[0].op == 'txn', lambda: [show(x)[:200] for x in l])
    if len(l) != 1 or l[0].a[0].op != 'txn':
        return None, None
    ixs, payer, sg = l[0].a[0].a
    have = {mk('pubkey', x) for x in sg.a}
    need = {payer}
    for ix in ixs.a:
        if ix.op == 'syscreate':
            need |= {ix.a[0], ix.a[1]}
        for m in C.metas(ix) or ():
            if not (is_int(m[1]) and m[1].a[0] == 0):
                need.add(m[0])
    sp.oblige('R6 everyone who must sign does', w, need <= have, lambda: 'missing: ' + ', '.join(show(x)[:80] for x in need - have))
    for x in s.log:
        if x.op == 'simulate':
            sp.oblige('R5 the transaction simulated is the one sent', w, x.a[0] is l[0].a[0], lambda: show(x)[:200])
    return list(ixs.a), payer


S = lambda k: mk('init', mk('deref', mk('arg', 'state.' + k)))
K = lambda n: mk('pubkey', val(n))
RW, RO = lambda k: (k, False, True), lambda k: (k, False, False)
SG = lambda k: (k, True, False)
SPL, RENT = (TOKEN_ID, 'spl_token::ID'), (RENT_ID, 'sysvar::rent::ID')


def simple(sp, name, params, ixname, args, want):
    C = Client(sp.dex, name, params)
    for i, (s, r) in enumerate(C.oks):
        w = '%s outcome %d' % (name, i)
        ixs, payer = sent(sp, C, w, s)
        if ixs is None:
            continue
        sp.oblige('R5 with exactly the instruction', w, len(ixs) == 1, lambda: '%d instructions' % len(ixs))
        if len(ixs) == 1:
            dex_ix(sp, C, w, ixs[0], ixname, args, want(View(C.e, s, r)) if callable(want) else want)
    sp.floor('successful outcomes of ' + name, len(C.oks), 1)
    sp.count(name, outcomes=len(C.outs), successful=len(C.oks))


def ordered(sp, name, params, who, ixname, args, want):
    """functions that create the open orders account first when there is none"""
    C = Client(sp.dex, name, params)
    loc = mk('deref', mk('arg', 'orders'))
    OO = typ(sp.dex, 'state::OpenOrders')['size'] + len(HEAD) + len(TAIL)
    seen = set()
    for i, (s, r) in enumerate(C.oks):
        v = View(C.e, s, r)
        w = '%s outcome %d' % (name, i)
        ixs, payer = sent(sp, C, w, s)
        if ixs is None:
            continue
        had = v.values(mk('discr', mk('init', loc)), (0, 1))
        new = [x for x in ixs if x.op == 'syscreate']
        if len(new) == 1 and len(ixs) == 2 and ixs[0] is new[0]:
            x = new[0]
            seen.add('new')
            sp.oblige('R7 an account is created only when none is given', w, set(had) == {0}, str(had))
            sp.oblige('R7 the new account is paid for by the owner and belongs to the DEX', w, x.a[0] is K(who) and x.a[4] is val('program_id'), lambda: show(x)[:300])
            sp.oblige('R7 the new account is rent exempt and has the size of an open orders account', w, x.a[3] is I(OO) and x.a[2] is mk('rent', I(OO)), lambda: show(x)[:300])
            key = x.a[1]
        else:
            seen.add('given')
            sp.oblige('R7 otherwise the given account is used', w, len(ixs) == 1 and set(had) == {1}, lambda: [show(y)[:100] for y in ixs])
            key = project(mk('init', loc), ('f', 0, 0, 1))
            if len(ixs) != 1:
                continue
        now = C.e.read(s, loc)
        sp.oblige('R7 the caller learns which account is used', w, variant(now) == 'Some' and same_key(now.a[1][0], key) or now is mk('init', loc) and len(ixs) == 1, lambda: show(now)[:200])
        dex_ix(sp, C, w, ixs[-1], ixname, args, want(C.metas(ixs[-1])[1 if ixname == 'NewOrderV3' else 0][0] if C.metas(ixs[-1]) and same_key(C.metas(ixs[-1])[1 if ixname == 'NewOrderV3' else 0][0], key) else key))
    sp.oblige('R7 both kinds of call succeed', name, seen == {'new', 'given'}, str(seen))
    sp.count(name, outcomes=len(C.outs), successful=len(C.oks))


def same_key(a, b):
    return a is b or show(a) == show(b)


def check_c33(sp):
    oo, own = val('orders'), K('owner')
    base = [ref('client'), ref('program_id'), ref('owner'), ref('state'), ref('orders')]
    canc = [RO(S('market')), RW(S('bids')), RW(S('asks')), RW(oo), SG(own), RW(S('event_q'))]
    simple(sp, 'cancel_order_by_client_order_id', base + [mk('arg', 'id')], 'CancelOrderByClientIdV2', [mk('arg', 'id')], canc)
    simple(sp, 'cancel_orders_by_client_order_ids', base + [mk('arg', 'ids')], 'CancelOrdersByClientIds', [mk('arg', 'ids')], canc)
    simple(sp, 'close_open_orders', base, 'CloseOpenOrders', [], [RW(oo), SG(own), RW(own), RO(S('market'))])
    pay = [ref('client'), ref('program_id'), ref('payer'), ref('state'), ref('coin'), ref('pc')]
    simple(sp, 'match_orders', pay, 'MatchOrders', [I(2)], [RW(S(k)) for k in ('market', 'req_q', 'event_q', 'bids', 'asks')] + [RO(val('coin')), RO(val('pc'))])
    simple(sp, 'settle_funds', [ref('client'), ref('program_id'), ref('payer'), ref('state'), mk('arg', 'signer'), ref('orders'), ref('coin'), ref('pc')], 'SettleFunds', [],
           lambda v: [RW(S('market')), RW(oo), SG(K('payer') if v.values(mk('discr', mk('arg', 'signer')), (0, 1)) == {0} else mk('pubkey', mk('init', mk('deref', mk('prj', mk('arg', 'signer'), ('f', 0, '0', 1)))))), RW(S('coin_vault')), RW(S('pc_vault')), RW(val('coin')), RW(val('pc')), RO(S('vault_signer_key')), RO(SPL)])
    opar = [ref('client'), ref('program_id'), ref('owner'), ref('state'), ref('orders')]
    ordered(sp, 'init_open_orders', opar, 'owner', 'InitOpenOrders', [], lambda key: [RW(key), SG(K('owner')), RO(S('market')), RO(RENT)])
    ppar = [ref('client'), ref('program_id'), ref('payer'), ref('wallet'), ref('state'), ref('orders'), mk('arg', 'new_order')]
    ordered(sp, 'place_order', ppar, 'payer', 'NewOrderV3', [mk('arg', 'new_order')], lambda key: [RW(S('market')), RW(key), RW(S('req_q')), RW(S('event_q')), RW(S('bids')), RW(S('asks')), RW(val('wallet')),
            SG(K('payer')), RW(S('coin_vault')), RW(S('pc_vault')), RO(SPL), RO(RENT)])
    for a, b in ((1, 0), (2, 1), (0, 0)):
        consume(sp, a, b)
    consume_once(sp)
    listing(sp)


def consume(sp, a, b):
    D = sp.dex
    EV = typ(D, 'state::Event')
    oi = [x[0] for x in EV['v'][0]['f']].index('owner')

    def pre(C, e):
        def queue(e, c, st):
            def seg(n, k):
                l = mk('deref', mk('arg', n))
                return mk('slice', l, ZERO, I(k))
            return [(st, e.okv(agg(('tuple',), [mk('arg', 'header'), seg('seg0', a), seg('seg1', b)]))), (st.copy(), e.errv(mk('badqueue')))]
        on(e, 'crank::parse_event_queue', queue)
        on(e, 'crank::remove_dex_account_padding', lambda e, c, st: [(st, e.okv(mk('arg', 'words'))), (st.copy(), e.errv(mk('badpadding')))])

        def sort(e, c, st):
            l = vec_of(e, st, c.args[0])
            if l is None:
                raise Unsupported('sort of an unknown list')
            put(e, st, c.args[0], [mk('sorted', mk('list', *sorted(l, key=show)), I(j)) for j in range(len(l))])
            return [(st, UNIT)]

        def dedup(e, c, st):
            l = vec_of(e, st, c.args[0])
            if l is None:
                raise Unsupported('dedup of an unknown list')
            out = []
            for k in range(1, len(l) + 1) if l else (0,):
                s2 = st.copy()
                s2.log = s2.log + (mk('kept', I(k)),)
                put(e, s2, c.args[0], l if k == len(l) else [mk('uniq', mk('list', *l), I(j)) for j in range(k)])
                out.append((s2, UNIT))
            return out
        for k in ('core::slice::<impl [T]>::sort_unstable', 'alloc::slice::<impl [T]>::sort'):
            on(e, k, sort)
        on(e, 'alloc::vec::Vec::<T, A>::dedup', dedup)
    C = Client(D, 'consume_events_instruction', [ref('client'), ref('program_id'), ref('state'), ref('coin'), ref('pc')], pre)
    owners = [mk('init', mk('fld', mkidx2(mk('deref', mk('arg', n)), I(j)), oi, 'owner', 0)) for n, k in (('seg0', a), ('seg1', b)) for j in range(k)]
    want = mk('list', *sorted(owners, key=show))
    done = 0
    for i, (s, r) in enumerate(C.oks):
        w = 'consume_events_instruction, %d+%d events, outcome %d' % (a, b, i)
        o = r.a[1][0]
        if variant(o) == 'None':
            sp.oblige('R8 an empty queue needs no instruction, any other does', w, not owners, 'nothing is consumed')
            continue
        ix = o.a[1][0]
        ms = C.metas(ix)
        sp.oblige('R8 an empty queue needs no instruction, any other does', w, bool(owners), 'consumes nothing')
        if ms is None or len(ms) < 4:
            sp.oblige('R8 the accounts end with the market, its event queue and the fee wallets', w, False, lambda: show(C.part(ix, 'accounts'))[:300])
            continue
        done += 1
        dex_ix(sp, C, w, agg(ix.a[0], [e_ if k != 'accounts' else C.e.vec(agg(('array',), elems(e_)[-4:]), I(4)) for k, e_ in zip(C.IX, ix.a[1])]), 'ConsumeEvents', list(find_args(ix)), [RW(S('market')), RW(S('event_q')), RO(val('coin')), RO(val('pc'))])
        l = [m[0] for m in ms[:-4]]
        ok = bool(l) and all(sorted_of(x) is want and x_index(x) == j for j, x in enumerate(l))
        sp.oblige('R9 the open orders accounts of the events come first, sorted', w, ok, lambda: [show(x)[:120] for x in l])
        sp.oblige('R9 they can be credited', w, all(is_int(m[2]) and m[2].a[0] and is_int(m[1]) and not m[1].a[0] for m in ms[:-4]), lambda: [show(mk('list', *m))[:120] for m in ms])
        n = list(find_args(ix))
        sp.oblige('R9 some event is consumed', w, len(n) == 1 and is_int(n[0]) and n[0].a[0] > 0, lambda: show(C.part(ix, 'data'))[:200])
    sp.floor('instructions of consume_events_instruction', done, 1 if owners else 0)
    sp.count('consume_events_instruction %d+%d' % (a, b), outcomes=len(C.outs), successful=len(C.oks))


def find_args(ix):
    for z in walk(ix):
        if z.op == 'packed':
            return z.a[0].a[1]
    return ()


def sorted_of(x):
    if x.op == 'uniq':
        x = x.a[0].a[0]
    return x.a[0] if x.op == 'sorted' else None


def x_index(x):
    return x.a[1].a[0] if x.op in ('uniq', 'sorted') else None


def vec_of(e, st, p):
    v = e.read(st, deref_loc(p)) if p.op == 'ptr' else None
    l = elems(v) if v is not None else None
    if l is not None:
        return l
    b, s, n = e.to_slice(st, p)
    return [e.read(st, mkidx2(b, add(s, I(j)))) for j in range(n.a[0])] if is_int(n) else None


def put(e, st, p, l):
    v = e.read(st, deref_loc(p)) if p.op == 'ptr' else None
    if v is not None and elems(v) is not None:
        e.write(st, deref_loc(p), e.vec(agg(('array',), l), I(len(l))))
        return
    b, s, n = e.to_slice(st, p)
    for j, x in enumerate(l):
        e.write(st, mkidx2(b, add(s, I(j))), x)


def number(t, a):
    """t is a, as a 16 bit number"""
    try:
        return all(ev(t, {a: x}) == x for x in (0, 1, 5, 255, 256, 4095, 65535))
    except Exception:
        return False


def consume_once(sp):
    C = Client(sp.dex, 'consume_events_once', [ref('client'), ref('program_id'), ref('payer'), mk('arg', 'metas'), mk('arg', 'to_consume'), mk('arg', 'thread'), mk('arg', 'event_q')])
    for i, (s, r) in enumerate(C.oks):
        w = 'consume_events_once outcome %d' % i
        ixs, payer = sent(sp, C, w, s)
        if ixs is None:
            continue
        dex = [x for x in ixs if x.op == 'agg']
        sp.oblige('R5 one instruction for the DEX, the others move nothing', w, len(dex) == 1 and all(x.op == 'sysxfer' and x.a[0] is x.a[1] is K('payer') for x in ixs if x.op != 'agg'), lambda: [show(x)[:200] for x in ixs])
        if len(dex) == 1:
            sp.oblige('R1 the instruction goes to the DEX program', w, C.part(dex[0], 'program_id') is val('program_id'), lambda: show(dex[0])[:200])
            sp.oblige('R3 it names the accounts given', w, C.part(dex[0], 'accounts') is mk('arg', 'metas'), lambda: show(C.part(dex[0], 'accounts'))[:200])
            n = list(find_args(dex[0]))
            sp.oblige('R2 the instruction is the one asked for, with the arguments given', w, len(n) == 1 and number(n[0], mk('arg', 'to_consume')) and C.data(dex[0], 'ConsumeEvents', n), lambda: show(dex[0])[:200])
    sp.floor('successful outcomes of consume_events_once', len(C.oks), 1)
    sp.count('consume_events_once', outcomes=len(C.outs), successful=len(C.oks))


def listing(sp):
    """list_market: accounts created, vaults and the request agree with each other"""
    D = sp.dex

    def pre(C, e):
        e.headsplit = False

        def signer(e, c, st):
            n, m, p = c.args[0], e.read(st, deref_loc(c.args[1])), e.read(st, deref_loc(c.args[2]))
            return [(st, e.okv(mk('vaultsigner', n, m, p))), (st.copy(), e.errv(mk('badnonce')))]
        on(e, 'serum_dex::state::gen_vault_signer_key', signer)
    par = [ref('client'), ref('program_id'), ref('payer'), ref('coin_mint'), ref('pc_mint'), mk('arg', 'coin_lot'), mk('arg', 'pc_lot')]
    C = Client(D, 'list_market', par, pre)
    e = C.e
    MK = [x[0] for x in typ(D, 'crank::MarketPubkeys')['v'][0]['f']]
    IM = typ(D, 'instruction::InitializeMarketInstruction')
    least = {'market': typ(D, 'state::MarketState')['size'], 'req_q': typ(D, 'state::RequestQueueHeader')['size'] + typ(D, 'state::Request')['size'],
             'event_q': typ(D, 'state::EventQueueHeader')['size'] + 128 * typ(D, 'state::Event')['size'], 'bids': 14000, 'asks': 14000}
    for i, (s, r) in enumerate(C.oks):
        w = 'list_market outcome %d' % i
        ixs, payer = sent(sp, C, w, s)
        if ixs is None:
            continue
        res = r.a[1][0]
        k = {n: e.read(s, deref_loc(res.a[1][MK.index(n)])) for n in MK}
        made = {x.a[1]: x for x in ixs if x.op == 'syscreate'}
        sp.oblige('R10 five accounts are created, then the market', w, len(made) == 5 == len(ixs) - 1 and ixs[-1].op == 'agg', lambda: [show(x)[:80] for x in ixs])
        for n in least:
            x = made.get(k[n])
            sp.oblige('R10 each account of the market is created for the DEX, rent exempt and large enough', '%s, %s' % (w, n), x is not None and x.a[0] is K('payer') and x.a[4] is val('program_id') and is_int(x.a[3])
                      and x.a[3].a[0] >= least[n] + len(HEAD) + len(TAIL) and x.a[2] is mk('rent', x.a[3]) and (n != 'market' or x.a[3].a[0] == least[n] + len(HEAD) + len(TAIL)), lambda: show(x)[:200] if x is not None else 'not created')
        sp.oblige('R10 the accounts are distinct', w, len({k[n] for n in least}) == 5, '')
        vs = k['vault_signer_key']
        if vs.op == 'phi':
            sp.notes.append('list_market: the search for the vault owner is not followed exactly; its relation to the nonce is not decided on this tree')
        else:
            sp.oblige('R11 the vault owner is derived from the market', w, vs.op == 'vaultsigner' and vs.a[1] is k['market'] and vs.a[2] is val('program_id'), lambda: show(vs)[:200])
        for n, m in (('coin_vault', 'coin_mint'), ('pc_vault', 'pc_mint')):
            sp.oblige('R11 the vaults hold their mint and belong to the vault owner', '%s, %s' % (w, n), k[n] is mk('pubkey', mk('newkey', 'token account', val(m), vs)), lambda: show(k[n])[:200])
        if ixs[-1].op != 'agg':
            continue
        pay = find_args(ixs[-1])
        fs = [x[0] for x in IM['v'][0]['f']]
        q = dict(zip(fs, pay[0].a[1])) if len(pay) == 1 and pay[0].op == 'agg' else {}
        sp.oblige('R11 the request carries the lot sizes and the nonce of the vault owner', w, q.get('coin_lot_size') is mk('arg', 'coin_lot') and q.get('pc_lot_size') is mk('arg', 'pc_lot') and (vs.op == 'phi' or vs.op == 'vaultsigner' and q.get('vault_signer_nonce') is vs.a[0]), lambda: str({a: show(b)[:60] for a, b in q.items()}))
        dex_ix(sp, C, w, ixs[-1], 'InitializeMarket', list(pay), [RW(k['market']), RW(k['req_q']), RW(k['event_q']), RW(k['bids']), RW(k['asks']), RW(k['coin_vault']), RW(k['pc_vault']), RO(val('coin_mint')), RO(val('pc_mint')), RO(RENT)])
    sp.floor('successful outcomes of list_market', len(C.oks), 1)
    sp.count('list_market', outcomes=len(C.outs), successful=len(C.oks))


CHECKS['C33'] = check_c33
SCOPE['C33'] = [CRATE]
