"""serum-dex specific layer: entry points, container boundaries, path summaries."""
from terms import *
from engine import *
import engine as E

CR = 'serum_dex::'


class Dex:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    # ------------------------------------------------------------------ types
    def type_by_path(self, suffix):
        for t in self.prog.types:
            p = t.get('path')
            if p and (p == suffix or p.endswith('::' + suffix)) and t['k'] in ('struct', 'enum'):
                return t
        raise Missing('type ' + suffix)

    def tid(self, suffix):
        for i, t in enumerate(self.prog.types):
            p = t.get('path')
            if p and (p == suffix or p.endswith('::' + suffix)) and t['k'] in ('struct', 'enum'):
                return i
        raise Missing('type ' + suffix)

    def variant(self, suffix, name):
        t = self.type_by_path(suffix)
        for i, v in enumerate(t['v']):
            if v['n'] == name:
                return i, v
        raise Missing('variant %s::%s' % (suffix, name))

    def enum_val(self, suffix, name, fields=()):
        t = self.type_by_path(suffix)
        i, v = self.variant(suffix, name)
        return agg(('adt', t['path'], i, name), fields)

    def fn(self, suffix, required=True):
        fs = [f for f in self.prog.find(suffix) if not f.generic]
        if not fs:
            if required:
                raise Missing('function ' + suffix)
            return None
        return fs[0]

    # ------------------------------------------------------------------ engine
    def engine(self, slab=True, queue=True, fees=True):
        e = Engine(self.prog)
        e.volatile = {'node', 'slot'}
        e.split_term = lambda f: (f.op == 'discr' and f.a[0].op == 'arg' and e.discr_ty.get(f) == CR + 'matching::Side') or f.op == 'init' and f.a[0].op == 'fld' and f.a[0].a[2] == 'account_flags' and f.a[0].a[0].op == 'view' and f.a[0].a[0].a[2].endswith('OpenOrders') and not e.is_volatile(f.a[0].a[0])
        e.ignore_types.add(CR + 'fees::FeeTier')
        if slab:
            self.slab_boundary(e)
        if queue:
            self.queue_boundary(e)
        if fees:
            self.fee_boundary(e)
        return e

    def bpaths(self, *suffixes):
        """every callee path of the dump ending with one of the suffixes"""
        return [CR + s for s in suffixes]

    def pure(self, e, *paths):
        def h(eng, c, st):
            return [(st, mk('call', c.callee['path'].split('::')[-1], *[eng.deepval(st, a) for a in c.args]))]
        for p in paths:
            e.boundary[p] = h

    def fee_boundary(self, e):
        self.pure(e, CR + 'fees::FeeTier::taker_fee', CR + 'fees::FeeTier::maker_rebate',
                  CR + 'fees::FeeTier::remove_taker_fee', CR + 'fees::referrer_rebate',
                  CR + 'fees::FeeTier::from_srm_and_msrm_balances')

        def tfp(eng, c, st):
            x = c.args[0]
            ok = mk('isfeetier', x)
            s2 = st.copy()
            out = []
            if eng.assume(s2, ok, 1):
                out.append((s2, eng.result_ok(mk('feetier', x))))
            if eng.assume(st, ok, 0):
                out.append((st, eng.result_err(mk('nofeetier', x))))
            return out

        def into(eng, c, st):
            v = c.args[0]
            if v.op == 'feetier':
                return [(st, v.a[0])]
            if v.op == 'agg':
                return None
            return [(st, mk('feecode', v))]
        e.boundary[CR + '<fees::FeeTier as num_enum::TryFromPrimitive>::try_from_primitive'] = tfp
        e.boundary[CR + '<fees::FeeTier as core::convert::TryFrom<u8>>::try_from'] = tfp
        e.boundary[CR + 'fees::<impl core::convert::From<fees::FeeTier> for u8>::from'] = into

    def slab_boundary(self, e):
        leaf_t = self.tid('critbit::LeafNode')
        lt = self.prog.types[leaf_t]
        names = [f[0] for f in lt['v'][0]['f']]
        ki = names.index('key')

        def slab_of(p):
            return deref_loc(p)

        def ver(st, slab):
            n = 0
            last = None
            for x in st.log:
                if x.op == 'loop':
                    last = x
                    n = 0
                elif x.op in ('insert', 'remove') and x.a[0] is slab:
                    n += 1
            return mk('ver', n, last if last is not None else 0)

        def leaf(tag, slab, key, v):
            base = mk('leaf', tag, slab, key, v)
            fs = [key if j == ki and key is not None else mk('prj', base, ('f', j, nm, 0)) for j, nm in enumerate(names)]
            return agg(('adt', lt['path'], 0, lt['v'][0]['n']), fs)

        def new(eng, c, st):
            b, s, n = eng.to_slice(st, c.args[0])
            return [(st, mk('ptr', mk('slab', b)))]

        def find(kind):
            def h(eng, c, st):
                s = slab_of(c.args[0])
                v = ver(st, s)
                best = mk('best', kind, s, v)
                d = mk('isempty', s, v)
                s2 = st.copy()
                out = []
                if eng.assume(s2, d, 1):
                    out.append((s2, eng.none()))
                if eng.assume(st, d, 0):
                    out.append((st, eng.some(best)))
                return out
            return h

        def get(eng, c, st):
            s = slab_of(c.args[0])
            h = c.args[1]
            if h.op == 'best':
                return [(st, eng.some(mk('ptr', mk('node', s, h))))]
            return [(st.copy(), eng.none()), (st, eng.some(mk('ptr', mk('node', s, h))))]

        def as_leaf(eng, c, st):
            l = deref_loc(c.args[0])
            if l.op == 'node':
                if l.a[1].op == 'best':
                    return [(st, eng.some(c.args[0]))]
                return [(st.copy(), eng.none()), (st, eng.some(c.args[0]))]
            return None

        def insert(eng, c, st):
            s = slab_of(c.args[0])
            v = eng.read(st, deref_loc(c.args[1]))
            s2 = st.copy()
            st.log = st.log + (mk('insert', s, v),)
            t = eng.prog.types[c.dty]
            et = eng.prog.types[t['args'][1]] if t.get('args') else None
            err = mk('slaberr', s, ver(s2, s))
            if et is not None and et['k'] == 'enum':
                err = agg(('adt', et['path'], 0, et['v'][0]['n']), [mk('prj', err, ('f', 0, '0', 0))] * len(et['v'][0]['f']))
                if len(et['v']) > 1:
                    outs = []
                    for i, vv in enumerate(et['v']):
                        s3 = s2.copy()
                        s3.log = s3.log + (mk('insertfail', s, vv['n']),)
                        outs.append((s3, eng.result_err(agg(('adt', et['path'], i, vv['n']), [mk('slaberr', s, j) for j in range(len(vv['f']))]))))
                    return [(st, eng.result_ok(mk('inserted', s)))] + outs
            s2.log = s2.log + (mk('insertfail', s, et['v'][0]['n'] if et is not None and et['k'] == 'enum' else '?'),)
            return [(st, eng.result_ok(mk('inserted', s))), (s2, eng.result_err(err))]

        def remove(eng, c, st):
            s = slab_of(c.args[0])
            key = c.args[1]
            v = ver(st, s)
            s2 = st.copy()
            # removing by the key of a node reached through a live handle: same leaf
            lf = leaf('key', s, key, v)
            for r, val in st.mem.items():
                if r.op == 'node' and r.a[0] is s and eng.read(st, childloc(r, ('f', ki, 'key', 0))) is key:
                    lf = val
            if key.op == 'init' and key.a[0].op == 'fld' and key.a[0].a[0].op == 'node':
                lf = eng.read(st, key.a[0].a[0])
                st.log = st.log + (mk('remove', s, key, lf),)
                return [(st, eng.some(lf))]
            st.log = st.log + (mk('remove', s, key, lf),)
            return [(st, eng.some(lf)), (s2, eng.none())]

        def remove_end(kind):
            def h(eng, c, st):
                s = slab_of(c.args[0])
                v = ver(st, s)
                lf = leaf(kind, s, None, v)
                s2 = st.copy()
                st.log = st.log + (mk('remove', s, mk(kind), lf),)
                return [(st, eng.some(lf)), (s2, eng.none())]
            return h

        def find_by(eng, c, st):
            s = slab_of(c.args[0])
            l = mk('node', s, mk('any', c.site(st)))
            preds = []
            for s2, r in eng.call_value(c, st.copy(), c.args[2], [mk('ptr', l)], tupled=False):
                preds.append(r)
            lim = deref_loc(c.args[1])
            eng.write(st, lim, mk('findlimit', eng.read(st, lim), c.site(st)))
            st.log = st.log + (mk('find_by', s, mk('preds', *preds), l),)
            x = mk('found', s, c.site(st))
            return [(st, x)]
        B = e.boundary
        B[CR + 'critbit::Slab::new'] = new
        B[CR + 'critbit::Slab::find_min'] = find('min')
        B[CR + 'critbit::Slab::find_max'] = find('max')
        B[CR + 'critbit::Slab::insert_leaf'] = insert
        B[CR + 'critbit::Slab::remove_by_key'] = remove
        B[CR + 'critbit::Slab::remove_min'] = remove_end('min')
        B[CR + 'critbit::Slab::remove_max'] = remove_end('max')
        B[CR + 'critbit::Slab::find_by'] = find_by
        for m in ('get', 'get_mut'):
            B[CR + '<critbit::Slab as critbit::SlabView<critbit::AnyNode>>::' + m] = get
        B[CR + 'critbit::AnyNode::as_leaf'] = as_leaf
        B[CR + 'critbit::AnyNode::as_leaf_mut'] = as_leaf

    def queue_boundary(self, e):
        def qbase(eng, st, p):
            h = eng.read(st, mk('fld', deref_loc(p), 0, 'header', 0))
            return deref_loc(h)

        def ver(st, q):
            n = 0
            last = 0
            for x in st.log:
                if x.op == 'loop':
                    last, n = x, 0
                elif x.op == 'pop' and x.a[0] is q:
                    n += 1
            return mk('ver', n, last)

        def push(eng, c, st):
            q = qbase(eng, st, c.args[0])
            s2 = st.copy()
            st.log = st.log + (mk('push', q, c.args[1]),)
            return [(st, eng.result_ok(UNIT)), (s2, eng.result_err(c.args[1]))]

        def pop(eng, c, st):
            q = qbase(eng, st, c.args[0])
            s2 = st.copy()
            v = ver(st, q)
            st.log = st.log + (mk('pop', q),)
            return [(st, eng.result_ok(mk('init', mk('slot', q, v)))), (s2, eng.result_err(UNIT))]

        def peek(eng, c, st):
            q = qbase(eng, st, c.args[0])
            return [(st.copy(), eng.none()), (st, eng.some(mk('ptr', mk('slot', q, ver(st, q)))))]
        B = e.boundary
        B[CR + "state::Queue::<'a, H>::push_back"] = push
        B[CR + "state::Queue::<'a, H>::pop_front"] = pop
        B[CR + "state::Queue::<'a, H>::peek_front"] = peek
        B[CR + "state::Queue::<'a, H>::peek_front_mut"] = peek

    def match_boundary(self, e):
        """handler-level summary of the matching engine; what it may change is decided by the matching unit"""
        f = self.match_fn()
        pr = self.type_by_path('matching::RequestProceeds')
        pn = [x[0] for x in pr['v'][0]['f']]

        def h(eng, c, st):
            ob, req, q, proc, lim = [deref_loc(a) for a in c.args]
            ms = deref_loc(eng.read(st, mk('fld', ob, *self.field('matching::OrderBookState', 'market_state'), 0)))
            bids = deref_loc(eng.read(st, mk('fld', ob, *self.field('matching::OrderBookState', 'bids'), 0)))
            asks = deref_loc(eng.read(st, mk('fld', ob, *self.field('matching::OrderBookState', 'asks'), 0)))
            hq = deref_loc(eng.read(st, mk('fld', q, *self.field('state::Queue', 'header'), 0)))
            rv = eng.read(st, req)
            n = sum(1 for x in st.log if x.op == 'match')
            st.log = st.log + (mk('match', rv, bids, asks, ms, hq, eng.read(st, lim)),)
            s2 = st.copy()
            for i, nm in enumerate(pn):
                l = mk('fld', proc, i, nm, 0)
                eng.write(st, l, add(eng.read(st, l), mk('proc', nm, n)))
            for nm in ('pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued'):
                i, _ = self.field('state::MarketState', nm)
                l = mk('fld', ms, i, nm, 0)
                eng.write(st, l, add(eng.read(st, l), mk('mdelta', nm, n)))
            eng.write(st, lim, mk('proc', 'limit', n))
            rem = mk('remaining', n)
            return [(st, eng.result_ok(rem)), (s2, eng.result_err(mk('matcherr')))]
        e.boundary[f.path] = h

    def field(self, suffix, name):
        t = self.type_by_path(suffix)
        for i, f in enumerate(t['v'][0]['f']):
            if f[0] == name:
                return i, name
        raise Missing('field %s.%s' % (suffix, name))

    # ------------------------------------------------------------------ runs
    def run_variant(self, name, e=None, payload=None, pre=None, match=True):
        """summaries of State::process for one MarketInstruction variant"""
        e = e or self.engine()
        vi, v = self.variant('instruction::MarketInstruction', name)
        mi = self.type_by_path('instruction::MarketInstruction')

        def unpack(eng, c, st):
            pay = []
            for j, f in enumerate(v['f']):
                pay.append(payload[j] if payload else self.symbolic(f[1], 'ix'))
            val = agg(('adt', mi['path'], vi, name), pay)
            rt = eng.prog.types[c.dty]
            if rt.get('path', '').endswith('Option'):
                return [(st, eng.some(val))]
            return [(st, eng.result_ok(val))]
        e.boundary[CR + 'instruction::MarketInstruction::unpack'] = unpack
        if match:
            self.match_boundary(e)
        f = self.fn('state::State::process')
        st = State()
        if pre:
            pre(e, st)
        args = [mk('arg', 'program_id'), mk('arg', 'accounts'), mk('arg', 'data')]
        outs = e.call_fn(f, args, st, mk('frame0', name))
        return e, outs

    # ------------------------------------------------------------------ matching unit
    def match_fn(self):
        return self.fn('matching::OrderBookState::<\'ob>::process_orderbook_request')

    def view_loc(self, name, tpath):
        t = self.type_by_path(tpath)
        return mk('view', mk('deref', mk('arg', name)), I(5), t['s'], t['size'])

    def run_match(self, side, order_type, e=None, send_take=False, stb=None):
        """transitions of the matching loop for one side/order type.
        returns engine, list of (state, log suffix, kind, ret), entry info"""
        e = e or self.engine()
        e.max_parts = 4000
        e.nomerge = lambda st, fr: True
        f = self.match_fn()
        st = State()
        mloc = self.view_loc('market', 'state::MarketState')
        qloc = self.view_loc('event_q', 'state::EventQueueHeader')
        bids = mk('slab', mk('deref', mk('arg', 'bids')))
        asks = mk('slab', mk('deref', mk('arg', 'asks')))
        ob = self.struct_val('matching::OrderBookState', {'bids': mk('ptr', bids), 'asks': mk('ptr', asks), 'market_state': mk('ptr', mloc)})
        L = lambda n: mk('L', mk('frame0', 'unit'), n)
        st.mem[L('ob')] = ob
        rv = self.type_by_path('state::RequestView')
        vi, v = self.variant('state::RequestView', 'NewOrder')
        fs = []
        for fl in v['f']:
            n = fl[0]
            if n == 'side':
                fs.append(self.enum_val('matching::Side', side))
            elif n == 'order_type':
                fs.append(self.enum_val('matching::OrderType', order_type))
            elif n == 'native_pc_qty_locked':
                fs.append(e.some(mk('arg', 'pc_locked')) if side == 'Bid' else e.none())
            elif n == 'self_trade_behavior' and stb:
                fs.append(self.enum_val('instruction::SelfTradeBehavior', stb))
            elif n == 'client_order_id':
                fs.append(mk('arg', 'client_order_id'))
            elif n == 'owner':
                fs.append(agg(('array',), [ZERO] * 4) if send_take else mk('arg', 'owner'))
            else:
                fs.append(mk('arg', n))
        st.mem[L('req')] = agg(('adt', rv['path'], vi, 'NewOrder'), fs)
        st.mem[L('q')] = self.struct_val('state::Queue', {'header': mk('ptr', qloc), 'buf': mk('slice', mk('deref', mk('arg', 'qbuf')), ZERO, mk('arg', 'qcap'))})
        pr = self.type_by_path('matching::RequestProceeds')
        pnames = [x[0] for x in pr['v'][0]['f']]
        st.mem[L('proc')] = agg(('adt', pr['path'], 0, pr['v'][0]['n']), [mk('arg', 'p.' + n) for n in pnames])
        st.mem[L('limit')] = mk('arg', 'limit')
        trs = []
        entry = st.copy()

        def hook(fr, bb, s, suf, mark):
            trs.append((s.copy(), suf, mark, fr))
        e.loop_hook = hook
        outs = e.call_fn(f, [mk('ptr', L('ob')), mk('ptr', L('req')), mk('ptr', L('q')), mk('ptr', L('proc')), mk('ptr', L('limit'))], st, mk('frame0', 'match'))
        return e, outs, trs, {'L': L, 'm': mloc, 'q': qloc, 'bids': bids, 'asks': asks, 'pnames': pnames, 'entry': entry}

    def struct_val(self, suffix, fields):
        t = self.type_by_path(suffix)
        return agg(('adt', t['path'], 0, t['v'][0]['n']), [fields.get(f[0], mk('arg', f[0])) for f in t['v'][0]['f']])

    def symbolic(self, tid, name):
        t = self.prog.types[tid]
        if t['k'] == 'struct' and t.get('local') and len(t['v'][0]['f']) > 0 and t['path'] not in ():
            return agg(('adt', t['path'], 0, t['v'][0]['n']), [self.symbolic(f[1], name + '.' + f[0]) for f in t['v'][0]['f']])
        return mk('arg', name)


class Missing(Exception):
    pass


def is_err(r):
    return r.op == 'agg' and r.a[0][0] == 'adt' and r.a[0][3] == 'Err'


def ok_exits(outs):
    return [(s, r) for s, r in outs if not is_err(r)]
