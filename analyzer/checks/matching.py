"""C07 conservation, C08 order instructions, C09 price-time priority, C10 fees booked, C11 events: the matching unit."""
from spec import *
from access import units, hexit, flag_values, seeded

FILL, OUT, BID, MAKER, REL = 1, 2, 4, 8, 16
COMBOS = [(s, t) for s in ('Bid', 'Ask') for t in ('Limit', 'ImmediateOrCancel', 'PostOnly')]


def sysid():
    return mk('init', mk('deref', mk('arg', 'static:solana_program::system_program::ID')))


def fee(name, *a):
    return mk('call', name, *a)


class Step:
    """one transition of the matching loop (an iteration or the path from the last loop head to a successful return)"""

    def __init__(self, mu, st, suf, ret):
        self.mu = mu
        self.x = View(mu.e, st, ret)
        self.st = st
        self.ret = ret
        d = mu.dex
        i = mu.info
        pre = st.pre
        self.pre = View(mu.e, pre) if pre is not None else View(mu.e, mu.entry)
        L = i['L']
        rd = lambda v, loc: v.e.read(v.st, loc)
        self.P0, self.P1 = {}, {}
        for n in i['pnames']:
            l = mk('fld', L('proc'), i['pnames'].index(n), n, 0)
            self.P0[n], self.P1[n] = rd(self.pre, l), rd(self.x, l)
        self.lim0, self.lim1 = rd(self.pre, L('limit')), rd(self.x, L('limit'))
        self.M0, self.M1 = {}, {}
        t = d.type_by_path('state::MarketState')
        for j, f in enumerate(t['v'][0]['f']):
            l = mk('fld', i['m'], j, f[0], 0)
            self.M0[f[0]], self.M1[f[0]] = rd(self.pre, l), rd(self.x, l)
        suf = [l for l in suf if l.op != 'loop']
        self.suf = suf
        et = d.type_by_path('state::Event')
        en = [f[0] for f in et['v'][0]['f']]
        self.pushes = []
        self.weird = []
        lt = d.type_by_path('critbit::LeafNode')
        self.ln = [f[0] for f in lt['v'][0]['f']]
        self.ins, self.rem, self.fails = [], [], []
        for l in suf:
            if l.op == 'push':
                v = l.a[1]
                if l.a[0] is i['q'] and v.op == 'agg' and len(v.a[1]) == len(en):
                    self.pushes.append(dict(zip(en, v.a[1])))
                else:
                    self.weird.append(l)
            elif l.op == 'insert':
                self.ins.append((l.a[0], self.leaf(l.a[1])))
            elif l.op == 'remove':
                self.rem.append((l.a[0], l.a[1], self.leaf(l.a[2])))
            elif l.op == 'insertfail':
                self.fails.append(l)
            else:
                self.weird.append(l)
        self.opp = i['asks'] if mu.side == 'Bid' else i['bids']
        self.own = i['bids'] if mu.side == 'Bid' else i['asks']
        # resting orders whose contents changed
        self.nodes = []
        for r in st.mem:
            if r.op == 'node':
                ch = {}
                for j, n in enumerate(self.ln):
                    loc = mk('fld', r, j, n, 0)
                    v = rd(self.x, loc)
                    if v is not mk('init', loc):
                        ch[n] = v
                if ch:
                    self.nodes.append((r, ch))
        # slabs or structs written directly
        self.q0 = self.q1 = self.l0 = self.l1 = None

    def leaf(self, v):
        if v.op == 'agg':
            return dict(zip(self.ln, v.a[1]))
        out = {}
        for j, n in enumerate(self.ln):
            out[n] = project(v, ('f', j, n, 0))
        return out

    def nfield(self, node, n):
        return mk('init', mk('fld', node, self.ln.index(n), n, 0))

    def d(self, n):
        return sub(self.P1[n], self.P0[n])

    def dm(self, n):
        return sub(self.M1[n], self.M0[n])


class MatchUnit:
    def __init__(self, dex, side, ot):
        self.dex, self.side, self.ot = dex, side, ot
        self.e, self.outs, trs, self.info = dex.run_match(side, ot)
        self.entry = self.info['entry']
        self.iters = [Step(self, s, suf, None) for s, suf, mark, fr in trs]
        self.marks = [m for _, _, m, _ in trs]
        self.exits = []
        for s, r in ok_exits(self.outs):
            suf = s.log
            for i in range(len(suf) - 1, -1, -1):
                if suf[i].op == 'loop':
                    suf = suf[i + 1:]
                    break
            self.exits.append(Step(self, s, suf, r))
        self.track()

    # the loop variable that starts as the given argument
    def candidates(self, arg):
        res = {}
        inits = [s for m, s in self.e.head_init.items()]
        for ini in inits:
            for root, v in ini.mem.items():
                for path, w in leaves(v):
                    if w is arg:
                        res.setdefault((root, path), True)
        return list(res)

    def track(self):
        for nm, arg, a0, a1 in (('q', mk('arg', 'max_coin_qty'), 'q0', 'q1'), ('l', mk('arg', 'pc_locked'), 'l0', 'l1')):
            if nm == 'l' and self.side != 'Bid':
                continue
            cand = []
            for root, path in self.candidates(arg):
                vals = set()
                for s in self.iters + self.exits:
                    v = at(s.pre.st.mem.get(root), path)
                    vals.add(v)
                if vals - {arg, None}:
                    cand.append((root, path))
            uniq = []
            seen = set()
            for root, path in cand:
                k = tuple(at(s.pre.st.mem.get(root), path) for s in self.iters + self.exits) + tuple(at(s.st.mem.get(root), path) for s in self.iters)
                if k not in seen:
                    seen.add(k)
                    uniq.append((root, path))
            if len(uniq) > 1:
                # copies of an older value: keep the one every iteration updates
                full = [c for c in uniq if any(at(s.st.mem.get(c[0]), c[1]) is not at(s.pre.st.mem.get(c[0]), c[1]) for s in self.iters)]
                uniq = full or uniq
            if len(uniq) > 1:
                raise Unsupported('several loop variables start as ' + show(arg))
            if not uniq and self.iters:
                raise Unsupported('no loop variable carries ' + show(arg))
            for s in self.iters + self.exits:
                if uniq and s.st.pre is not None:
                    root, path = uniq[0]
                    setattr(s, a0, at(s.pre.st.mem.get(root), path))
                    if s.ret is None:
                        setattr(s, a1, at(s.st.mem.get(root), path))
                else:
                    setattr(s, a0, arg)
                if s.ret is not None:
                    setattr(s, a1, ZERO)
                if getattr(s, a0) is None or getattr(s, a1) is None:
                    raise Unsupported('loop variable %s lost' % nm)
        # a successful return that hands back a remainder
        rv = [f[0] for f in self.dex.variant('state::RequestView', 'NewOrder')[1]['f']]
        for s in self.exits:
            r = s.ret
            o = r.a[1][0] if r.op == 'agg' and r.a[0][3] == 'Ok' else None
            if o is None or o.op != 'agg':
                raise Unsupported('return value ' + show(r)[:80])
            s.remainder = None
            if o.a[0][3] == 'Some':
                f = dict(zip(rv, o.a[1][0].a[1]))
                s.remainder = f
                s.q1 = f['max_coin_qty']
                lk = f['native_pc_qty_locked']
                if self.side == 'Bid':
                    s.l1 = lk.a[1][0] if lk.op == 'agg' and lk.a[0][3] == 'Some' else ZERO


def leaves(v, path=(), d=0):
    yield path, v
    if v.op == 'agg' and d < 4:
        for i, w in enumerate(v.a[1]):
            yield from leaves(w, path + (i,), d + 1)


def at(v, path):
    for p in path:
        if v is None or v.op != 'agg' or p >= len(v.a[1]):
            return None
        v = v.a[1][p]
    return v


def match_units(sp):
    for side, ot in COMBOS:
        key = ('match', side, ot)
        mu = sp.dex.cache.get(key)
        if mu is None:
            mu = sp.dex.cache[key] = MatchUnit(sp.dex, side, ot)
        sp.count('matching %s %s' % (side, ot), functions=len(mu.e.stats['fns']), blocks=mu.e.stats['blocks'], iterations=len(mu.iters), ok_exits=len(mu.exits))
        yield mu


class Tagged:
    def __init__(self, sp):
        self.sp = sp

    def __call__(self, props, rule, w, cond, detail=''):
        if self.sp.pid in props.split():
            return self.sp.oblige(rule, w, bool(cond), detail)
        return bool(cond)


def matching(sp):
    O = Tagged(sp)
    seen = {'fill': 0, 'selftrade': 0, 'posted': 0, 'evict': 0, 'idle': 0, 'sendtake': 0}
    for mu in match_units(sp):
        for n, s in enumerate(mu.iters + mu.exits):
            if s.x.infeasible():
                continue
            w = 'match %s %s %s %d' % (mu.side, mu.ot, 'iteration' if s.ret is None else 'exit', n if s.ret is None else n - len(mu.iters))
            step(O, mu, s, w, seen)
    for k, n in seen.items():
        sp.floor('matching steps: ' + k, n, 2)


def is_max(x, t, parts):
    e = parts[0]
    for p in parts[1:]:
        e = mk('min', e, p)
    return x.eqv(t, e)


def step(O, mu, s, w, seen):
    x = s.x
    bid = mu.side == 'Bid'
    coin, pcl = s.M0['coin_lot_size'], s.M0['pc_lot_size']
    oid = mk('arg', 'order_id')
    LIM = mk('trunc', mk('shr', oid, I(64)), 64)
    owner, tier = mk('arg', 'owner'), mk('arg', 'fee_tier')
    cidarg = mk('arg', 'client_order_id')
    cid = None
    for f in x.st.facts:
        if f.op == 'discr' and f.a[0] is cidarg:
            c = x.e.lookup(x.st, f)
            cid = ZERO if c == 0 else project(cidarg, ('f', 0, '0', 1)) if c == 1 else None
    stk = x.e.lookup(x.st, x.e.cmp_eq(x.st, owner, sysid()))
    S = lambda v: sh(v, 300)
    all3 = 'C07 C08 C09 C10 C11'
    O('C11 C07', 'M0 only known effects', w, not s.weird, lambda: [S(l) for l in s.weird][:3])
    for p in s.pushes:
        if not is_int(p['event_flags']):
            O(all3, 'M0 event flags concrete', w, False, lambda: S(p['event_flags']))
            return
    q0, q1 = s.q0, s.q1
    l0, l1 = s.l0, s.l1
    opp_rem = [r for r in s.rem if r[0] is s.opp]
    own_rem = [r for r in s.rem if r[0] is s.own]
    O('C09 C07', 'M1 orders are inserted only on their own side', w, all(i[0] is s.own for i in s.ins), lambda: [S(i[0]) for i in s.ins])
    O('C07 C09', 'M1 at most one order is posted', w, len(s.ins) <= 1)
    fills = [p for p in s.pushes if p['event_flags'].a[0] & FILL and p['event_flags'].a[0] & MAKER]
    tfills = [p for p in s.pushes if p['event_flags'].a[0] & FILL and not p['event_flags'].a[0] & MAKER]
    mouts = [p for p in s.pushes if p['event_flags'].a[0] & OUT and p['event_flags'].a[0] & REL]
    touts = [p for p in s.pushes if p['event_flags'].a[0] & OUT and not p['event_flags'].a[0] & REL]
    O('C11', 'M1 every event is a fill or an out', w, len(fills) + len(tfills) + len(mouts) + len(touts) == len(s.pushes))
    mside = 0 if bid else BID
    tside = BID if bid else 0

    # ---- the resting order that was touched
    nodes = {r for r, _ in s.nodes}
    for r in opp_rem:
        k = r[1]
        if k.op == 'init' and k.a[0].op == 'fld' and k.a[0].a[0].op == 'node':
            nodes.add(k.a[0].a[0])
        else:
            O('C09 C07', 'M2 opposite removals name the best order', w, False, lambda: S(k))
            return
    kind = 'min' if bid else 'max'
    best = [h for h in [n.a[1] for n in nodes] if h.op == 'best']
    O('C09', 'M2 only the best opposite order is touched', w, all(n.a[0] is s.opp and n.a[1].op == 'best' and n.a[1].a[0] == kind and n.a[1].a[1] is s.opp and n.a[1].a[2].a[0] == 0 for n in nodes), lambda: [S(n) for n in nodes])
    O('C09 C07', 'M2 one resting order per step', w, len(nodes) <= 1)
    if len(nodes) > 1:
        return
    N = next(iter(nodes)) if nodes else None
    t = ZERO
    P = ZERO
    filled = bool(fills)
    selftrade = False
    if N is None:
        O('C11', 'M3 no maker event without a change', w, not fills and not [p for p in mouts if not evicted(x, s, p)], lambda: 'fill/out event for an untouched order')
        if fills:
            return
    else:
        F = lambda n: s.nfield(N, n)
        ch = dict(s.nodes).get(N, {}) if s.nodes else {}
        O('C07 C11', 'M3 only the quantity of a resting order changes', w, set(ch) <= {'quantity'}, lambda: sorted(ch))
        px = mk('trunc', mk('shr', F('key'), I(64)), 64)
        qn = ch.get('quantity', F('quantity'))
        removed = bool(opp_rem)
        ident(O, w, x, s, fills + [p for p in mouts if not evicted(x, s, p)], F, mside, S)
        O('C11 C07', 'M3 the touched order gets exactly one announcement', w, (len(fills) == 1) or (len(fills) == 0 and len([p for p in mouts if not evicted(x, s, p)]) == 1), lambda: '%d fills, %d outs' % (len(fills), len(mouts)))
        own_eq = x.e.lookup(x.st, x.e.cmp_eq(x.st, owner, F('owner')))
        crossed = (x.lt(LIM, px) if bid else x.lt(px, LIM)) is False or (bid and x.is0(LIM))
        O('C08', 'M4 a resting order is only touched when prices cross', w, crossed, 'the limit price is not compared with the resting price')
        O('C08', 'M4 post-only orders never take', w, mu.ot != 'PostOnly')
        O('C08 C25', 'M4 matching stops at the limit', w, x.nz(s.lim0), 'work limit not checked')
        parts = [q0, F('quantity')]
        if bid:
            parts.append(mk('div', mk('div', fee('remove_taker_fee', tier, l0), pcl), px))
        if fills:
            seen['fill'] += 1
            t = sub(F('quantity'), qn)
            P = mul(mul(t, px), pcl)
            O('C08', 'M5 never trades with the same owner', w, own_eq == 0, 'self-trade not excluded')
            O('C08 C07', 'M5 trades the most both orders and the budget allow, and no more', w, is_max(x, t, parts), lambda: 'traded %s' % S(t))
            reb = fee('maker_rebate', mk('feetier', F('fee_tier')), P)
            f = fills[0]
            rec, paid = (add(P, reb), mul(t, coin)) if bid else (mul(t, coin), sub(P, reb))
            O('C07 C10', 'M6 maker receives', w, x.eqv(f['native_qty_released'], rec), lambda: '%s, expected %s' % (S(f['native_qty_released']), S(rec)))
            O('C07 C10', 'M6 maker pays', w, x.eqv(f['native_qty_paid'], paid), lambda: '%s, expected %s' % (S(f['native_qty_paid']), S(paid)))
            O('C10', 'M6 maker rebate', w, x.eqv(f['native_fee_or_rebate'], reb), lambda: '%s' % S(f['native_fee_or_rebate']))
            O('C11', 'M6 maker fee tier', w, x.eqv(f['fee_tier'], F('fee_tier')), lambda: S(f['fee_tier']))
            z = x.is0(x.norm(qn))
            O('C11 C07', 'M7 a resting order leaves the book exactly when nothing is left', w, (z if removed else x.nz(qn) or x.nz(x.norm(qn))), lambda: 'quantity left %s, removed %s' % (S(qn), removed))
            outs = [p for p in mouts if not evicted(x, s, p)]
            O('C11', 'M7 exactly one out event when it leaves', w, len(outs) == (1 if removed else 0))
            for p in outs:
                O('C11 C07', 'M7 nothing left to release', w, x.eqv(p['native_qty_released'], ZERO) and x.eqv(p['native_qty_paid'], ZERO), lambda: S(p['native_qty_released']))
        else:
            selftrade = True
            seen['selftrade'] += 1
            O('C08', 'M8 self-trade handling only for the same owner', w, own_eq == 1, 'an order of someone else is cancelled')
            b = x.e.lookup(x.st, mk('discr', mk('arg', 'self_trade_behavior')))
            O('C08', 'M8 self-trade behaviour is the requested one', w, b in (0, 1), lambda: 'behaviour %s' % b)
            ct_exp = None
            if b == 0:
                e = parts[0]
                for p in parts[1:]:
                    e = mk('min', e, p)
                cprov, ctake = e, e
            else:
                cprov, ctake = F('quantity'), ZERO
            left = sub(F('quantity'), cprov)
            if removed:
                O('C08 C07', 'M8 the whole resting order is cancelled', w, x.eqv(left, ZERO), lambda: S(left))
            else:
                O('C08 C07', 'M8 the resting order keeps the rest', w, x.eqv(qn, left) and (x.nz(left) or x.nz(x.norm(qn))), lambda: S(qn))
            unit = coin if bid else mul(px, pcl)
            for p in mouts:
                if evicted(x, s, p):
                    continue
                O('C07 C11', 'M8 cancelled quantity is released to the resting side', w, x.eqv(p['native_qty_released'], mul(cprov, unit)), lambda: S(p['native_qty_released']))
                O('C11', 'M8 still locked', w, x.eqv(p['native_qty_paid'], mul(left, unit)), lambda: S(p['native_qty_paid']))
            s.ctake = ctake
            s.px = px
    # ---- opposite book untouched: it must not have been matchable
    if N is None:
        seen['idle'] += 1
        O('C08', 'M9 a crossing order is matched', w, idle_ok(x, s, mu, bid, LIM, q0, l0, pcl, tier), 'an order that could trade was not matched')
    # ---- taker accounting
    fe = fee('taker_fee', tier, P)
    if not selftrade:
        if bid:
            O('C07', 'M10 taker coin credit', w, x.eqv(s.d('coin_credit'), t), lambda: S(s.d('coin_credit')))
            O('C07 C10', 'M10 taker pays price and fee', w, x.eqv(s.d('native_pc_debit'), add(P, fe)), lambda: S(s.d('native_pc_debit')))
            O('C07', 'M10 untouched', w, all(x.eqv(s.d(k), ZERO) for k in ('coin_unlocked', 'native_pc_credit', 'coin_debit')))
        else:
            O('C07', 'M10 taker coin debit', w, x.eqv(s.d('coin_debit'), t), lambda: S(s.d('coin_debit')))
            O('C07 C10', 'M10 taker receives price less fee', w, x.eqv(s.d('native_pc_credit'), sub(P, fe)), lambda: S(s.d('native_pc_credit')))
            O('C07', 'M10 untouched', w, all(x.eqv(s.d(k), ZERO) for k in ('native_pc_unlocked', 'coin_credit', 'native_pc_debit')))
    else:
        ks = ('coin_credit', 'native_pc_credit', 'coin_debit', 'native_pc_debit') + (('coin_unlocked',) if bid else ('native_pc_unlocked',))
        O('C07', 'M10 a cancelled self-trade credits and debits nobody', w, all(x.eqv(s.d(k), ZERO) for k in ks))
    # ---- market totals
    reb = fee('maker_rebate', mk('feetier', s.nfield(N, 'fee_tier')), P) if filled else ZERO
    ref = fee('referrer_rebate', fe)
    if selftrade or not filled:
        reb = fe = ref = ZERO
    exp = {'referrer_rebates_accrued': ref, 'pc_fees_accrued': sub(sub(fe, reb), ref), 'pc_deposits_total': sub(reb, fe)}
    for k in s.M0:
        e = exp.get(k, ZERO)
        O('C10' if k in exp else 'C10 C07', 'M11 market ' + k, w, x.eqv(s.dm(k), e), lambda: '%s changes by %s, expected %s' % (k, S(s.dm(k)), S(e)))
    # ---- taker fill event
    if not filled:
        O('C11', 'M12 no taker fill without a fill', w, not tfills)
    else:
        if tfills:
            O('C11', 'M12 one taker fill', w, len(tfills) == 1)
            O('C11', 'M12 send-take has no taker event', w, stk == 0)
            p = tfills[0]
            O('C11 C07', 'M12 taker event amounts', w, x.eqv(p['native_qty_paid'], add(P, fe) if bid else mul(t, coin)) and x.eqv(p['native_qty_released'], mul(t, coin) if bid else sub(P, fe)) and x.eqv(p['native_fee_or_rebate'], fe), lambda: S(p['native_qty_paid']))
        else:
            O('C11', 'M12 taker fill announced', w, stk == 1 or x.is0(x.norm(P)), 'a fill without a taker event')
        for p in tfills:
            O('C11', 'M12 taker event side', w, p['event_flags'].a[0] == FILL | tside, lambda: p['event_flags'].a[0])
            O('C11', 'M12 taker fee tier', w, p['fee_tier'] is mk('feecode', tier), lambda: S(p['fee_tier']))
    for p in tfills + touts:
        O('C11', 'M12 taker event identity', w, x.eqv(p['order_id'], oid) and x.same(p['owner'], owner) and x.eqv(p['owner_slot'], mk('arg', 'owner_slot')) and (cid is None or x.eqv(p['client_order_id'], cid)), lambda: [S(p[k]) for k in ('order_id', 'owner', 'owner_slot', 'client_order_id')])
    # ---- posting
    posted = ZERO
    kept = ZERO
    if s.ins:
        seen['posted'] += 1
        lf = s.ins[0][1]
        posted = lf['quantity']
        O('C08', 'M13 only orders that may rest are posted', w, mu.ot != 'ImmediateOrCancel')
        O('C08', 'M13 never posts after trading in the same step', w, N is None)
        O('C08', 'M13 a resting order does not cross', w, not_crossed(x, s, bid, LIM), 'posted although the opposite side may be crossed')
        O('C08 C07', 'M13 a posted order is not empty', w, x.nz(posted) or x.nz(x.norm(posted)) or x.nz(mul(posted, LIM)), lambda: S(posted))
        if bid:
            O('C07 C08', 'M13 posts what the budget covers', w, is_max(x, posted, [q0, mk('div', mk('div', l0, pcl), LIM)]), lambda: S(posted))
            kept = mul(mul(posted, LIM), pcl)
        else:
            O('C07 C08', 'M13 posts the whole remainder', w, x.eqv(posted, q0), lambda: S(posted))
        for k, e in (('key', oid), ('owner', owner), ('owner_slot', mk('arg', 'owner_slot')), ('fee_tier', mk('feecode', tier)), ('client_order_id', cid)):
            if e is not None:
                O('C09 C11 C07', 'M13 posted order ' + k, w, x.same(lf[k], e) or x.eqv(lf[k], e), lambda: S(lf[k]))
        O('C08', 'M13 send-take never posts', w, stk in (0, None) or mu.ot != 'ImmediateOrCancel')
    # ---- eviction
    O('C09 C07', 'M14 at most one eviction', w, len(own_rem) <= 1)
    for r in own_rem:
        seen['evict'] += 1
        end = 'min' if bid else 'max'
        O('C09', 'M14 the worst resting order is evicted', w, r[1].op == end and not r[1].a, lambda: S(r[1]))
        O('C09', 'M14 only when the book is full', w, any(f.a[0] is s.own and f.a[1] == 'OutOfSpace' for f in s.fails) and bool(s.ins), 'evicts although the insertion did not fail')
        ev = [p for p in mouts if evicted(x, s, p)]
        O('C11', 'M14 eviction announced', w, len(ev) == 1)
        lf = r[2]
        price = mk('trunc', mk('shr', lf['key'], I(64)), 64)
        amt = mul(lf['quantity'], mul(price, pcl) if bid else coin)
        for p in ev:
            O('C11 C07', 'M14 evicted order fully released', w, x.eqv(p['native_qty_released'], amt) and x.eqv(p['native_qty_paid'], ZERO), lambda: S(p['native_qty_released']))
            O('C11', 'M14 evicted order identity', w, p['event_flags'].a[0] == OUT | REL | tside and x.eqv(p['owner_slot'], lf['owner_slot']) and x.same(p['owner'], lf['owner']) and x.eqv(p['client_order_id'], lf['client_order_id']), lambda: [S(p[k]) for k in ('owner', 'owner_slot', 'client_order_id')])
    # ---- conservation
    if stk == 1:
        seen['sendtake'] += 1
        O('C07', 'M15 send-take releases nothing', w, x.eqv(s.d('coin_unlocked'), ZERO) and x.eqv(s.d('native_pc_unlocked'), ZERO) or selftrade)
        if s.ret is None:
            O('C07', 'M15 quantity carried over', w, x.eqv(q1, sub(q0, add(t, getattr(s, 'ctake', ZERO)))), lambda: S(q1))
    elif bid:
        dU, dD = s.d('native_pc_unlocked'), s.d('native_pc_debit')
        tot = add(add(dU, dD), add(kept, l1))
        O('C07', 'M15 budget conserved', w, x.eqv(tot, l0), lambda: 'locked %s; unlocked %s debited %s kept %s carried %s' % (S(l0), S(dU), S(dD), S(kept), S(l1)))
        if s.ret is None:
            O('C07', 'M15 quantity carried over', w, x.eqv(q1, sub(q0, add(t, getattr(s, 'ctake', ZERO)))), lambda: S(q1))
        if selftrade and s.ret is None:
            O('C07', 'M15 cancelled budget released', w, x.eqv(dU, mul(mul(s.ctake, s.px), pcl)), lambda: S(dU))
    else:
        dU, dD = s.d('coin_unlocked'), s.d('coin_debit')
        tot = add(add(dU, dD), add(posted, q1))
        O('C07', 'M15 quantity conserved', w, x.eqv(tot, q0), lambda: 'offered %s; unlocked %s traded %s posted %s carried %s' % (S(q0), S(dU), S(dD), S(posted), S(q1)))
        if selftrade:
            O('C07', 'M15 only the cancelled quantity is released', w, x.eqv(dU, s.ctake), lambda: S(dU))
    # ---- taker out event
    U = s.d('native_pc_unlocked') if bid else mul(s.d('coin_unlocked'), coin)
    for p in touts:
        O('C11', 'M16 taker out side', w, p['event_flags'].a[0] == OUT | tside, lambda: p['event_flags'].a[0])
        O('C11 C07', 'M16 taker out releases what was unlocked', w, x.eqv(p['native_qty_released'], U), lambda: '%s, unlocked %s' % (S(p['native_qty_released']), S(U)))
        st_ = add(kept, l1) if bid else add(mul(posted, coin), mul(q1, coin))
        O('C11', 'M16 taker out reports what stays locked', w, x.eqv(p['native_qty_paid'], st_), lambda: '%s, expected %s' % (S(p['native_qty_paid']), S(st_)))
    O('C11', 'M16 at most one taker out', w, len(touts) <= 1)
    if s.ret is not None and stk != 1 and s.remainder is None:
        if bid:
            O('C11', 'M16 finished bid announced', w, len(touts) == 1)
        else:
            O('C11', 'M16 finished or posted', w, (len(touts) == 1) != bool(s.ins))
    elif s.ret is None and not selftrade:
        O('C11', 'M16 no out while matching continues', w, not touts)
    elif selftrade and stk != 1:
        O('C11', 'M16 cancelled part announced', w, len(touts) == 1)
    # ---- bounded work
    if s.ret is None:
        O('C08 C25', 'M17 every step consumes the work limit', w, x.nz(s.lim0) and x.eqv(s.lim1, sub(s.lim0, ONE)), lambda: S(s.lim1))
        O('C08', 'M17 carries on only with something left', w, x.nz(q1) or x.nz(x.norm(q1)), lambda: S(q1))
        O('C08 C25', 'M17 carries on only after touching the best order', w, N is not None)
    elif s.remainder is not None:
        O('C07', 'M17 nothing is handed back unmatched', w, False, 'a remainder is returned and would be dropped by the caller')


def evicted(x, s, p):
    return any(r[0] is s.own and x.same(p['order_id'], r[2]['key']) for r in s.rem)


def ident(O, w, x, s, evs, F, mside, S):
    for p in evs:
        fl = p['event_flags'].a[0]
        O('C11', 'M3 maker event flags', w, fl in (FILL | MAKER | mside, OUT | REL | mside), lambda: 'flags %d' % fl)
        O('C11 C07', 'M3 maker event identity', w, x.eqv(p['order_id'], F('key')) and x.same(p['owner'], F('owner')) and x.eqv(p['owner_slot'], F('owner_slot')) and x.eqv(p['client_order_id'], F('client_order_id')), lambda: [S(p[k]) for k in ('order_id', 'owner', 'owner_slot', 'client_order_id')])


def best_of(x, s, bid):
    """terms for the best opposite order consulted in this step"""
    kind = 'min' if bid else 'max'
    out = set()
    for f in x.st.facts:
        for v in walk(f):
            if v.op == 'node' and v.a[0] is s.opp and v.a[1].op == 'best' and v.a[1].a[0] == kind and v.a[1].a[2].a[0] == 0:
                out.add(v)
    return out


def not_crossed(x, s, bid, LIM):
    for f, (k, v) in x.st.facts.items():
        if f.op == 'isempty' and f.a[0] is s.opp and f.a[1].a[0] == 0 and k == 'in' and v == frozenset({1}):
            return True
    for n in best_of(x, s, bid):
        px = mk('trunc', mk('shr', s.nfield(n, 'key'), I(64)), 64)
        if (x.lt(LIM, px) if bid else x.lt(px, LIM)) is True:
            return True
    return False


def idle_ok(x, s, mu, bid, LIM, q0, l0, pcl, tier):
    if mu.ot == 'PostOnly' or x.is0(s.lim0) or not_crossed(x, s, bid, LIM):
        return True
    for n in best_of(x, s, bid):
        px = mk('trunc', mk('shr', s.nfield(n, 'key'), I(64)), 64)
        parts = [q0, s.nfield(n, 'quantity')]
        if bid:
            parts.append(mk('div', mk('div', fee('remove_taker_fee', tier, l0), pcl), px))
        e = parts[0]
        for p in parts[1:]:
            e = mk('min', e, p)
        ne = x.norm(e)
        if ne is ZERO:
            return True
        for f, (k, v) in x.st.facts.items():
            if f.op == 'min' and k == 'in' and v == frozenset({0}):
                y = View(x.e, strip(x.st, f))
                if y.eqv(f, e):
                    return True
    return False


def strip(st, f):
    s = st.copy()
    s.facts = {k: v for k, v in s.facts.items() if k is not f}
    return s


def matching_and_requests(sp):
    import funds
    funds.request_terms(sp)
    matching(sp)


CHECKS = {}
for _p in ('C07', 'C11'):
    CHECKS[_p] = matching
CHECKS['C08'] = matching_and_requests
