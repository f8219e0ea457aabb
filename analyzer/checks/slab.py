"""C22: the order tree.  The node allocator (SlabView insert/remove/get) is summarised over a symbolic header and node
array; the tree operations are summarised over the allocator with loop transitions related by inductive invariants:
every cursor follows the critical bit of the searched key, and each update is the crit-bit update at the reached node."""
from spec import *
from engine import deref_loc, castval, Unsupported
from lin import Lin

SV = '<critbit::Slab as critbit::SlabView<critbit::AnyNode>>::'
ANY, INNER, LEAF, FREE = 'critbit::AnyNode', 'critbit::InnerNode', 'critbit::LeafNode', 'critbit::FreeNode'
T_INNER, T_LEAF, T_FREE, T_LAST = 1, 2, 3, 4
TOP = 1 << 127


def writes(st, skip=()):
    return {l: v for l, v in st.mem.items() if l.op != 'L' and v is not mk('init', l) and l not in skip}


# ---------------------------------------------------------------- the allocator
class Alloc:
    def __init__(self, sp, m, args=()):
        D = self.D = sp.dex
        e = self.e = D.engine(slab=False)
        e.nomerge = lambda st, fr: True
        e.precise_err = True
        slab = mk('heap', mk('slab', 0))
        self.outs = []
        # where the header and the nodes live inside the account bytes, as the program computes it
        (s, r), = self.only(e.call_fn(D.fn('critbit::Slab::header_mut'), [mk('ptr', slab)], State(), mk('frame0', 'h')))
        self.H = deref_loc(r)
        (s, r), = self.only(e.call_fn(D.fn('critbit::Slab::nodes_mut'), [mk('ptr', slab)], State(), mk('frame0', 'n')))
        self.base = r
        self.nodes, self.start, self.N = e.to_slice(s, r)
        fn = D.fn(SV + m)
        for s, r in e.call_fn(fn, [mk('ptr', slab)] + list(args), State(), mk('frame0', m)):
            self.outs.append(View(e, s, r))
        sp.count('Slab::' + m, outcomes=len(self.outs))

    def only(self, outs):
        if len(outs) != 1:
            raise Missing('slab layout')
        return outs

    def hf(self, x, n):
        l = mk('fld', self.H, *self.D.field('critbit::SlabHeader', n), 0)
        return x.read(l), mk('init', l)

    def is_node(self, loc, h):
        """loc denotes the node cell h, as a cell of the node array or as a typed overlay of its bytes"""
        if loc.op == 'idx' and loc.a[0] is self.nodes:
            return strip0(loc.a[1]) is strip0(h)
        if loc.op in ('view', 'asview'):
            if loc.op == 'asview':
                return self.is_node(loc.a[0], h)
            if self.nodes.op == 'viewarr' and loc.a[0] is self.nodes.a[0]:
                return loc.a[1] is add(self.nodes.a[1], mul(strip0(h), I(self.nodes.a[3])))
        return False

    def node_of(self, loc):
        if loc.op == 'idx' and loc.a[0] is self.nodes:
            return loc.a[1]
        return None

    def header_is(self, sp, rule, w, x, want):
        for f in self.D.type_by_path('critbit::SlabHeader')['v'][0]['f']:
            v, i = self.hf(x, f[0])
            e = want.get(f[0], i)
            if callable(e):
                sp.oblige('%s %s' % (rule, f[0]), w, e(v), lambda: '%s := %s' % (f[0], sh(v, 200)))
            else:
                sp.oblige('%s %s' % (rule, f[0]), w, x.eqv(v, e), lambda: '%s := %s, expected %s' % (f[0], sh(v, 200), sh(e, 200)))

    def node_writes(self, x):
        """[(handle or None, loc, key path, value)] of writes to node cells; None handle: unknown place"""
        out = []
        for l, v in writes(x.st, (self.H,)).items():
            if l is self.nodes:
                if v.op == 'upd' and v.a[0] is mk('init', l) and all(k[0] == 'i' for k, _ in v.a[1]):
                    out += [(k[1], l, y) for k, y in v.a[1]]
                else:
                    out.append((None, l, v))
            elif l.op == 'view' and self.nodes.op == 'viewarr' and l.a[0] is self.nodes.a[0]:
                d = sub(l.a[1], self.nodes.a[1])
                es = self.nodes.a[3]
                ts = terms_of(d)
                if all(c % es == 0 for c in ts.values()):
                    out.append((from_terms({m: c // es for m, c in ts.items()}), l, v))
                else:
                    out.append((None, l, v))
            elif l.op == 'heap' and l.a[0].op == 'slab' or any(z is mk('heap', mk('slab', 0)) for z in walk(l)):
                out.append((None, l, v))
        return out

    def tag(self, x, h):
        l = mk('fld', mk('idx', self.nodes, h), *self.D.field(ANY, 'tag'), 0)
        return l


def strip0(t):
    while t.op in ('zext', 'trunc') and isinstance(t.a[0], V):
        t = t.a[0]
    return t


def tag_values(A, x, h):
    t = mk('init', A.tag(x, h))
    return x.values(t, range(7))


def allocator(sp):
    n = {}
    h = mk('arg', 'h')

    def seen(k):
        n[k] = n.get(k, 0) + 1
    # insert
    val = mk('heap', mk('val', 0))
    A = Alloc(sp, 'insert', [mk('ptr', val)])
    for i, x in enumerate(A.outs):
        w = 'Slab::insert outcome %d' % i
        fl, bump = A.hf(x, 'free_list_len')[1], A.hf(x, 'bump_index')[1]
        L = Lin(x.st.facts)
        nw = A.node_writes(x)
        if x.ret.a[0][3] == 'Ok':
            k = x.ret.a[1][0]
            ok = len(nw) == 1 and nw[0][0] is not None and strip0(nw[0][0]) is strip0(k) and (nw[0][2] is mk('init', val))
            sp.oblige('A1 stores exactly the given node in the returned cell', w, ok, lambda: sh([(a, c) for a, b, c in nw], 300))
            if x.is0(fl):
                seen('fresh')
                sp.oblige('A1 a fresh cell is the next unused one', w, strip0(k) is bump and (L.lt(bump, A.N) or known_ne(x, bump, A.N)), lambda: sh(k, 200))
                sp.oblige('A1 handles fit 32 bits', w, known_ne(x, bump, I((1 << 32) - 1)) or L.lt(bump, I((1 << 32) - 1)), 'bump index may exceed the handle width')
                A.header_is(sp, 'A1 header', w, x, {'bump_index': add(bump, ONE)})
            else:
                seen('recycled')
                hd = A.hf(x, 'free_list_head')[1]
                sp.oblige('A2 only a free cell is recycled', w, x.nz(fl) and strip0(k) is hd, lambda: 'free list length %s, handle %s' % (sh(fl, 100), sh(k, 100)))
                tv = tag_values(A, x, hd)
                sp.oblige('A2 the recycled cell is marked free', w, tv and tv <= {T_FREE, T_LAST}, lambda: 'tags %s' % sorted(tv))

                def nxt(v):
                    if v.op != 'init' or v.a[0].op != 'fld':
                        return False
                    l = v.a[0]
                    return l.a[2] == 'next' and A.is_node(l.a[0], hd)
                A.header_is(sp, 'A2 header', w, x, {'free_list_len': sub(fl, ONE), 'free_list_head': nxt})
        else:
            seen('full')
            sp.oblige('A3 refuses only without room', w, x.is0(fl) and (L.le(A.N, bump) or L.eq(bump, A.N) or L.le(I((1 << 32) - 1), bump)), 'refuses although a cell may be free')
            A.header_is(sp, 'A3 header unchanged', w, x, {})
            sp.oblige('A3 nodes unchanged', w, not nw, lambda: sh([a for a, b, c in nw], 200))
    # remove
    A = Alloc(sp, 'remove', [h])
    for i, x in enumerate(A.outs):
        w = 'Slab::remove outcome %d' % i
        fl, hd = A.hf(x, 'free_list_len')[1], A.hf(x, 'free_list_head')[1]
        nw = A.node_writes(x)
        tv = tag_values(A, x, h)
        if x.ret.a[0][3] == 'Some':
            seen('freed')
            sp.oblige('A4 frees only a live cell', w, tv and tv <= {T_INNER, T_LEAF}, lambda: 'tags %s' % sorted(tv))
            v = x.ret.a[1][0]
            sp.oblige('A4 returns the freed node', w, v.op == 'init' and A.is_node(v.a[0], h), lambda: sh(v, 200))
            sp.oblige('A4 writes exactly the freed cell', w, len(nw) == 1 and nw[0][0] is not None and strip0(nw[0][0]) is h, lambda: sh([a for a, b, c in nw], 200))
            if len(nw) == 1:
                t = sp.dex.type_by_path(FREE)
                f = free_fields(sp, nw[0][2], t)
                want = {T_LAST} if x.is0(fl) else ({T_FREE} if x.nz(fl) else set())
                tg = f.get('tag')
                sp.oblige('A4 the cell is marked free (last of the list iff it was empty)', w, tg is not None and is_int(tg) and tg.a[0] in want, lambda: sh(tg, 100))
                sp.oblige('A4 the cell links to the old list', w, f.get('next') is not None and (x.same(f['next'], hd) or x.is0(fl)), lambda: sh(f.get('next'), 100))
            A.header_is(sp, 'A4 header', w, x, {'free_list_len': add(fl, ONE), 'free_list_head': h})
        else:
            seen('absent')
            L = Lin(x.st.facts)
            sp.oblige('A5 refuses only a cell that is not live', w, L.le(A.N, h) or not (tv & {T_INNER, T_LEAF}), 'a live cell is not removed')
            A.header_is(sp, 'A5 header unchanged', w, x, {})
            sp.oblige('A5 nodes unchanged', w, not nw)
    for m in ('get', 'get_mut'):
        A = Alloc(sp, m, [h])
        for i, x in enumerate(A.outs):
            w = 'Slab::%s outcome %d' % (m, i)
            tv = tag_values(A, x, h)
            if x.ret.a[0][3] == 'Some':
                seen(m)
                p = deref_loc(x.ret.a[1][0])
                sp.oblige('A6 refers to the cell asked for', w, A.is_node(p, h), lambda: sh(p, 200))
                sp.oblige('A6 only live cells', w, tv and tv <= {T_INNER, T_LEAF}, lambda: 'tags %s' % sorted(tv))
            else:
                L = Lin(x.st.facts)
                sp.oblige('A6 nothing only for a cell that is not live', w, L.le(A.N, h) or not (tv & {T_INNER, T_LEAF}), 'a live cell is not found')
            A.header_is(sp, 'A6 header unchanged', w, x, {})
            sp.oblige('A6 nodes unchanged', w, not A.node_writes(x))
    for k in ('fresh', 'recycled', 'full', 'freed', 'absent', 'get', 'get_mut'):
        sp.floor('allocator: ' + k, n.get(k, 0), 1)


def free_fields(sp, v, t):
    if v.op == 'cast':
        v = castval(v, t['s'], v.a[2])
    if v.op == 'agg':
        return dict(zip([f[0] for f in t['v'][0]['f']], v.a[1]))
    if v.op == 'upd':
        return {k[2]: y for k, y in v.a[1] if k[0] == 'f'}
    return {}


def known_ne(x, a, b):
    for f in (mk('eq', a, b), mk('eq', b, a)):
        if x.e.lookup(x.st, f) == 0:
            return True
    if is_int(b):
        f = x.st.facts.get(a)
        if f and f[0] == 'ni' and b.a[0] in f[1]:
            return True
    return x.lt(a, b) is True or x.lt(b, a) is True


# ---------------------------------------------------------------- the tree over the allocator
def node(h):
    return mk('heap', mk('node', h))


HDR = mk('heap', mk('hdr', 0))


def tree_engine(D):
    e = D.engine(slab=False)
    e.nomerge = lambda st, fr: True
    e.precise_err = True

    def get(eng, c, st):
        return [(st.copy(), eng.none()), (st, eng.some(mk('ptr', node(c.args[1]))))]

    def insert(eng, c, st):
        n = sum(1 for x in st.log if x.op == 'alloc')
        v = eng.read(st, deref_loc(c.args[1]))
        s2 = st.copy()
        h = mk('new', n)
        st.log = st.log + (mk('alloc', h, v),)
        eng.write(st, node(h), v)
        s2.log = s2.log + (mk('allocfail', n),)
        return [(st, eng.result_ok(h)), (s2, eng.result_err(UNIT))]

    def remove(eng, c, st):
        h = c.args[1]
        v = eng.read(st, node(h))
        s2 = st.copy()
        st.log = st.log + (mk('free', h, v),)
        return [(s2, eng.none()), (st, eng.some(v))]
    B = e.boundary
    B[CR + SV + 'get'] = B[CR + SV + 'get_mut'] = get
    B[CR + SV + 'insert'] = insert
    B[CR + SV + 'remove'] = remove
    hdr = lambda eng, c, st: [(st, mk('ptr', HDR))]
    B[CR + 'critbit::Slab::header'] = B[CR + 'critbit::Slab::header_mut'] = hdr
    e.trs = []
    e.loop_hook = lambda fr, bb, st, suf, mark: e.trs.append((mark, st.copy(), suf, e.hook_target))
    return e


def bit_of(t):
    """t as a boolean over a key bit: (key, position from the top, polarity) or None"""
    pol = 1
    while True:
        if t.op in ('zext', 'trunc'):
            t = t.a[0]
        elif t.op == 'not':
            t, pol = t.a[0], 1 - pol
        else:
            break
    if t.op == 'eq' and is_int(t.a[1]) and t.a[1].a[0] == 0:
        m, pol = t.a[0], 1 - pol
    elif t.op == 'eq' and is_int(t.a[0]) and t.a[0].a[0] == 0:
        m, pol = t.a[1], 1 - pol
    elif t.op == 'lt' and is_int(t.a[0]) and t.a[0].a[0] == 0:
        m = t.a[1]
    elif t.op == 'eq':
        # x & mask == mask
        a, b = t.a
        for p, q in ((a, b), (b, a)):
            if p.op == 'band' and q in p.a and mask_pos(q) is not None:
                k = p.a[0] if p.a[1] is q else p.a[1]
                while k.op == 'bnot':
                    k, pol = k.a[0], 1 - pol
                return k, mask_pos(q), pol
        return None
    elif t.op == 'band':
        m = t
    else:
        return None
    if m.op != 'band':
        return None
    for k, q in (m.a, m.a[::-1]):
        p = mask_pos(q)
        if p is not None:
            while k.op == 'bnot':
                k, pol = k.a[0], 1 - pol
            return k, p, pol
        if q is ONE and k.op == 'shr':
            # (key >> n) & 1
            return k.a[0], sub(I(127), strip0(k.a[1])), pol
    return None


def mask_pos(q):
    if q.op == 'shr' and is_int(q.a[0]) and q.a[0].a[0] == TOP:
        return strip0(q.a[1])
    if q.op == 'shl' and q.a[0] is ONE:
        return sub(I(127), strip0(q.a[1]))
    return None


class Tree:
    """vocabulary over the nodes of the tree"""

    def __init__(self, D, key=None, fixed=None):
        self.D, self.key, self.fixed = D, key, fixed
        self.bits = set()      # (parent phi, bit phi): bit == critical bit of the parent
        self.pairs = set()     # (parent phi, child phi): child == next node below the parent
        self.paths = set()     # phis that are always on the search path

    def inner(self, h, f):
        return mk('init', mk('fld', mk('asview', node(h), INNER, ANY), *self.D.field(INNER, f), 0))

    def leaf(self, h, f=None):
        l = mk('asview', node(h), LEAF, ANY)
        return mk('init', l if f is None else mk('fld', l, *self.D.field(LEAF, f), 0))

    def tag(self, h):
        return mk('init', mk('fld', node(h), *self.D.field(ANY, 'tag'), 0))

    def is_inner(self, x, h):
        return x.values(self.tag(h), range(7)) == {T_INNER}

    def is_leaf(self, x, h):
        return x.values(self.tag(h), range(7)) <= {T_LEAF} or (x.values(self.tag(h), range(7)) <= {T_LEAF, 0, 3, 4, 5, 6})

    def child(self, t):
        """(handle, index) when t is a child field read from a node's initial content"""
        if t.op == 'sel':
            return None
        if t.op == 'init' and t.a[0].op == 'idx':
            l = t.a[0]
            f = l.a[0]
            if f.op == 'fld' and f.a[2] == 'children' and f.a[0].op == 'asview' and f.a[0].a[1] == INNER:
                n = f.a[0].a[0]
                if n.op == 'heap' and n.a[0].op == 'node':
                    return n.a[0].a[0], l.a[1]
        return None

    def index_is(self, x, p, idx, other=0):
        """idx selects the child of p on the search path (other=1: the other child)"""
        if self.fixed is not None:
            v = x.e.lookup(x.st, idx)
            return v == (self.fixed ^ other)
        i = idx
        pol = 1
        while i.op in ('zext', 'trunc', 'not'):
            if i.op == 'not':
                pol = 1 - pol
            i = i.a[0]
        if (p, i) in self.bits:
            return pol == 1 - other
        b = bit_of(idx)
        if b is not None:
            return x.same(b[0], self.key) and x.eqv(b[1], self.inner(p, 'prefix_len')) and b[2] == 1 - other
        if is_int(idx):
            if idx.a[0] in (0, 1) and (p, I(idx.a[0] ^ other)) in self.bits:
                return True
            v = self.bit_value(x, p)
            return v is not None and idx.a[0] == (v ^ other)
        # 1 - bit
        d = sub(ONE, idx)
        if d.op not in ('poly', 'int'):
            return self.index_is(x, p, d, 1 - other)
        return False

    def bit_value(self, x, p):
        """known value of the key's critical bit at p"""
        for f, (k, s) in x.st.facts.items():
            b = bit_of(f)
            if b and k == 'in' and len(s) == 1 and next(iter(s)) in (0, 1) and x.same(b[0], self.key) and x.eqv(b[1], self.inner(p, 'prefix_len')):
                v = next(iter(s))
                return v if b[2] else 1 - v
            if f.op == 'band' and x.is0(f):
                b = bit_of(mk('eq', f, ZERO))
                if b and x.same(b[0], self.key) and x.eqv(b[1], self.inner(p, 'prefix_len')):
                    return 0
            if f.op == 'band' and x.nz(f):
                b = bit_of(mk('eq', f, ZERO))
                if b and x.same(b[0], self.key) and x.eqv(b[1], self.inner(p, 'prefix_len')):
                    return 1
            for (pp, bb) in self.bits:
                if pp is p and bb is f and k == 'in' and len(s) == 1:
                    return next(iter(s))
        return None

    def desc(self, x, p, c):
        """c is the node below p on the search path"""
        if (p, c) in self.pairs:
            return True
        ch = self.child(c)
        return ch is not None and ch[0] is p and self.is_inner(x, p) and self.index_is(x, p, ch[1])

    def on_path(self, x, h):
        if h is mk('init', mk('fld', HDR, *self.D.field('critbit::SlabHeader', 'root_node'), 0)):
            return True
        if h in self.paths:
            return True
        ch = self.child(h)
        if ch is not None:
            return self.on_path(x, ch[0]) and self.desc(x, ch[0], h)
        return False


def loops(e):
    """[(mark, phis, arrivals)]; an arrival is (view, {phi: value})"""
    out = []
    for mark, hs in e.head_state.items():
        phis = set()
        for r, v in hs.mem.items():
            for z in walk(v):
                if z.op == 'phi':
                    phis.add(z)
        arr = []
        sts = list(e.head_entries.get(mark, []))
        sts += [t[1] for t in e.trs if (t[3] if t[3] in e.head_state else t[0]) is mark]
        for st in sts:
            val = {p: p for p in phis}
            for r, v in hs.mem.items():
                if r not in st.mem:
                    continue
                lv = []
                e.leafdiff((r,), v, st.mem[r], lv)
                for path, a, b in lv:
                    if a.op == 'phi':
                        val[a] = b
            arr.append((View(e, st), val))
        out.append((mark, phis, arr))
    return out


def invariants(T, e):
    """greatest set of relations between loop variables that every arrival establishes"""
    ls = loops(e)
    allphis = [(ph, arr) for _, ph, arr in ls]
    T.paths = set(p for ph, _ in allphis for p in ph)
    T.pairs = set((p, c) for ph, _ in allphis for p in ph for c in ph if p is not c)
    T.bits = set((p, b) for ph, _ in allphis for p in ph for b in ph | {ZERO, ONE} if p is not b)
    while True:
        bad = [set(), set(), set()]
        for ph, arr in allphis:
            for x, val in arr:
                for p in ph & T.paths:
                    if val[p] is not p and not T.on_path(x, val[p]):
                        bad[0].add(p)
                for p, c in T.pairs:
                    if p in ph and c in ph and (val[p] is not p or val[c] is not c) and not T.desc(x, val[p], val[c]):
                        bad[1].add((p, c))
                for p, b in T.bits:
                    if p in ph and (b in ph or is_int(b)) and (val[p] is not p or val.get(b, b) is not b) and not (T.is_inner(x, val[p]) and T.index_is(x, val[p], val.get(b, b))):
                        bad[2].add((p, b))
        if not any(bad):
            return ls
        T.paths -= bad[0]
        T.pairs -= bad[1]
        T.bits -= bad[2]


def quiet(sp, rule, w, st, suf):
    sp.oblige(rule, w, not writes(st) and not [l for l in suf if l.op in ('alloc', 'free')], lambda: sh(list(writes(st)), 200))


def header_is(sp, rule, w, x, want):
    D = sp.dex
    for f in D.type_by_path('critbit::SlabHeader')['v'][0]['f']:
        l = mk('fld', HDR, *D.field('critbit::SlabHeader', f[0]), 0)
        v, e = x.read(l), want.get(f[0], mk('init', l))
        if e is None:
            continue
        sp.oblige('%s %s' % (rule, f[0]), w, x.eqv(v, e), lambda: '%s := %s, expected %s' % (f[0], sh(v, 200), sh(e, 200)))


def hinit(D, n):
    return mk('init', mk('fld', HDR, *D.field('critbit::SlabHeader', n), 0))


def run_tree(sp, name, args):
    e = tree_engine(sp.dex)
    outs = e.call_fn(sp.dex.fn('critbit::Slab::' + name), [mk('ptr', mk('heap', mk('slab', 0)))] + args, State(), mk('frame0', name))
    sp.count('Slab::' + name, outcomes=len(outs), loop_iterations=len(e.trs))
    return e, [View(e, s, r) for s, r in outs]


def find_minmax(sp):
    D = sp.dex
    for nm, fixed in (('find_min', 0), ('find_max', 1)):
        e, outs = run_tree(sp, nm, [])
        T = Tree(D, fixed=fixed)
        ls = invariants(T, e)
        n = {}
        for i, x in enumerate(outs):
            w = 'Slab::%s outcome %d' % (nm, i)
            k = x.ret.a[0][3] if x.ret.op == 'agg' else '?'
            n[k] = n.get(k, 0) + 1
            quiet(sp, 'F1 searching changes nothing', w, x.st, x.st.log)
            if k == 'None':
                sp.oblige('F1 nothing only in an empty tree', w, x.is0(hinit(D, 'leaf_count')), 'an order may exist')
            else:
                h = x.ret.a[1][0] if x.ret.op == 'agg' else x.ret
                sp.oblige('F1 only in a non-empty tree', w, x.nz(hinit(D, 'leaf_count')))
                sp.oblige('F2 always towards the %s key' % ('smallest', 'largest')[fixed], w, T.on_path(x, h), lambda: '%s is not reached by following child %d from the root' % (sh(h, 150), fixed))
                sp.oblige('F2 ends at an order', w, T.is_leaf(x, h), lambda: 'node tag %s' % sorted(x.values(T.tag(h), range(7))))
        sp.floor(nm + ' found', n.get('Some', 0), 1)
        sp.floor(nm + ' empty', n.get('None', 0), 1)


def remove_by_key(sp):
    D = sp.dex
    K = mk('arg', 'key')
    e, outs = run_tree(sp, 'remove_by_key', [K])
    T = Tree(D, key=K)
    ls = invariants(T, e)
    n = {}
    lc = hinit(D, 'leaf_count')
    root = hinit(D, 'root_node')
    for j, (m, st, suf, _) in enumerate(e.trs):
        quiet(sp, 'D0 descending changes nothing', 'Slab::remove_by_key step %d' % j, st, suf)
    for i, x in enumerate(outs):
        w = 'Slab::remove_by_key outcome %d' % i
        ev = [l for l in x.st.log if l.op in ('alloc', 'free')]
        wr = writes(x.st, (HDR,))
        if x.ret.a[0][3] == 'None':
            quiet(sp, 'D1 not found: nothing changes', w, x.st, x.st.log)
            why = x.is0(lc) or any(T.on_path(x, h) and T.is_leaf(x, h) and known_ne(x, T.leaf(h, 'key'), K) for h in leaf_handles(x))
            sp.oblige('D1 gives up only where the key would be', w, why, 'returns nothing although the key may be in the tree')
            n['none'] = n.get('none', 0) + 1
            continue
        v = x.ret.a[1][0]
        c = leaf_handle(v)
        if not sp.oblige('D2 returns an order of the tree', w, c is not None and v is T.leaf(c), lambda: sh(v, 200)):
            continue
        sp.oblige('D2 the order found on the search path', w, T.on_path(x, c) and T.is_leaf(x, c), lambda: '%s is not on the search path of the key' % sh(c, 150))
        sp.oblige('D2 the order has the key', w, x.same(T.leaf(c, 'key'), K), 'keys not compared')
        sp.oblige('D3 allocates nothing', w, not [l for l in ev if l.op == 'alloc'])
        fr = [l.a[0] for l in ev]
        if c is root:
            n['root'] = n.get('root', 0) + 1
            sp.oblige('D4 frees exactly the root', w, fr == [root], lambda: sh(fr, 200))
            sp.oblige('D4 no node overwritten', w, not wr, lambda: sh(list(wr), 200))
            lv = x.read(mk('fld', HDR, *D.field('critbit::SlabHeader', 'leaf_count'), 0))
            header_is(sp, 'D4 header', w, x, {'root_node': None, 'leaf_count': lv if (lv is ZERO or x.eqv(lv, sub(lc, ONE))) else ZERO})
            continue
        n['deep'] = n.get('deep', 0) + 1
        ps = [l.a[0].a[0] for l in wr if l.op == 'heap' and l.a[0].op == 'node']
        if not sp.oblige('D5 exactly one node overwritten', w, len(wr) == 1 and len(ps) == 1, lambda: sh(list(wr), 200)):
            continue
        p = ps[0]
        sp.oblige('D5 it is the parent on the search path', w, T.desc(x, p, c), lambda: '%s is not the parent of %s on the search path' % (sh(p, 120), sh(c, 120)))
        o = x.st.mem[node(p)]
        oh = o.a[0].a[0].a[0] if o.op == 'init' and o.a[0].op == 'heap' and o.a[0].a[0].op == 'node' else None
        ch = T.child(oh) if oh is not None else None
        sp.oblige('D5 the parent becomes its other child', w, ch is not None and ch[0] is p and T.index_is(x, p, ch[1], 1), lambda: 'parent := %s' % sh(o, 200))
        sp.oblige('D6 frees exactly the order and the moved sibling', w, len(fr) == 2 and set(fr) == {c, oh}, lambda: sh(fr, 200))
        header_is(sp, 'D6 header', w, x, {'leaf_count': sub(lc, ONE)})
    for k in ('none', 'root', 'deep'):
        sp.floor('remove_by_key ' + k, n.get(k, 0), 1)


def leaf_handle(v):
    """handle whose whole initial content, as an order, v is"""
    if v.op == 'init' and v.a[0].op == 'asview' and v.a[0].a[1] == LEAF:
        l = v.a[0].a[0]
        if l.op == 'heap' and l.a[0].op == 'node':
            return l.a[0].a[0]
    return None


def leaf_handles(x):
    out = set()
    for f in x.st.facts:
        for z in walk(f):
            if z.op == 'heap' and z.a[0].op == 'node':
                out.add(z.a[0].a[0])
    return out


def insert_leaf(sp):
    D = sp.dex
    nl = mk('heap', mk('leaf', 0))
    K = mk('init', mk('fld', nl, *D.field(LEAF, 'key'), 0))
    newleaf = mk('init', nl)
    e, outs = run_tree(sp, 'insert_leaf', [mk('ptr', nl)])
    T = Tree(D, key=K)
    ls = invariants(T, e)
    n = {}
    lc = hinit(D, 'leaf_count')
    root = hinit(D, 'root_node')

    def shared(x, h):
        """terms for the length of the prefix shared with node h (as inner node or order)"""
        out = []
        for k in (T.inner(h, 'key'), T.leaf(h, 'key')):
            out += [mk('leading_zeros', mk('bxor', *z)) for z in ((k, K), (K, k))]
        return out

    def is_new(v):
        return castval(v, LEAF, ANY) is newleaf
    for j, (m, st, suf, _) in enumerate(e.trs):
        w = 'Slab::insert_leaf step %d' % j
        quiet(sp, 'I0 descending changes nothing', w, st, suf)
        x = View(e, st)
        hs = [h for h in leaf_handles(x) if h.op == 'phi' or T.on_path(x, h)]
        ok = any(T.is_inner(x, h) and any(x.lt(s, T.inner(h, 'prefix_len')) is False for s in shared(x, h)) for h in hs)
        sp.oblige('I0 descends only below a shared prefix', w, ok, 'prefix not compared before descending')
    for i, x in enumerate(outs):
        w = 'Slab::insert_leaf outcome %d' % i
        al = [l for l in x.st.log if l.op == 'alloc']
        fr = [l.a[0] for l in x.st.log if l.op == 'free']
        wr = {l: v for l, v in writes(x.st, (HDR,)).items() if not (l.op == 'heap' and l.a[0].op == 'node' and l.a[0].a[0] in [a.a[0] for a in al])}
        if is_err(x.ret):
            n['err'] = n.get('err', 0) + 1
            sp.oblige('I1 fails only when allocation fails', w, any(l.op == 'allocfail' for l in x.st.log), 'fails without an allocation failure')
            sp.oblige('I1 every allocated node is returned', w, sorted(fr, key=lambda z: z.id) == sorted([l.a[0] for l in al], key=lambda z: z.id), lambda: 'allocated %s, freed %s' % (sh([l.a[0] for l in al], 80), sh(fr, 80)))
            sp.oblige('I1 no node changed', w, not wr, lambda: sh(list(wr), 200))
            header_is(sp, 'I1 header unchanged', w, x, {})
            continue
        t = x.ret.a[1][0]
        h, old = t.a[1]
        sp.oblige('I2 frees nothing', w, not fr, lambda: sh(fr, 100))
        if old.op == 'agg' and old.a[0][3] == 'Some':
            n['replace'] = n.get('replace', 0) + 1
            sp.oblige('I3 replaces only the order with the same key', w, not al and T.on_path(x, h) and T.is_leaf(x, h) and x.same(T.leaf(h, 'key'), K), 'an order with another key is replaced')
            sp.oblige('I3 reports the replaced order', w, old.a[1][0] is T.leaf(h), lambda: sh(old, 150))
            sp.oblige('I3 stores the new order there', w, list(wr) == [node(h)] and is_new(x.st.mem[node(h)]), lambda: sh(wr, 200))
            header_is(sp, 'I3 header', w, x, {})
            continue
        if x.is0(lc):
            n['first'] = n.get('first', 0) + 1
            sp.oblige('I4 stores the new order as the root', w, len(al) == 1 and is_new(al[0].a[1]) and h is al[0].a[0] and not wr, lambda: sh(al, 200))
            header_is(sp, 'I4 header', w, x, {'root_node': h, 'leaf_count': ONE})
            continue
        n['split'] = n.get('split', 0) + 1
        ns = [l.a[0].a[0] for l in wr if l.op == 'heap' and l.a[0].op == 'node']
        if not sp.oblige('I5 exactly one node becomes the fork', w, len(wr) == 1 and len(ns) == 1, lambda: sh(list(wr), 200)):
            continue
        r = ns[0]
        new = [l.a[0] for l in al if is_new(l.a[1])]
        mov = [l.a[0] for l in al if l.a[1] is mk('init', node(r))]
        sp.oblige('I5 allocates the new order and the moved node', w, len(al) == 2 and len(new) == 1 and len(mov) == 1, lambda: sh(al, 250))
        sp.oblige('I5 returns the handle of the new order', w, new == [h], lambda: sh(h, 100))
        sp.oblige('I5 forks on the search path', w, T.on_path(x, r), lambda: '%s is not on the search path' % sh(r, 100))
        inner, leaf = T.is_inner(x, r), x.values(T.tag(r), range(7)) == {T_LEAF}
        rk = T.inner(r, 'key') if inner else T.leaf(r, 'key')
        sps = [mk('leading_zeros', mk('bxor', *z)) for z in ((rk, K), (K, rk))]
        why = (inner and any(x.lt(s, T.inner(r, 'prefix_len')) is True for s in sps)) or (leaf and known_ne(x, rk, K))
        sp.oblige('I5 forks only where the keys part', w, why, 'the fork is not justified by a comparison of the keys')
        F = lambda f: x.read(mk('fld', mk('asview', node(r), INNER, ANY), *D.field(INNER, f), 0))
        tg = x.read(mk('fld', node(r), *D.field(ANY, 'tag'), 0))
        sp.oblige('I6 fork is an inner node', w, is_int(tg) and tg.a[0] == T_INNER, lambda: sh(tg, 100))
        pl = F('prefix_len')
        sp.oblige('I6 fork at the first differing bit', w, strip0(pl) in sps, lambda: sh(pl, 200))
        sp.oblige('I6 fork keeps a key of its subtree', w, F('key') is K or F('key') is rk, lambda: sh(F('key'), 100))
        ok = len(new) == 1 and len(mov) == 1 and fork_children(x, F('children'), K, sps, new[0], mov[0])
        sp.oblige('I6 both subtrees hang on their side of the fork', w, ok, lambda: sh(F('children'), 400))
        header_is(sp, 'I6 header', w, x, {'leaf_count': add(lc, ONE)})
    for k in ('err', 'replace', 'first', 'split'):
        sp.floor('insert_leaf ' + k, n.get(k, 0), 1)


def fork_children(x, v, K, sps, new, mov):
    """the child array has `new` at the key's bit and `mov` at the other"""
    def side(i):
        """1 when index i is the key's bit at the fork, 0 when it is the opposite"""
        b = bit_of(i)
        if b is not None and x.same(b[0], K) and strip0(b[1]) in sps:
            return b[2]
        if b is None and is_int(i):
            for f, (k, s) in x.st.facts.items():
                b = bit_of(f) or (bit_of(mk('eq', f, ZERO)) if f.op == 'band' else None)
                if b and x.same(b[0], K) and strip0(b[1]) in sps:
                    if f.op == 'band':
                        bv = 0 if x.is0(f) else (1 if x.nz(f) else None)
                    elif k == 'in' and len(s) == 1:
                        bv = next(iter(s)) if b[2] else 1 - next(iter(s))
                    else:
                        bv = None
                    if bv is not None:
                        return 1 if i.a[0] == bv else 0
            return None
        d = sub(ONE, i)
        if b is None and d.op not in ('poly', 'int'):
            z = side(d)
            return None if z is None else 1 - z
        return None
    got = {}
    if v.op == 'agg':
        for j, t in enumerate(v.a[1]):
            got[side(I(j))] = t
    elif v.op == 'upd':
        if v.a[0].op == 'agg':
            for j, t in enumerate(v.a[0].a[1]):
                got[side(I(j))] = t
        for k, t in v.a[1]:
            if k[0] != 'i':
                return False
            got[side(k[1])] = t
    got.pop(None, None) if len(got) > 2 else None
    return got.get(1) is new and got.get(0) is mov


def remove_ends(sp):
    D = sp.dex
    for nm, fixed in (('remove_min', 0), ('remove_max', 1)):
        e = tree_engine(D)
        fs = []

        def find(which):
            def h(eng, c, st):
                wh = which
                if wh is None:
                    v = eng.lookup(st, c.args[1])
                    wh = v
                return [(st.copy(), eng.none()), (st, eng.some(mk('end', wh)))]
            return h

        def rem(eng, c, st):
            st.log = st.log + (mk('rem', c.args[1]),)
            return [(st, mk('removed', c.args[1]))]
        e.boundary[CR + 'critbit::Slab::find_min'] = find(0)
        e.boundary[CR + 'critbit::Slab::find_max'] = find(1)
        e.boundary[CR + 'critbit::Slab::find_min_max'] = find(None)
        e.boundary[CR + 'critbit::Slab::remove_by_key'] = rem
        T = Tree(D)
        n = 0
        for i, (s, r) in enumerate(e.call_fn(D.fn('critbit::Slab::' + nm), [mk('ptr', mk('heap', mk('slab', 0)))], State(), mk('frame0', nm))):
            x = View(e, s, r)
            w = 'Slab::%s outcome %d' % (nm, i)
            quiet(sp, 'E0 no other change', w, s, s.log)
            rs = [l for l in s.log if l.op == 'rem']
            if rs:
                h = mk('end', fixed)
                if x.is_inner_tag(T, h) if hasattr(x, 'is_inner_tag') else x.values(T.tag(h), range(7)) == {T_INNER}:
                    continue       # find_min/find_max end at an order (F2)
                n += 1
                sp.oblige('E1 removes the order at that end', w, len(rs) == 1 and rs[0].a[0] is T.leaf(h, 'key') and x.ret is mk('removed', rs[0].a[0]), lambda: sh(rs, 200))
        sp.floor(nm, n, 1)
    sp.count('Slab::remove_min/remove_max', outcomes=2)


def search(sp):
    """find_by: every node reachable within the visit limit is visited once and every matching order is reported"""
    D = sp.dex
    if CR + 'critbit::Slab::find_by' not in D.prog.bypath:
        sp.count('Slab::find_by', not_analysed='no such function')
        return
    for f in [D.fn('critbit::Slab::find_by')]:
        e = tree_engine(D)

        def get(eng, c, st):
            s2 = st.copy()
            s2.log = s2.log + (mk('nonode', c.args[1]),)
            return [(s2, eng.none()), (st, eng.some(mk('ptr', node(c.args[1]))))]
        e.boundary[CR + SV + 'get'] = e.boundary[CR + SV + 'get_mut'] = get
        M = e.models

        def vnew(eng, c, st):
            # two calls at one site cannot both be live: the token is the site
            return [(st, mk('vecobj', c.site(st)))]

        def tok(eng, c, st):
            v = eng.read(st, deref_loc(c.args[0]))
            if v.op != 'vecobj':
                raise Unsupported('vector of find_by: ' + sh(v, 80))
            return v

        def vpush(eng, c, st):
            st.log = st.log + (mk('put', tok(eng, c, st), c.args[1]),)
            return [(st, UNIT)]

        def seq(st):
            return sum(1 for l in st.log if l.op in ('put', 'take', 'probe'))

        def vpop(eng, c, st):
            v = tok(eng, c, st)
            n = seq(st)
            x = mk('taken', v, n)
            s2 = st.copy()
            s2.log = s2.log + (mk('probe', v, 1),)
            st.log = st.log + (mk('take', v, x),)
            return [(s2, eng.none()), (st, eng.some(x))]

        def vempty(eng, c, st):
            v = tok(eng, c, st)
            s2 = st.copy()
            s2.log = s2.log + (mk('probe', v, 1),)
            st.log = st.log + (mk('probe', v, 0),)
            return [(s2, ONE), (st, ZERO)]

        def vlen(eng, c, st):
            return [(st, mk('veclen', tok(eng, c, st), seq(st)))]
        for p in ('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', '<alloc::vec::Vec<T> as core::default::Default>::default'):
            M[p] = vnew
        M['alloc::vec::Vec::<T, A>::push'] = vpush
        M['alloc::vec::Vec::<T, A>::pop'] = vpop
        M['alloc::vec::Vec::<T, A>::is_empty'] = vempty
        M['alloc::vec::Vec::<T, A>::len'] = vlen
        pred = lambda eng, c, st: [(st, mk('pred', c.args[-1] if c.args[-1].op == 'ptr' else c.args[-1].a[1][0] if c.args[-1].op == 'agg' else c.args[-1]))]
        for b in f.bbs:
            t = b['t']
            if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('clos'):
                e.boundary[t[1]['path']] = pred
        LIM = mk('heap', mk('limit', 0))
        try:
            outs = e.call_fn(f, [mk('ptr', mk('heap', mk('slab', 0))), mk('ptr', LIM), mk('arg', 'pred')], State(), mk('frame0', 'find_by'))
        except Unsupported as ex:
            sp.count('Slab::find_by', not_analysed=str(ex)[:100])
            return
        T = Tree(D)
        ev = lambda lg: [l for l in lg if l.op in ('put', 'take', 'probe')]
        kinds = {}
        found = {r for s, r in outs}
        if len(found) != 1 or next(iter(found)).op != 'vecobj':
            sp.oblige('B1 one result vector', 'Slab::find_by', False, lambda: sh(list(found), 200))
            return
        found = next(iter(found))
        root = hinit(D, 'root_node')

        def visit(x, w, lg, whole):
            """the events of one visit"""
            tk = [l for l in lg if l.op == 'take']
            if not tk:
                return sp.oblige('B2 a node is taken in every iteration', w, not whole, lambda: sh(lg, 200))
            h = tk[0].a[1]
            inn = x.values(T.tag(h), range(7))
            pu = [l for l in lg if l.op == 'put']
            got = [l.a[1] for l in pu if l.a[0] is found]
            ch = [T.child(l.a[1]) for l in pu if l.a[0] is not found]
            if len(tk) != 1 or not whole and not pu:
                return sp.oblige('B2 one node per iteration', w, len(tk) == 1, lambda: sh(lg, 200))
            if inn == {T_INNER}:
                kinds['inner'] = kinds.get('inner', 0) + 1
                sp.oblige('B3 both children are visited', w, not got and None not in ch and {c[0] for c in ch} == {h} and sorted(x.e.lookup(x.st, c[1]) if x.e.lookup(x.st, c[1]) is not None else -1 for c in ch) == [0, 1], lambda: sh(lg, 300))
            elif T_INNER not in inn:
                P = [q for q in x.st.facts if q.op == 'pred' and any(z is node(h) for z in walk(q))]
                if any(x.nz(q) for q in P):
                    kinds['match'] = kinds.get('match', 0) + 1
                    sp.oblige('B4 a matching order is reported', w, got == [T.leaf(h, 'key')] and not ch, lambda: sh(lg, 300))
                else:
                    kinds['miss'] = kinds.get('miss', 0) + 1
                    sp.oblige('B5 an order is skipped only when it does not match', w, not got and not ch and any(x.is0(q) for q in P), lambda: '%s; %s' % (sh(lg, 200), sh(P, 100)))
            else:
                sp.oblige('B3 both children are visited', w, False, 'kind of node not examined: %s' % inn)
        for j, (m, st, suf, tgt) in enumerate(e.trs):
            x = View(e, st)
            if x.infeasible():
                continue
            w = 'Slab::find_by iteration %d' % j
            visit(x, w, ev(suf), True)
            hs = e.head_state[m]
            l0, l1 = hs.mem.get(LIM, mk('init', LIM)), x.read(LIM)
            sp.oblige('B6 the limit counts visits', w, x.eqv(l1, sub(l0, ONE)), lambda: '%s -> %s' % (sh(l0), sh(l1)))
            sp.oblige('B6 visits only within the limit', w, x.nz(l0) or x.lt(ZERO, l0) is True, 'limit not tested')
        marks = {m for m, *_ in e.trs}
        for i, (s, r) in enumerate(outs):
            x = View(e, s)
            if x.infeasible():
                continue
            w = 'Slab::find_by exit %d' % i
            lm = [j for j, l in enumerate(s.log) if l.op == 'loop']
            if not lm:
                sp.oblige('B7 nothing to search', w, not ev(s.log) or [l.op for l in ev(s.log)] == ['probe'], lambda: sh(ev(s.log), 200))
                sp.oblige('B7 only an empty tree is not searched', w, x.is0(hinit(D, 'leaf_count')), 'root not tested')
                continue
            pre, suf = ev(s.log[:lm[0]]), ev(s.log[lm[-1] + 1:])
            sp.oblige('B8 the search starts at the root', w, [l.op for l in pre] == ['put'] and pre[0].a[1] is root and pre[0].a[0] is not found, lambda: sh(pre, 200))
            hs = e.head_state.get(s.log[lm[-1]])
            l0 = (hs.mem if hs else {}).get(LIM, mk('init', LIM))
            dry = any(l.op == 'probe' and l.a[1] == 1 for l in suf)
            gone = any(l.op == 'nonode' for l in s.log[lm[-1] + 1:])     # handle of no node: not reachable
            sp.oblige('B9 stops only when nothing is left or the limit is used up', w, dry or x.is0(l0) or gone, lambda: sh(suf, 200))
        for q in ('inner', 'match', 'miss'):
            sp.floor('find_by ' + q, kinds.get(q, 0), 1)
        sp.count('Slab::find_by', outcomes=len(outs), loop_iterations=len(e.trs))


def check_c22(sp):
    allocator(sp)
    find_minmax(sp)
    remove_by_key(sp)
    insert_leaf(sp)
    remove_ends(sp)
    search(sp)


CHECKS = {'C22': check_c22}
TECHNIQUE = {'C22': 'abstract interpretation of the node allocator and, over it, of each tree operation with inductively checked relations between loop variables (cursor follows the critical bit); every exit compared with the crit-bit update'}
