"""Forward abstract interpreter over monomorphic MIR.

Domain: per trace partition, a store of symbolic value terms (global value
numbering with polynomial normal form), a conjunction of branch facts (finite
value sets on terms), and a log of boundary effects.  Partitions are merged when
their control skeleton (known enum variants / booleans / pointer targets of live
locals, plus the log) agrees; merges are affine joins (differing leaves become
phi terms, affine relations between them are kept) and facts are joined set-wise.
Loops are solved by fixpoint; loops over concrete iterators unroll.  No solver is
involved and nothing of the analysed program is executed.
"""
import json
from terms import *


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.items = d['items']
        self.adts = d['adts']
        self.impls = d['impls']
        self.cfg = d['cfg']
        self.fns = {}
        self.bypath = {}
        self.statics = {}
        for f in d['fns']:
            fi = Fn(f)
            self.fns[f['key']] = fi
            self.bypath.setdefault(f['path'], []).append(fi)
        self.consts_raw = {c['path']: c['v'] for c in d['consts']}
        self.adt_ty = {a['path']: a['t'] for a in self.adts}
        TYPES[:] = self.types
        VIEWTY.clear()
        for t in self.types:
            if t['k'] == 'struct':
                VIEWTY[t['s']] = t

    def ty(self, t):
        return self.types[t]

    def tys(self, t):
        return self.types[t]['s']

    def find(self, suffix, local=True):
        """functions whose path ends with the given '::'-suffix"""
        out = []
        for p, fs in self.bypath.items():
            if p == suffix or p.endswith('::' + suffix):
                out += [f for f in fs if f.local or not local]
        return out


class Fn:
    def __init__(self, d):
        self.key = d['key']
        self.path = d['path']
        self.local = d['local']
        self.generic = d['generic']
        self.argc = d['argc']
        self.locals = d['locals']
        self.bbs = d['bbs']
        self.clos = d['clos']
        self.span = d['span']
        self.names = d['names']
        self.spread = d.get('spread')
        self.pub = d['pub']
        self.raw = d
        self._prep = None

    def prep(self, prog):
        if self._prep is None:
            self._prep = Prep(self, prog)
        return self._prep


def place_locals(pl):
    yield pl[0]
    for e in pl[1:]:
        if isinstance(e, list) and e[0] == 'i':
            yield e[1]


def op_places(o):
    if 'c' in o:
        yield o['c']
    elif 'm' in o:
        yield o['m']


def rv_uses(rv):
    """(operands, places-read, places-ref'd)"""
    k = rv[0]
    if k == 'use':
        return [rv[1]], [], []
    if k == 'repeat':
        return [rv[1]], [], []
    if k == 'ref':
        return [], [], [rv[1]]
    if k == 'cast':
        return [rv[2]], [], []
    if k == 'bin':
        return [rv[2], rv[3]], [], []
    if k == 'un':
        return [rv[2]], [], []
    if k == 'discr':
        return [], [rv[1]], []
    if k == 'agg':
        return list(rv[2]), [], []
    return [], [], []


class Prep:
    def __init__(self, fn, prog):
        self.fn = fn
        n = len(fn.bbs)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(fn.bbs):
            if b.get('cl'):
                continue
            t = b['t']
            if t[0] == 'goto':
                succ[i] = [t[1]]
            elif t[0] == 'switch':
                succ[i] = sorted(set([x[1] for x in t[2]] + [t[3]]))
            elif t[0] == 'drop':
                succ[i] = [t[2]]
            elif t[0] == 'call':
                succ[i] = [t[4]] if t[4] is not None else []
            elif t[0] == 'assert':
                succ[i] = [t[3]]
        self.succ = succ
        # dfs: back edges and rpo
        color = [0] * n
        order = []
        back = set()
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                elif color[v] == 1:
                    back.add((u, v))
            else:
                color[u] = 2
                order.append(u)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.back = back
        self.heads = {v for _, v in back}
        # loop bodies
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        self.loop_body = {}
        for u, h in back:
            body = self.loop_body.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(pred[x])
        # liveness
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        taken = set()
        for i, b in enumerate(fn.bbs):
            if b.get('cl'):
                continue
            U, D = use[i], dfn[i]

            def u_place(pl):
                for l in place_locals(pl):
                    if l not in D:
                        U.add(l)

            def d_place(pl):
                if len(pl) == 1:
                    D.add(pl[0])
                else:
                    u_place(pl)
            for s in b['s']:
                if s[0] == '=':
                    ops, pls, refs = rv_uses(s[2])
                    for o in ops:
                        for p in op_places(o):
                            u_place(p)
                    for p in pls:
                        u_place(p)
                    for p in refs:
                        u_place(p)
                        if '*' not in p[1:]:
                            taken.add(p[0])
                    d_place(s[1])
                elif s[0] == 'sd':
                    u_place(s[1])
                elif s[0] in ('assume',):
                    for p in op_places(s[1]):
                        u_place(p)
                elif s[0] == 'copy':
                    for o in s[1:4]:
                        for p in op_places(o):
                            u_place(p)
            t = b['t']
            if t[0] == 'switch':
                for p in op_places(t[1]):
                    u_place(p)
            elif t[0] == 'assert':
                for p in op_places(t[1]):
                    u_place(p)
            elif t[0] == 'call':
                for o in t[2]:
                    for p in op_places(o):
                        u_place(p)
                if t[1]['kind'] == 'indirect':
                    for p in op_places(t[1]['op']):
                        u_place(p)
                d_place(t[3])
            elif t[0] == 'ret':
                U.add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in succ[b]:
                    out |= live[s]
                ni = use[b] | (out - dfn[b])
                if ni != live[b]:
                    live[b] = ni
                    changed = True
        # storage-dead based liveness for address-taken locals (forward may-be-initialised)
        init_in = [set() for _ in range(n)]
        args = set(range(1, fn.argc + 1))
        init_in[0] = set(args)
        changed = True
        while changed:
            changed = False
            for b in order:
                cur = set(init_in[b])
                for s in fn.bbs[b]['s']:
                    if s[0] == '=':
                        cur.add(s[1][0])
                    elif s[0] == 'dead':
                        cur.discard(s[1])
                t = fn.bbs[b]['t']
                if t[0] == 'call':
                    cur.add(t[3][0])
                for s in succ[b]:
                    if not cur <= init_in[s]:
                        init_in[s] |= cur
                        changed = True
        self.live = live
        self.taken = taken
        interesting = set()
        for i, t in enumerate(fn.locals):
            k = prog.types[t]['k']
            if k in ('bool', 'ref', 'ptr', 'enum', 'struct', 'tuple', 'closure', 'array', 'param', 'other', 'fnptr'):
                interesting.add(i)
        self.keylocals = []
        for b in range(n):
            ls = [l for l in sorted(interesting) if (l in live[b]) or (l in taken and l in init_in[b])]
            self.keylocals.append(ls)
        # locals that may be forgotten at block entry (dead)
        self.keep = [live[b] | (taken & init_in[b]) for b in range(n)]


class State:
    __slots__ = ('mem', 'facts', 'log', 'ts', 'u', 'epoch', 'pre')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.log = ()
        self.ts = ()
        self.u = 0
        self.epoch = 0
        self.pre = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.log = self.log
        s.ts = self.ts
        s.u = self.u
        s.epoch = self.epoch
        s.pre = self.pre
        return s


# ---------------------------------------------------------------- locations
def deref_loc(v):
    op = v.op
    if op == 'ptr':
        return v.a[0]
    if op == 'slice':
        return mk('sl', *v.a)
    if op == 'agg' and v.a[0][0] in ('adt', 'tuple') and v.a[1]:
        nz = [x for x in v.a[1] if not (x.op == 'agg' and not x.a[1]) and x.op != 'zst']
        if len(nz) == 1:
            return deref_loc(nz[0])
    return mk('deref', v)


def mkref(loc):
    if loc.op == 'sl':
        b, s, n = loc.a
        if b.op == 'deref' and is_int(s) and s.a[0] == 0 and n.op == 'len' and n.a[0] is b.a[0]:
            return b.a[0]
        return mk('slice', b, s, n)
    if loc.op == 'deref':
        return loc.a[0]
    return mk('ptr', loc)


def mkidx(loc, i):
    if loc.op == 'sl':
        return mkidx2(loc.a[0], add(loc.a[1], i))
    return mkidx2(loc, i)


def mkidx2(loc, i):
    return mk('idx', loc, i)


VIEWTY = {}      # type string -> type record (struct types with layout)
TYPES = []


def mkfld(loc, i, name, var):
    """field location; struct-typed fields of typed byte views are canonical views themselves"""
    if loc.op == 'view':
        t = VIEWTY.get(loc.a[2])
        if t is not None and t['k'] == 'struct' and t.get('off') and i < len(t['v'][0]['f']):
            ft = TYPES[t['v'][0]['f'][i][1]]
            if ft['k'] == 'struct' and ft.get('size') and ft['s'] in VIEWTY and len(ft['v'][0]['f']) > 1:
                return mk('view', loc.a[0], add(loc.a[1], I(t['off'][i])), ft['s'], ft['size'])
    if loc.op == 'asview':
        t, u = VIEWTY.get(loc.a[1]), VIEWTY.get(loc.a[2])
        if t and u and t.get('off') and u.get('off') and i < len(t['off']):
            j = same_field(t, i, u)
            if j is not None:
                return mkfld(loc.a[0], j, u['v'][0]['f'][j][0], 0)
    return mk('fld', loc, i, name, var)


def childloc(loc, key):
    if key[0] == 'f':
        return mkfld(loc, key[1], key[2], key[3])
    return mkidx(loc, key[1])


def split_loc(loc):
    keys = []
    while True:
        if loc.op == 'fld':
            keys.append(('f', loc.a[1], loc.a[2], loc.a[3]))
            loc = loc.a[0]
        elif loc.op == 'idx':
            keys.append(('i', loc.a[1]))
            loc = loc.a[0]
        else:
            keys.reverse()
            return loc, keys


def agg(tag, fields):
    return mk('agg', tag, tuple(fields))


def castval(v, to, frm):
    """the same bytes, a value of type frm seen as type to (type strings)"""
    if to == frm:
        return v
    if v.op == 'cast':
        return castval(v.a[0], to, v.a[1])
    if v.op == 'init':
        l = v.a[0]
        if l.op == 'asview' and l.a[1] == frm:
            l, frm = l.a[0], l.a[2]
        return mk('init', l if to == frm else mk('asview', l, to, frm), *v.a[1:])
    return mk('cast', v, frm, to)


def cast_field(v, key):
    """field of a cast value: the source field with the same offset and size"""
    x, frm, to = v.a
    tf, tt = VIEWTY.get(frm), VIEWTY.get(to)
    if key[0] != 'f' or tf is None or tt is None or not tf.get('off') or not tt.get('off'):
        return None
    i = same_field(tt, key[1], tf)
    return None if i is None else project(x, ('f', i, tf['v'][0]['f'][i][0], 0))


def same_field(t, j, u):
    """the field of struct u with offset, size and type of field j of struct t"""
    ty = t['v'][0]['f'][j][1]
    for i, f in enumerate(u['v'][0]['f']):
        if u['off'][i] == t['off'][j] and f[1] == ty:
            return i
    return None


def project(v, key):
    op = v.op
    if op == 'cast':
        r = cast_field(v, key)
        return r if r is not None else mk('prj', v, key)
    if op == 'agg':
        fs = v.a[1]
        if key[0] == 'f':
            if v.a[0][0] == 'adt' and v.a[0][2] != key[3]:
                return mk('undef', v, key)
            if key[1] < len(fs):
                return fs[key[1]]
            return mk('undef', v, key)
        i = key[1]
        if is_int(i):
            if 0 <= i.a[0] < len(fs):
                return fs[i.a[0]]
            return mk('undef', v, key)
        if fs and all(f is fs[0] for f in fs):
            return fs[0]
        return mk('sel', v, i)
    if op == 'rep':
        return v.a[0] if key[0] == 'i' else mk('prj', v, key)
    if op == 'ptr' and key[0] == 'f' and key[1] == 0:
        return v        # the pointer inside a Box, Unique or NonNull
    if op == 'upd':
        base, ov = v.a
        if key[0] == 'f':
            for k, x in ov:
                if k == key:
                    return x
            return project(base, key)
        i = key[1]
        for k, x in reversed(ov):
            if k[0] != 'i':
                continue
            if k[1] is i:
                return x
            if is_int(k[1]) and is_int(i):
                continue
            d = sub(k[1], i)
            if is_int(d) and d.a[0] != 0:
                continue
            return mk('sel', v, i)
        return project(base, key)
    if op == 'init':
        return mk('init', childloc(v.a[0], key), *v.a[1:])
    if op == 'bytes' and key[0] == 'i' and is_int(key[1]):
        h = v.a[0]
        i = key[1].a[0]
        if 0 <= i * 2 < len(h):
            return I(int(h[2 * i:2 * i + 2], 16))
    if op == 'bsub' and key[0] == 'i':
        # array element out of a raw byte range
        es = v.a[3]
        return mk('bsub', v.a[0], add(v.a[1], mul(key[1], I(es))), I(es), es, v.a[4])
    if op == 'undef':
        return mk('undef', v, key)
    if op == 'ptr' and key[0] == 'f' and v.a[0].op == 'heap':
        return v        # Box / Unique / NonNull are the pointer itself
    return mk('prj', v, key)


def setfield(v, key, c):
    op = v.op
    if op == 'agg':
        fs = v.a[1]
        if key[0] == 'f' and key[1] < len(fs) and (v.a[0][0] != 'adt' or v.a[0][2] == key[3]):
            if fs[key[1]] is c:
                return v
            return mk('agg', v.a[0], fs[:key[1]] + (c,) + fs[key[1] + 1:])
        if key[0] == 'i' and is_int(key[1]) and 0 <= key[1].a[0] < len(fs):
            i = key[1].a[0]
            if fs[i] is c:
                return v
            return mk('agg', v.a[0], fs[:i] + (c,) + fs[i + 1:])
        return mk('upd', v, ((key, c),))
    if op == 'rep' and key[0] == 'i' and is_int(key[1]) and v.a[1] is not None and v.a[1] <= 64:
        fs = [v.a[0]] * v.a[1]
        if key[1].a[0] < len(fs):
            fs[key[1].a[0]] = c
            return mk('agg', ('array',), tuple(fs))
    if op == 'upd':
        base, ov = v.a
        if key[0] == 'f':
            ov2 = tuple((k, x) for k, x in ov if k != key)
            if project(base, key) is c:
                return base if not ov2 else mk('upd', base, ov2)
            # canonical order of field overrides
            ov2 = tuple(sorted(ov2 + ((key, c),), key=lambda kx: (0, kx[0][3], kx[0][1]) if kx[0][0] == 'f' else (1, 0, 0)))
            return mk('upd', base, ov2)
        if project(v, key) is c:
            return v
        ov2 = tuple((k, x) for k, x in ov if k != key)
        return mk('upd', base, ov2 + ((key, c),))
    if project(v, key) is c:
        return v
    return mk('upd', v, ((key, c),))


def update(v, keys, new):
    if not keys:
        return new
    k = keys[0]
    return setfield(v, k, update(project(v, k), keys[1:], new))


RANGE_TY = ('core::ops::range::', 'core::range::')


class Engine:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.models = {}
        self.boundary = {}
        self.no_inline = []
        self.split_types = set()
        self.ignore_types = set()
        self.max_depth = 60
        self.max_parts = 96
        self.stats = {'fns': set(), 'blocks': 0, 'calls': 0, 'sites': set(), 'opaque': {}, 'joins': 0, 'merged_over': 0, 'recursion': 0}
        self.phi_ops = {}
        self.sat_cache = {}
        self.vec_phis = {}   # buffer phi of a vector filled in a loop -> values pushed
        self.loops = {}
        self.recording = True
        self.on_call = None
        self.trace = False
        self.cells = ('core::cell::RefMut', 'core::cell::Ref')
        self.budget = None
        self.keep_err = True
        self.precise_err = False
        self.head_init = {}
        self.head_entries = {}
        self.hook_target = None
        self.split_term = None
        self.max_blocks = 200000
        self.head_state = {}
        self.nomerge = None
        self.headsplit = False # keep paths apart at loop heads too (loops over lists of known length only)
        self.bools = set()     # input terms of type bool
        self.vpush_hook = None
        self.unroll_max = 70
        self.effect_hook = None
        self.loop_hook = None
        self.exit_split = set()
        self.const_cache = {}
        self.discr_ty = {}
        self.arrlen = {}
        self.volatile = set()
        self.reading = set()
        self.transparent = {'solana_program::pubkey::Pubkey'}
        import models
        models.install(self)

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root.op == 'const':
            return root.a[0]
        if root.op == 'L':
            return mk('undef', root)
        if root.op == 'deref':
            p = root.a[0]
            ops = self.phi_ops.get(p)
            if ops and p not in self.reading:
                self.reading.add(p)
                try:
                    vals = [self.read(st, deref_loc(o)) for o in ops]
                finally:
                    self.reading.discard(p)
                if all(x is vals[0] for x in vals):
                    return vals[0]
                if any(split_loc(deref_loc(o))[0] in st.mem for o in ops):
                    return mk('phird', p, *vals)
        if root.op == 'bv':
            return self.read(st, root.a[0])
        if root.op == 'asview' and root.a[2] in VIEWTY:
            return castval(self.read(st, root.a[0]), root.a[1], root.a[2])
        return mk('init', root)

    def read(self, st, loc):
        if loc.op == 'sl':
            return self.read_sl(st, loc)
        root, keys = split_loc(loc)
        v = self.root_value(st, root)
        if root.op == 'sl':
            v = self.read_sl(st, root)
        for k in keys:
            v = project(v, k)
        if v.op == 'init':
            return self.init_value(st, v)
        return v

    def init_value(self, st, v):
        # raw bytes of foreign account data may change across a CPI
        if st.epoch and len(v.a) == 1 and self.raw_bytes_loc(v.a[0]):
            return mk('init', v.a[0], st.epoch)
        return v

    def raw_bytes_loc(self, loc):
        return loc.op == 'idx' and loc.a[0].op == 'deref' and loc.a[0].a[0].op == 'init' and 'value' == (loc.a[0].a[0].a[0].a[2] if loc.a[0].a[0].a[0].op == 'fld' else None)

    def read_sl(self, st, loc):
        base, start, n = loc.a
        if base.op == 'bv':
            # byte view of a whole location: bit-identical to the location's value
            inner, size = base.a
            if is_int(start) and start.a[0] == 0 and is_int(n) and n.a[0] == size:
                return self.read(st, inner)
        if base.op == 'bvs':
            es = base.a[2]
            q = lambda x: from_terms({m: c // es for m, c in terms_of(x).items()}) if all(c % es == 0 for c in terms_of(x).values()) else None
            qs, qn = q(start), q(n)
            if qs is not None and qn is not None:
                return self.read_sl(st, mk('sl', base.a[0], qs, qn))
        if is_int(n) and is_int(start) and start.a[0] == 0 and self.arrlen.get(base) == n.a[0]:
            return self.read(st, base)
        bv = self.read(st, base)
        if is_int(n) and n.a[0] <= 64 and bv.op in ('agg', 'rep', 'upd') and not (bv.op == 'upd' and bv.a[0].op == 'init' and not is_int(start)):
            if bv.op == 'agg' and is_int(start) and start.a[0] == 0 and len(bv.a[1]) == n.a[0]:
                return bv
            if bv.op in ('agg', 'rep') or (bv.op == 'upd' and all(k[0] == 'i' for k, _ in bv.a[1])):
                return agg(('array',), [project(bv, ('i', add(start, I(j)))) for j in range(n.a[0])])
        if bv.op == 'bsub':
            es = bv.a[3]
            return mk('bsub', bv.a[0], add(bv.a[1], mul(start, I(es))), mul(n, I(es)), es, bv.a[4])
        if bv.op == 'bytes' and is_int(start) and is_int(n):
            return mk('bytes', bv.a[0][2 * start.a[0]:2 * (start.a[0] + n.a[0])])
        if bv.op == 'init':
            for r in st.mem:
                if r.op in ('view', 'viewarr') and r.a[0] is base:
                    return mk('mixed', base, start, n, mk('memo', *[x for r2 in sorted(st.mem, key=lambda z: z.id) if r2.op in ('view', 'viewarr') and r2.a[0] is base for x in (r2, st.mem[r2])]))
            return mk('bsub', base, start, n, 1, st.epoch)
        return mk('subval', bv, start, n)

    def write(self, st, loc, val):
        if loc.op == 'sl':
            base, start, n = loc.a
            if base.op == 'bv' and is_int(start) and start.a[0] == 0 and is_int(n) and n.a[0] == base.a[1]:
                return self.write(st, base.a[0], val)
            if base.op == 'bvs' and is_int(start) and is_int(n) and start.a[0] % base.a[2] == 0 and n.a[0] % base.a[2] == 0:
                es = base.a[2]
                return self.write(st, mk('sl', base.a[0], I(start.a[0] // es), I(n.a[0] // es)), val)
            if is_int(n) and is_int(start) and start.a[0] == 0 and self.arrlen.get(base) == n.a[0]:
                return self.write(st, base, val)
            if is_int(n) and n.a[0] <= 128:
                for j in range(n.a[0]):
                    self.write(st, mkidx(loc, I(j)), project(val, ('i', I(j))))
                return
            self.write(st, base, mk('slwrite', self.read(st, base), start, n, val))
            return
        root, keys = split_loc(loc)
        if root.op == 'view' and not keys:
            t = VIEWTY.get(root.a[2])
            if t is not None:
                for i, f in enumerate(t['v'][0]['f']):
                    l2 = mkfld(root, i, f[0], 0)
                    if l2.op == 'view':
                        self.write(st, l2, project(val, ('f', i, f[0], 0)))
        if root.op == 'bv':
            self.write(st, root.a[0], mk('bytewrite', self.read(st, root.a[0]), val))
            return
        if root.op == 'sl':
            self.write(st, root, mk('slw', val))
            return
        if root.op == 'asview' and root.a[2] in VIEWTY:
            if keys:
                val = update(self.root_value(st, root), keys, val)
            self.write(st, root.a[0], castval(val, root.a[2], root.a[1]))
            return
        if root.op == 'deref' and root.a[0] in self.phi_ops and root not in st.mem:
            for o in sorted(self.phi_ops[root.a[0]], key=lambda x: x.id):
                l2 = deref_loc(o)
                for k in keys:
                    l2 = childloc(l2, k)
                old = self.read(st, l2)
                if old is not val:
                    self.write(st, l2, mk('weak', root, tuple(keys), old, val))
            return
        if not keys:
            st.mem[root] = val
        else:
            st.mem[root] = update(self.root_value(st, root), keys, val)

    # ------------------------------------------------------------ facts
    def lookup(self, st, v):
        """constant of v if known"""
        if v.op == 'int':
            return v.a[0]
        f = st.facts.get(v)
        if f is not None and f[0] == 'in' and len(f[1]) == 1:
            return next(iter(f[1]))
        if v.op == 'not':
            x = self.lookup(st, v.a[0])
            return None if x is None else 1 - x
        if v.op == 'eq':
            a, b = v.a
            fa, fb = st.facts.get(a), st.facts.get(b)
            if is_int(b) and fa is not None:
                if fa[0] == 'in' and b.a[0] not in fa[1]:
                    return 0
                if fa[0] == 'ni' and b.a[0] in fa[1]:
                    return 0
            if is_int(a) and fb is not None:
                if fb[0] == 'in' and a.a[0] not in fb[1]:
                    return 0
                if fb[0] == 'ni' and a.a[0] in fb[1]:
                    return 0
        if v.op == 'poly':
            mp = {}
            for x in atoms(v):
                f = st.facts.get(x)
                if f is None or f[0] != 'in' or len(f[1]) != 1:
                    return None
                mp[x] = I(next(iter(f[1])))
            r = subst_poly(v, mp)
            return r.a[0] if is_int(r) else None
        if v.op == 'trunc' and f is None:
            c = self.lookup(st, v.a[0])
            return None if c is None else c & ((1 << v.a[1]) - 1)
        if v.op in ('band', 'bor', 'bxor', 'shl', 'shr', 'lt', 'bnot', 'cast') and f is None:
            cs = [self.lookup(st, x) if isinstance(x, V) else None for x in v.a if isinstance(x, V)]
            if cs and all(c is not None for c in cs):
                return fold(v.op, cs)
            # finite sets
            if v.op in ('band',) and len(cs) == 2:
                for p, q in ((0, 1), (1, 0)):
                    if cs[q] is not None:
                        fa = st.facts.get(v.a[p])
                        if fa is not None and fa[0] == 'in':
                            r = {x & cs[q] for x in fa[1]}
                            if len(r) == 1:
                                return next(iter(r))
        return None

    def possible(self, st, v):
        """finite value set if known"""
        c = self.lookup(st, v)
        if c is not None:
            return {c}
        f = st.facts.get(v)
        if f is not None and f[0] == 'in':
            return set(f[1])
        return None

    def constrain(self, st, v, kind, s):
        """intersect; False if infeasible"""
        c = self.lookup(st, v)
        if c is not None:
            return (c in s) if kind == 'in' else (c not in s)
        if v.op == 'int':
            return (v.a[0] in s) if kind == 'in' else (v.a[0] not in s)
        old = st.facts.get(v)
        s = frozenset(s)
        if old is None:
            new = (kind, s)
        elif old[0] == 'in' and kind == 'in':
            new = ('in', old[1] & s)
        elif old[0] == 'in':
            new = ('in', old[1] - s)
        elif kind == 'in':
            new = ('in', s - old[1])
        else:
            new = ('ni', old[1] | s)
        if new[0] == 'in' and not new[1]:
            return False
        st.facts[v] = new
        return True

    def assume(self, st, v, n):
        """assume v == n (int); returns False if infeasible"""
        if v.op == 'int':
            return v.a[0] == n
        if v.op == 'not':
            return self.assume(st, v.a[0], 1 - n)
        if v.op == 'and' and n == 1:
            return self.assume(st, v.a[0], 1) and self.assume(st, v.a[1], 1)
        c = self.lookup(st, v)
        if c is not None and c != n:
            return False
        if v.op == 'and':
            # a clause: drop the conjuncts that hold, propagate when one remains, a set when all compare one value
            rest, todo = [], [v]
            while todo:
                x = todo.pop()
                if x.op == 'and':
                    todo += x.a
                    continue
                y, w = (x.a[0], 0) if x.op == 'not' else (x, 1)
                k = y.a[0] if y.op == 'int' else self.lookup(st, y)
                if k is None and y.op == 'eq':
                    f = st.facts.get(y.a[0])
                    if f is not None and is_int(y.a[1]):
                        k = 0 if (f[0] == 'ni') == (y.a[1].a[0] in f[1]) else None
                if k is None:
                    rest.append(x)
                elif k != w:
                    return self.constrain(st, v, 'in', {0})
            if not rest:
                return False
            if len(rest) == 1:
                return self.assume(st, rest[0], 0) and self.constrain(st, v, 'in', {0})
            if all(x.op == 'not' and x.a[0].op == 'eq' and is_int(x.a[0].a[1]) and x.a[0].a[0] is rest[0].a[0].a[0] for x in rest):
                if not self.constrain(st, rest[0].a[0].a[0], 'in', {x.a[0].a[1].a[0] for x in rest}):
                    return False
            return self.constrain(st, v, 'in', {0})
        if v.op == 'eq':
            a, b = v.a
            if is_int(a):
                a, b = b, a
            if is_int(b):
                if n == 1:
                    if not self.assume_eq_int(st, a, b.a[0]):
                        return False
                else:
                    if not self.constrain(st, a, 'ni', {b.a[0]}):
                        return False
            return self.constrain(st, v, 'in', {n})
        if v.op in ('poly',):
            return self.assume_eq_int(st, v, n)
        return self.constrain(st, v, 'in', {n})

    def assume_eq_int(self, st, v, n):
        if v.op == 'poly':
            t = terms_of(v)
            k = t.pop((), 0)
            if len(t) == 1:
                (m, c), = t.items()
                if len(m) == 1 and c in (1, -1):
                    return self.constrain(st, m[0], 'in', {(n - k) * c})
        return self.constrain(st, v, 'in', {n})

    def assume_not(self, st, v, ns):
        if v.op == 'int':
            return v.a[0] not in ns
        c = self.lookup(st, v)
        if c is not None:
            return c not in ns
        if v.op in ('eq', 'lt', 'not', 'band1', 'boolop', 'and', 'or') and len(ns) == 1:
            return self.assume(st, v, 1 - next(iter(ns)))
        return self.constrain(st, v, 'ni', ns)

    def cmp_eq(self, st, a, b):
        if a is b:
            return ONE
        ca, cb = self.lookup(st, a), self.lookup(st, b)
        if ca is not None and cb is not None:
            return ONE if ca == cb else ZERO
        if ca is not None:
            a = I(ca)
        if cb is not None:
            b = I(cb)
        for u, w in ((a, b), (b, a)):
            if is_int(w) and u.op in ('eq', 'lt', 'not', 'and', 'or', 'boolop'):
                return u if w.a[0] == 1 else neg_bool(u) if w.a[0] == 0 else ZERO
            if is_int(w) and u.op == 'bnot' and w.a[0] >= 0:
                return self.cmp_eq(st, u.a[0], I(((1 << u.a[1]) - 1) ^ w.a[0]))
        if a.op == 'agg' and b.op == 'agg' and len(a.a[1]) == len(b.a[1]):
            if a.a[0][0] == 'adt' and b.a[0][0] == 'adt' and a.a[0][2] != b.a[0][2]:
                return ZERO
            r = ONE
            for x, y in zip(a.a[1], b.a[1]):
                c = self.cmp_eq(st, x, y)
                r = self.band(r, c)
            return r
        if a.op == 'bytes' and b.op == 'bytes':
            return ONE if a.a[0] == b.a[0] else ZERO
        if a.op == 'agg' and b.op == 'bytes':
            b = agg(('array',), [I(int(b.a[0][i:i + 2], 16)) for i in range(0, len(b.a[0]), 2)])
            if len(b.a[1]) == len(a.a[1]):
                return self.cmp_eq(st, a, b)
        if b.op == 'agg' and a.op == 'bytes':
            return self.cmp_eq(st, b, a)
        if a.op in ('poly', 'int') or b.op in ('poly', 'int'):
            d = sub(a, b)
            if is_int(d):
                return ONE if d.a[0] == 0 else ZERO
            if a.op == 'poly' or b.op == 'poly':
                # normal form: monic difference against a constant
                t = terms_of(d)
                k = t.pop((), 0)
                lead = min(t, key=lambda m: tuple(x.id for x in m))
                lhs = from_terms(t)
                if t[lead] < 0:
                    lhs, k = scale(lhs, -1), -k
                if lhs.op != 'poly':
                    a, b = lhs, I(-k)
                    ca = self.lookup(st, a)
                    if ca is not None:
                        return ONE if ca == -k else ZERO
                else:
                    a, b = lhs, I(-k)
        if b.id < a.id and not is_int(b):
            a, b = b, a
        if is_int(a):
            a, b = b, a
        t = mk('eq', a, b)
        c = self.lookup(st, t)
        return t if c is None else I(c)

    def band(self, a, b):
        if is_int(a):
            return b if a.a[0] else ZERO
        if is_int(b):
            return a if b.a[0] else ZERO
        if a is b:
            return a
        return mk('and', a, b) if a.id < b.id else mk('and', b, a)

    def cmp_ltu(self, st, a, b):
        """a < b for unsigned operands: comparisons with 0 and 1 become (in)equalities"""
        if is_int(a) and a.a[0] == 0 and not is_int(b):
            r = self.cmp_eq(st, b, ZERO)
            return I(1 - r.a[0]) if is_int(r) else mk('not', r)
        if is_int(b) and b.a[0] == 1 and not is_int(a):
            return self.cmp_eq(st, a, ZERO)
        return self.cmp_lt(st, a, b)

    def cmp_lt(self, st, a, b):
        if a is b:
            return ZERO
        ca, cb = self.lookup(st, a), self.lookup(st, b)
        if ca is not None:
            a = I(ca)
        if cb is not None:
            b = I(cb)
        if is_int(a) and is_int(b):
            return ONE if a.a[0] < b.a[0] else ZERO
        if is_int(b) and b.a[0] == 0 and a.op != 'poly':
            return ZERO  # unsigned (signed handled by caller)
        if is_int(b) and a.op == 'div' and is_int(a.a[1]) and a.a[1].a[0] > 0 and a.a[0].op == 'arg':
            return self.cmp_lt(st, a.a[0], I(b.a[0] * a.a[1].a[0]))
        if is_int(a) and b.op == 'div' and is_int(b.a[1]) and b.a[1].a[0] > 0 and b.a[0].op == 'arg':
            r = self.cmp_lt(st, b.a[0], I((a.a[0] + 1) * b.a[1].a[0]))
            return I(1 - r.a[0]) if is_int(r) else mk('not', r)
        if is_int(a):
            p = self.possible(st, b)
            if p is not None:
                rs = {a.a[0] < x for x in p}
                if len(rs) == 1:
                    return ONE if rs.pop() else ZERO
            f = st.facts.get(b)
            if a.a[0] == 0 and f is not None and f[0] == 'ni' and 0 in f[1]:
                return ONE
            if b.op == 'len' and a.a[0] < 24:
                # a recorded lower bound
                for k in range(a.a[0] + 1, 25):
                    if st.facts.get(mk('lt', b, I(k))) == ('in', frozenset({0})):
                        return ONE
        if is_int(b):
            if a.op == 'len' and b.a[0] < 24:
                for k in range(b.a[0], 25):
                    if st.facts.get(mk('lt', a, I(k))) == ('in', frozenset({0})):
                        return ZERO
            p = self.possible(st, a)
            if p is not None:
                rs = {x < b.a[0] for x in p}
                if len(rs) == 1:
                    return ONE if rs.pop() else ZERO
        t = mk('lt', a, b)
        c = self.lookup(st, t)
        if c is not None:
            return I(c)
        # a<b contradicts known b<a
        r = st.facts.get(mk('lt', b, a))
        if r is not None and r == ('in', frozenset({1})):
            return ZERO
        return t

    # ------------------------------------------------------------ operands
    def const_value(self, k):
        key = id(k)
        r = self.const_cache.get(key)
        if r is None:
            r = (self._const(k), k)
            self.const_cache[key] = r
        return r[0]

    def _const(self, k):
        t = self.prog.types[k['t']]
        if 'i' in k:
            return I(int(k['i']))
        if 'fn' in k:
            return mk('fn', k['fn'].get('key'), k['fn']['path'], tuple(k['fn'].get('targs', ())), k['fn'].get('kind', 'item'))
        if 'fnptr' in k:
            return mk('fn', k['fnptr'].get('key'), k['fnptr']['path'], tuple(k['fnptr'].get('targs', ())), k['fnptr'].get('kind', 'item'))
        if 'bytes' in k:
            b = mk('bytes', k['bytes'])
            if t['k'] in ('ref', 'ptr'):
                n = len(k['bytes']) // 2
                return mk('slice', mk('const', b), ZERO, I(n))
            return b
        if 'str' in k:
            return mk('str', k['str'])
        if 'ref' in k:
            inner = self._const(k['ref'])
            return mk('ptr', mk('const', inner))
        if 'arr' in k:
            return agg(('array',), [self._const(x) for x in k['arr']])
        if 'slice' in k:
            a = agg(('array',), [self._const(x) for x in k['slice']])
            return mk('slice', mk('const', a), ZERO, I(len(k['slice'])))
        if 'fields' in k:
            fs = [self._const(x) for x in k['fields']]
            if t['k'] == 'tuple':
                return agg(('tuple',), fs)
            if t.get('path') in self.transparent:
                return fs[0]
            return agg(self.adt_tag(k['t'], k['var']), fs)
        if 'zst' in k:
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] in ('enum', 'struct'):
                return agg(self.adt_tag(k['t'], 0), [])
            if t['k'] == 'closure':
                return mk('agg', ('closure', self.closure_key(t['s'], t.get('path'))), ())
            if t['k'] == 'array':
                return agg(('array',), [])
            return mk('zst', t['s'])
        if 'static' in k:
            if k.get('sbytes'):
                self.prog.statics[k['static']] = k['sbytes']
            return mk('ptr', mk('deref', mk('arg', 'static:' + k['static'])))
        return mk('constant', k.get('name') or k.get('uneval') or t['s'])

    def closure_key(self, s, path):
        fs = self.prog.bypath.get(path) or []
        return fs[0].key if fs else path

    def adt_tag(self, tid, variant):
        t = self.prog.types[tid]
        return ('adt', t['path'], variant, t['v'][variant]['n'] if variant < len(t['v']) else '?')

    def operand(self, st, fr, o):
        if 'c' in o:
            return self.read(st, self.place(st, fr, o['c']))
        if 'm' in o:
            return self.read(st, self.place(st, fr, o['m']))
        if 'k' in o:
            return self.const_value(o['k'])
        return ZERO  # runtime checks disabled

    def place(self, st, fr, pl):
        loc = mk('L', fr.fid, pl[0])
        var = 0
        types = self.prog.types
        cur = types[fr.fn.locals[pl[0]]]
        for e in pl[1:]:
            if e == '*':
                loc = deref_loc(self.read(st, loc))
                var = 0
                cur = types[cur['e']] if cur is not None and 'e' in cur else None
                if cur is not None and cur['k'] == 'array' and cur.get('n') is not None:
                    if loc.op == 'sl':
                        pass
                    else:
                        self.arrlen[loc] = cur['n']
            elif e[0] == 'f':
                if cur is not None and cur.get('path') in self.transparent:
                    cur = types[e[3]]
                    continue
                loc = mkfld(loc, e[1], e[2], var)
                var = 0
                cur = types[e[3]]
                if cur['k'] == 'array' and cur.get('n') is not None:
                    self.arrlen[loc] = cur['n']
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'i':
                cur = types[cur['e']] if cur is not None and 'e' in cur else None
                i = self.read(st, mk('L', fr.fid, e[1]))
                c = self.lookup(st, i)
                loc = mkidx(loc, I(c) if c is not None else i)
            elif e[0] == 'ci':
                cur = types[cur['e']] if cur is not None and 'e' in cur else None
                if e[3]:
                    loc = mkidx(loc, sub(self.len_of(st, loc), I(e[1])))
                else:
                    loc = mkidx(loc, I(e[1]))
            elif e[0] == 'ss':
                cur = None
                n = self.len_of(st, loc)
                if e[3]:
                    ln = sub(n, I(e[1] + e[2]))
                else:
                    ln = I(e[2] - e[1])
                if loc.op == 'sl':
                    loc = mk('sl', loc.a[0], add(loc.a[1], I(e[1])), ln)
                else:
                    loc = mk('sl', loc, I(e[1]), ln)
            else:
                loc = mk('fld', loc, 0, '?', 0)
        return loc

    def len_of(self, st, loc):
        if loc.op == 'sl':
            return loc.a[2]
        if loc in self.arrlen:
            return I(self.arrlen[loc])
        if loc.op == 'deref':
            return mk('len', loc.a[0])
        v = self.read(st, loc)
        if v.op == 'agg':
            return I(len(v.a[1]))
        if v.op == 'rep' and v.a[1] is not None:
            return I(v.a[1])
        return mk('len', mkref(loc))

    def ptr_len(self, st, v):
        if v.op == 'slice':
            return v.a[2]
        if v.op == 'str':
            return I(len(v.a[0].encode()))
        if v.op == 'agg':
            return self.ptr_len(st, mkref(deref_loc(v))) if deref_loc(v).op != 'deref' else mk('len', v)
        if v.op == 'ptr':
            return self.len_of(st, v.a[0])
        r = mk('len', v)
        c = self.lookup(st, r)
        return I(c) if c is not None else r

    def to_slice(self, st, v):
        """(base, start, len) of a fat pointer value"""
        if v.op == 'slice':
            return v.a
        if v.op == 'ptr':
            loc = v.a[0]
            if loc.op == 'sl':
                return loc.a
            return (loc, ZERO, self.len_of(st, loc))
        if v.op == 'str':
            b = mk('bytes', v.a[0].encode().hex())
            return (mk('const', b), ZERO, I(len(v.a[0].encode())))
        loc = deref_loc(v)
        if loc.op == 'deref':
            return (loc, ZERO, self.ptr_len(st, v))
        if loc.op == 'sl':
            return loc.a
        return (loc, ZERO, self.len_of(st, loc))

    # ------------------------------------------------------------ rvalues
    def discr_of(self, st, v):
        if v.op == 'agg' and v.a[0][0] == 'adt':
            return v.a[0]
        return None

    def rvalue(self, st, fr, rv, dst_ty=None):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            return mkref(self.place(st, fr, rv[1]))
        if k == 'agg':
            fs = [self.operand(st, fr, o) for o in rv[2]]
            t = rv[1]
            if t[0] == 'adt':
                if t[4] is not None:
                    return mk('union', t[4], fs[0])
                if self.prog.types[t[1]].get('path') in self.transparent:
                    return fs[0]
                return agg(self.adt_tag(t[1], t[2]), fs)
            if t[0] == 'closure':
                return agg(('closure', t[1]), fs)
            if t[0] == 'rawptr':
                # (data ptr, metadata)
                p, m = fs
                if m.op == 'agg':
                    return p
                loc = deref_loc(p)
                if loc.op == 'idx':
                    return mkref(mk('sl', loc.a[0], loc.a[1], m))
                if loc.op == 'sl':
                    return mkref(mk('sl', loc.a[0], loc.a[1], m))
                return mkref(mk('sl', loc, ZERO, m))
            return agg((t[0],), fs)
        if k == 'discr':
            v = self.read(st, self.place(st, fr, rv[1]))
            return self.discr(st, v, rv[2])
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4])
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                t = self.prog.types[rv[3]]
                if t['k'] == 'bool':
                    if is_int(a):
                        return I(1 - a.a[0])
                    return a.a[0] if a.op == 'not' else mk('not', a)
                if is_int(a):
                    bits = t['bits']
                    return I((~a.a[0]) & ((1 << bits) - 1)) if t['k'] == 'uint' else I(~a.a[0])
                return mk('bnot', a, t['bits'])
            if rv[1] == 'Neg':
                return scale(a, -1)
            if rv[1] == 'PtrMetadata':
                return self.ptr_len(st, a)
            return mk('un', rv[1], a)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n is not None and n <= 16:
                return agg(('array',), [v] * n)
            return mk('rep', v, n)
        return mk('opaque', 'rv', fr.fid)

    def discr(self, st, v, tid):
        t = self.prog.types[tid]
        if v.op == 'agg' and v.a[0][0] == 'adt':
            vi = v.a[0][2]
            return I(int(t['v'][vi]['d'])) if t['k'] == 'enum' else I(vi)
        if v.op == 'int':
            return v  # fieldless enum constant reinterpretation
        if v.op == 'upd':
            return self.discr(st, v.a[0], tid)
        d = mk('discr', v)
        self.discr_ty[d] = t.get('path', t['s'])
        c = self.lookup(st, d)
        return I(c) if c is not None else d

    def binop(self, st, op, a, b, tid):
        t = self.prog.types[tid]
        with_ovf = op.endswith('WithOverflow')
        if with_ovf:
            op = op[:-12]
        op = op.replace('Unchecked', '')
        if op in ('Eq', 'Ne'):
            r = self.cmp_eq(st, a, b)
            if op == 'Ne':
                r = I(1 - r.a[0]) if is_int(r) else (r.a[0] if r.op == 'not' else mk('not', r))
            return r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            neg = False
            if op == 'Gt':
                a, b = b, a
            elif op == 'Ge':
                neg = True
            elif op == 'Le':
                a, b = b, a
                neg = True
            if t['k'] == 'int' and is_int(b) and b.a[0] == 0 and not is_int(a):
                r = mk('lt', a, b)
                c = self.lookup(st, r)
                r = r if c is None else I(c)
            elif t['k'] == 'uint':
                r = self.cmp_ltu(st, a, b)
            else:
                r = self.cmp_lt(st, a, b)
            if neg:
                r = I(1 - r.a[0]) if is_int(r) else (r.a[0] if r.op == 'not' else mk('not', r))
            return r
        if op == 'Offset':
            return ptr_offset(a, b)
        ca, cb = self.lookup(st, a), self.lookup(st, b)
        if ca is not None and op not in ('Add', 'Sub', 'Mul'):
            a = I(ca)
        if cb is not None:
            b = I(cb) if op not in ('Add', 'Sub') else b
        r = None
        if op == 'Add':
            r = add(a, b)
        elif op == 'Sub':
            r = sub(a, b)
        elif op == 'Mul':
            r = mul(a, b)
        if r is not None:
            if is_int(r):
                r = wrap_int(r, t)
            if with_ovf:
                return agg(('tuple',), [r, mk('ovf', op, a, b, tid) if not (is_int(a) and is_int(b)) else ZERO])
            return r
        if t['k'] == 'bool' or True:
            n = {'BitAnd': 'band', 'BitOr': 'bor', 'BitXor': 'bxor', 'Shl': 'shl', 'Shr': 'shr', 'Div': 'div', 'Rem': 'rem', 'Cmp': 'cmp'}.get(op, op)
        if t['k'] == 'bool' and n in ('band', 'bor', 'bxor'):
            if n == 'band':
                return self.band(a, b)
            if n == 'bor':
                if is_int(a):
                    return ONE if a.a[0] else b
                if is_int(b):
                    return ONE if b.a[0] else a
                return neg_bool(self.band(neg_bool(a), neg_bool(b)))
            if is_int(a):
                return neg_bool(b) if a.a[0] else b
            if is_int(b):
                return neg_bool(a) if b.a[0] else a
            return mk('boolop', n, a, b)
        if is_int(a) and is_int(b):
            x = fold(n, [a.a[0], b.a[0]])
            if x is not None:
                return wrap_int(I(x), t)
        if n in ('band', 'bor', 'bxor'):
            if is_int(a):
                a, b = b, a
            elif not is_int(b) and b.id < a.id:
                a, b = b, a
            if is_int(b) and b.a[0] == 0:
                return ZERO if n == 'band' else a
            if is_int(b) and t['k'] == 'uint' and b.a[0] == (1 << t['bits']) - 1 and n == 'band':
                return a
            if a is b and n in ('band', 'bor'):
                return a
            if n == 'band' and is_int(b) and b.a[0] == 1 and a.op == 'shr' and t['k'] == 'uint':
                # (x >> s) & 1  is  x & (1 << s) != 0
                m = self.lookup_or(st, mk('band', *sorted((a.a[0], mk('shl', ONE, a.a[1], t['bits'])), key=lambda z: z.id))) if not is_int(a.a[1]) else mk('band', a.a[0], I(1 << a.a[1].a[0]))
                return neg_bool(self.cmp_eq(st, m, ZERO))
        if n == 'shl' and is_int(b):
            return mk('shl', a, b, t.get('bits', 64)) if b.a[0] else a
        if n == 'shr' and is_int(b) and b.a[0] == 0:
            return a
        if n in ('shl',):
            return mk('shl', a, b, t.get('bits', 64))
        if n == 'div' and is_int(b) and b.a[0] == 1:
            return a
        r = mk(n, a, b)
        c = self.lookup(st, r)
        return r if c is None else I(c)

    def lookup_or(self, st, v):
        c = self.lookup(st, v)
        return v if c is None else I(c)

    def cast(self, st, kind, v, tid, fid):
        t = self.prog.types[tid]
        f = self.prog.types[fid]
        if kind == 'IntToInt' or kind in ('PointerExposeProvenance', 'PointerWithExposedProvenance'):
            if f['k'] == 'enum' and v.op == 'agg':
                vi = v.a[0][2]
                return I(int(f['v'][vi]['d']))
            if f['k'] == 'enum':
                d = mk('discr', v)
                c = self.lookup(st, d)
                return I(c) if c is not None else d
            if is_int(v):
                return wrap_int(v, t)
            tb, fb = t.get('bits'), f.get('bits', 1 if f['k'] == 'bool' else None)
            if tb is not None and fb is not None:
                if tb > fb or (tb == fb and t['k'] == f['k']):
                    # widening of an atom is value preserving; of a wrapped sum it is not
                    if v.op == 'poly':
                        return mk('zext', v, fb)
                    return v
                if tb == fb:
                    if all(x.op == 'len' or (x.op == 'div' and x.a[0].op in ('poly', 'len')) for x in atoms(v)):
                        return v        # lengths never exceed isize::MAX
                    return mk('sgn', v, t['k'])
                if v.op == 'zext' and v.a[1] <= tb:
                    return v.a[0]
                if v.op in ('trailing_zeros', 'leading_zeros', 'count_ones') and tb >= 8:
                    return v        # at most 128
                if t['k'] == 'uint' and f['k'] == 'uint':
                    c = self.lookup(st, v)
                    if c is not None:
                        return I(c & ((1 << tb) - 1))
                    if self.cmp_lt(st, I((1 << tb) - 1), v) is ZERO:
                        return v
                return mk('trunc', v, tb)
            return v
        if kind.startswith('coerce:'):
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
                return v
            if 'Unsize' in kind:
                te = self.prog.types[t['e']] if 'e' in t else None
                fe = self.prog.types[f['e']] if 'e' in f else None
                if te is not None and te['k'] == 'slice' and fe is not None and fe['k'] == 'array':
                    if fe['n'] is not None and v.op != 'slice':
                        self.arrlen[deref_loc(v)] = fe['n']
                    if v.op == 'ptr':
                        loc = v.a[0]
                        return mkref(mk('sl', loc, ZERO, I(fe['n']))) if fe['n'] is not None else v
                    if v.op == 'slice':
                        return v
                    if fe['n'] is not None:
                        return mk('slice', mk('deref', v), ZERO, I(fe['n']))
                return v
            return v
        if kind == 'PtrToPtr':
            return self.ptrcast(st, v, t, f)
        if kind == 'Transmute':
            if f['k'] in ('ref', 'ptr') and t['k'] in ('ref', 'ptr'):
                return self.ptrcast(st, v, t, f)
            return v
        return v

    def ptrcast(self, st, v, t, f):
        if 'e' not in t or 'e' not in f:
            return v
        te, fe = self.prog.types[t['e']], self.prog.types[f['e']]
        if te['s'] == fe['s']:
            return v
        loc = deref_loc(v)
        # *T -> *[T;N]
        if te['k'] == 'array' and fe['k'] != 'array' and fe['k'] != 'slice' and te.get('n') is not None:
            ete = self.prog.types[te['e']]
            if ete['s'] == fe['s'] or ete.get('size') == fe.get('size'):
                if loc.op == 'idx':
                    return mk('slice', loc.a[0], loc.a[1], I(te['n']))
                if loc.op == 'sl':
                    return mk('slice', loc.a[0], loc.a[1], I(te['n']))
        if te['k'] == 'array' and fe['k'] == 'slice' and te.get('n') is not None and loc.op == 'sl':
            return mk('slice', loc.a[0], loc.a[1], I(te['n']))
        if fe['k'] in ('array', 'slice') and te['k'] not in ('array', 'slice'):
            if self.prog.types[fe['e']]['s'] == te['s']:
                if loc.op == 'sl':
                    return mkref(mkidx2(loc.a[0], loc.a[1]))
                return mkref(mkidx2(loc, ZERO))
        return v

    # ------------------------------------------------------------ execution
    def skel(self, v, depth, ptrs):
        op = v.op
        if op == 'agg':
            t = v.a[0]
            if t[0] == 'adt':
                if t[1] in self.ignore_types:
                    return None
                p = t[1]
                if p == 'vec':
                    return 'vec'
                if p == 'chunks':
                    return v if is_int(v.a[1][1]) and is_int(v.a[1][2]) else 'chunks'
                if p.startswith(RANGE_TY) or p == 'iter':
                    if all(self.concrete(x) for x in v.a[1]):
                        return v
                    if p == 'iter' and len(v.a[1]) >= 3 and is_int(v.a[1][1]) and is_int(v.a[1][2]) and v.a[1][2].a[0] <= 16:
                        return v
                    if p == 'iter' and len(v.a[1]) >= 3:
                        n = sub(v.a[1][2], v.a[1][1])
                        if is_int(n) and n.a[0] <= self.unroll_max:
                            return v
                    return (p, self.skel(v.a[1][0], depth - 1, ptrs) if p == 'iter' and v.a[1] else None)
                if p == 'core::iter::adapters::take::Take' and is_int(v.a[1][1]) and v.a[1][1].a[0] <= self.unroll_max:
                    return v
                if depth <= 0:
                    return (t[2], t[3])
                isenum = t[4] if len(t) > 4 else True
                if t[3] == 'Err':
                    return (t[2],) + self.err_skel(v)
                sub_ = tuple(self.skel(x, depth - 1, ptrs) for x in v.a[1])
                return (t[2], t[3], sub_)
            if depth <= 0:
                return None
            sub_ = tuple(self.skel(x, depth - 1, ptrs) for x in v.a[1][:16])
            if all(s is None for s in sub_):
                return None
            return sub_
        if op == 'upd':
            return self.skel(v.a[0], depth, ptrs) if v.a[0].op == 'agg' else None
        if ptrs:
            if op == 'ptr':
                return v
            if op == 'slice':
                return v.a[0]
        return None

    def err_skel(self, v):
        if self.precise_err:
            p = v.a[1][0]
            return (self.skel(p, 2, False),)
        return ()

    def concrete(self, v):
        if v.op == 'int' or v.op == 'zst' or v.op == 'ptr':
            return True
        if v.op == 'agg':
            return all(self.concrete(x) for x in v.a[1])
        return False

    def split_facts(self, st):
        if not self.split_types and self.split_term is None:
            return ()
        out = []
        dt = self.discr_ty
        for f, c in st.facts.items():
            if (f.op == 'discr' and dt.get(f) in self.split_types) or (self.split_term is not None and self.split_term(f)):
                out.append((f.id, c))
        out.sort(key=lambda x: x[0])
        return tuple(out)

    def block_key(self, st, fr, bb, ptrs=True):
        ks = []
        P = fr.prep
        types = self.prog.types
        for l in P.keylocals[bb]:
            v = st.mem.get(mk('L', fr.fid, l))
            if v is None:
                continue
            if v.op == 'int':
                if types[fr.fn.locals[l]]['k'] == 'bool':
                    ks.append((l, v.a[0]))
                continue
            s = self.skel(v, 3, ptrs)
            if s is not None:
                ks.append((l, s))
        if self.nomerge is not None and (self.headsplit or bb not in P.heads) and self.nomerge(st, fr):
            ks.append(frozenset(st.facts.items()))
        return (tuple(ks), st.log, st.ts, self.split_facts(st))

    def exit_key(self, st, ret, entry_mem):
        ks = [self.skel(ret, 3, True) if ret.op != 'int' else ret.a[0] if ret.a[0] in (0, 1) else None]
        for r, v in st.mem.items():
            if r.op == 'L' and entry_mem.get(r) is not v:
                s = self.skel(v, 2, True)
                if s is not None:
                    ks.append((r, s))
                elif v.op == 'int' and v.a[0] in (0, 1):
                    ks.append((r, v.a[0]))
        if self.nomerge is not None and self.nomerge(st, None) and (self.precise_err or not (ret.op == 'agg' and ret.a[0][0] == 'adt' and ret.a[0][3] == 'Err')):
            ks.append(frozenset(st.facts.items()))
        return (tuple(ks), st.log, st.ts, self.split_facts(st))

    # joins
    def saturate(self, st):
        """flag words (x == x & mask recorded): the set of values the facts about x leave, when small, so that a join
        keeps it however the comparisons were written"""
        xs = None
        for v, (k, s) in st.facts.items():
            if v.op == 'eq' and k == 'in' and s == {1} and v.a[1].op == 'band' and v.a[1].a[0] is v.a[0] and is_int(v.a[1].a[1]) and v.a[1].a[1].a[0] < 4096:
                x, b = v.a
                fx, fb = st.facts.get(x), st.facts.get(b)
                if not (fx and fx[0] == 'in' or fb and fb[0] == 'in'):
                    xs = (xs or []) + [(x, b)]
        for x, b in xs or ():
            fs = []
            for f, (k, s) in st.facts.items():
                if f.op in ('eq', 'lt', 'band', 'and', 'or', 'not', 'init', 'bor', 'bxor') and x in atoms_of(f):
                    fs.append((f, k, s))
            key = (x, tuple(sorted((f.id, k, tuple(sorted(s))) for f, k, s in fs)))
            r = self.sat_cache.get(key)
            if r is None:
                m = b.a[1].a[0]
                r = set()
                for n in range(m + 1):
                    if n & m != n:
                        continue
                    env = {x: n}
                    for f, k, s in fs:
                        e = ev(f, env)
                        if e is not None and (e in s) != (k == 'in'):
                            break
                    else:
                        r.add(n)
                        if len(r) > 16:
                            break
                self.sat_cache[key] = r
            if len(r) <= 16:
                st.facts[x] = ('in', frozenset(r))
                st.facts[b] = ('in', frozenset(r))

    def join(self, old, new, ctx):
        self.stats['joins'] += 1
        self.saturate(old)
        self.saturate(new)
        changed = False
        r = State.__new__(State)
        r.log = old.log
        r.ts = old.ts
        r.u = max(old.u, new.u)
        r.epoch = max(old.epoch, new.epoch)
        r.pre = old.pre
        # facts
        facts = {}
        for v, f in old.facts.items():
            g = new.facts.get(v)
            if g is None:
                c = self.lookup(new, v)
                if c is not None:
                    g = ('in', frozenset({c}))
                else:
                    changed = True
                    continue
            if f == g:
                facts[v] = f
                continue
            if f[0] == 'in' and g[0] == 'in':
                n = ('in', f[1] | g[1])
                if len(n[1]) > 16 or (v.op in ('eq', 'lt', 'and', 'boolop') and len(n[1]) == 2):
                    n = None
            elif f[0] == 'ni' and g[0] == 'ni':
                n = ('ni', f[1] & g[1]) if (f[1] & g[1]) else None
            elif f[0] == 'in':
                s = g[1] - f[1]
                n = ('ni', s) if s else None
            else:
                s = f[1] - g[1]
                n = ('ni', s) if s else None
            if n != f:
                changed = True
            if n is not None:
                facts[v] = n
        for v, g in new.facts.items():
            if v not in old.facts:
                c = self.lookup(old, v)
                if c is not None and g[0] == 'in':
                    n = g[1] | {c}
                    if len(n) <= 16 and not (v.op in ('eq', 'lt', 'and', 'boolop') and len(n) == 2):
                        facts[v] = ('in', n)
                        # weaker than old (implied) -> not a change of information
        r.facts = facts
        # memory
        mem = {}
        diffs = []
        for root in old.mem:
            a = old.mem[root]
            b = new.mem.get(root)
            if b is None:
                if root.op == 'L':
                    changed = True
                    continue
                b = self.root_value(new, root)
            if a is b:
                mem[root] = a
            else:
                diffs.append((root, a, b))
        for root in new.mem:
            if root not in old.mem and root.op != 'L':
                a = self.root_value(old, root)
                b = new.mem[root]
                if a is b:
                    mem[root] = a
                else:
                    diffs.append((root, a, b))
        if diffs:
            leaves = []
            for root, a, b in diffs:
                self.leafdiff((root,), a, b, leaves)
            smap = {}
            for path, a, b in leaves:
                if a.op == 'phi' and a.a[0] is ctx and a.a[1] == path:
                    smap[a] = b
            repl = {}
            rel = []
            for path, a, b in leaves:
                if a.op in ('eq', 'lt', 'not', 'and', 'or', 'boolop') and b.op in ('eq', 'lt', 'not', 'and', 'or', 'boolop', 'int'):
                    ca = self.lookup(old, a)
                    if ca is not None and self.lookup(new, b) == ca:
                        repl[path] = I(ca)
                        changed = True
                        continue
                if a.op == 'int' and b.op != 'int' and b.op not in ('agg', 'ptr', 'slice', 'upd') and self.lookup(new, b) == a.a[0]:
                    repl[path] = a
                    continue
                if a.op == 'int' and b.op != 'int' and b.op not in ('agg', 'ptr', 'slice', 'upd') and self.lookup(old, b) == a.a[0]:
                    repl[path] = b
                    changed = True
                    continue
                if b.op == 'int' and a.op != 'int' and a.op not in ('agg', 'ptr', 'slice', 'upd') and self.lookup(new, a) == b.a[0]:
                    repl[path] = a
                    continue
                if a.op == 'int' and b.op == 'int' and a.a[0] in (0, 1) and b.a[0] in (0, 1):
                    # a flag that repeats an input flag both sides tested
                    f = next((t for t in self.bools if self.boolfact(old, t) == a.a[0] and self.boolfact(new, t) == b.a[0]), None)
                    if f is not None:
                        repl[path] = f
                        changed = True
                        continue
                if a in smap and a.a[1] == path:
                    repl[path] = a
                    self.phi_note(a, b)
                    continue
                if smap and subst_poly(a, smap) is b:
                    repl[path] = a
                    continue
                # affine relation with an earlier new phi
                done = False
                if a.op not in ('ptr', 'agg', 'slice', 'upd', 'undef', 'fn') and b.op not in ('ptr', 'agg', 'slice', 'upd', 'undef', 'fn'):
                    d = sub(b, a)
                    for a0, d0, p0 in rel:
                        c = ratio(d, d0)
                        if c is not None:
                            repl[path] = add(a, scale(sub(p0, a0), c))
                            done = True
                            break
                    if not done:
                        p = mk('phi', ctx, path)
                        rel.append((a, d, p))
                        self.phi_note(p, a)
                        self.phi_note(p, b)
                        repl[path] = p
                        done = True
                if not done:
                    p = mk('phi', ctx, path)
                    self.phi_note(p, a)
                    self.phi_note(p, b)
                    repl[path] = p
                changed = True
            for root, a, b in diffs:
                nv = self.rebuild((root,), a, b, repl)
                mem[root] = nv
                if nv is not a:
                    changed = True
        r.mem = mem
        return r, changed

    def boolfact(self, st, t):
        k, s = st.facts.get(t, ('ni', ()))
        return 0 if (k, s) == ('in', {0}) else 1 if (k, s) == ('in', {1}) or k == 'ni' and 0 in s else None

    def phi_note(self, p, v):
        if v.op == 'vpush':
            self.vec_phis.setdefault(p, set()).add(v.a[2])
            q = v.a[0]
            while q.op == 'vpush':
                self.vec_phis[p].add(q.a[2])
                q = q.a[0]
            if q.op == 'agg' and q.a[0] == ('array',):
                self.vec_phis[p].update(q.a[1])
            elif q is not p:
                self.vec_phis[p].update(self.vec_phis.get(q, ()))
        elif v.op == 'agg' and v.a[0] == ('array',):
            self.vec_phis.setdefault(p, set()).update(v.a[1])
        elif v in self.vec_phis and v is not p:
            self.vec_phis.setdefault(p, set()).update(self.vec_phis[v])
        if v.op in ('ptr', 'slice') or (v.op == 'init') or v.op == 'arg':
            s = self.phi_ops.setdefault(p, set())
            if v.op in ('ptr', 'slice'):
                s.add(v)
            elif s:
                s.add(v)
            if not s:
                del self.phi_ops[p]

    def leafdiff(self, path, a, b, out):
        if a is b:
            return
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                if x is not y:
                    self.leafdiff(path + (i,), x, y, out)
            return
        ka = self.upd_keys(a, b)
        if ka is not None:
            for k in ka:
                x, y = project(a, k), project(b, k)
                if x is not y:
                    self.leafdiff(path + (k,), x, y, out)
            return
        out.append((path, a, b))

    def upd_keys(self, a, b):
        """if a and b are field-overrides of the same base: the union of keys"""
        ba = a.a[0] if a.op == 'upd' else a
        bb = b.a[0] if b.op == 'upd' else b
        if ba is not bb or (a.op != 'upd' and b.op != 'upd'):
            return None
        ks = []
        for v in (a, b):
            if v.op == 'upd':
                for k, _ in v.a[1]:
                    if k not in ks:
                        ks.append(k)
        if any(k[0] == 'i' for k in ks):
            if not all(k[0] == 'i' and is_int(k[1]) for k in ks):
                # same single symbolic index
                if len(ks) == 1:
                    return ks
                return None
        return ks

    def rebuild(self, path, a, b, repl):
        if a is b:
            return a
        if path in repl:
            return repl[path]
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            return mk('agg', a.a[0], tuple(self.rebuild(path + (i,), x, y, repl) for i, (x, y) in enumerate(zip(a.a[1], b.a[1]))))
        ks = self.upd_keys(a, b)
        base = a.a[0] if a.op == 'upd' else a
        r = base
        for k in ks:
            r = setfield(r, k, self.rebuild(path + (k,), project(a, k), project(b, k), repl))
        return r

    def call_fn(self, fn, args, st, fid):
        """analyse fn with argument values; list of (state, ret)"""
        fr = Frame(fn, fn.prep(self.prog), fid)
        self.stats['fns'].add(fn.key)
        if fr.depth > self.max_depth:
            raise Unsupported('depth ' + fn.path)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[mk('L', fid, i + 1)] = a
        P = fr.prep
        exits = self.solve(fr, st)
        rl = mk('L', fid, 0)
        for s, r in exits:
            s.mem.pop(rl, None)
            if st.pre is not None:
                s.pre = st.pre
        return exits

    def solve(self, fr, st):
        P = fr.prep
        rec = self.recording
        if P.heads:
            self.recording = False
            try:
                entry, exits = self.fix(fr, st)
            finally:
                self.recording = rec
            return self.record_pass(fr, st, entry)
        return self.fix(fr, st)[1]

    def arrive(self, fr, entry, pending, bb, st, frm, exits_only=False):
        P = fr.prep
        # forget dead locals
        keep = P.keep[bb]
        fid = fr.fid
        for r in [r for r in st.mem if r.op == 'L' and r.a[0] is fid and r.a[1] not in keep]:
            del st.mem[r]
        mark = None
        if bb in P.heads:
            if not self.unrolling(st, fr, bb):
                cut = None
                isback = (frm, bb) in P.back
                if isback:
                    # truncate to the loop marker
                    for i in range(len(st.log) - 1, -1, -1):
                        e = st.log[i]
                        if e.op == 'loop' and e.a[0] is fid and e.a[1] == bb:
                            cut = i
                            break
                    if cut is not None:
                        st.log = st.log[:cut]
                        for r in [r for r in st.mem if self.is_volatile(r)]:
                            del st.mem[r]
                mark = True
            else:
                st.u += 1
        key = self.block_key(st, fr, bb)
        if mark:
            mark = mk('loop', fid, bb, fr.fn.path, self.keyid((fid, bb, key)))
            st.log = st.log + (mark,)
            if frm is None or (frm, bb) not in P.back:
                self.head_init.setdefault(mark, st)
        d = entry.setdefault(bb, {})
        if key not in d and len(d) >= self.max_parts:
            self.stats['merged_over'] += 1
            key = self.block_key(st, fr, bb, ptrs=False)
        old = d.get(key)
        if old is None:
            d[key] = st
            if mark:
                self.head_state[mark] = st
            pending.setdefault(bb, {})[key] = True
            return
        ctx = mk('ctx', fid, bb, self.keyid(key))
        j, ch = self.join(old, st, ctx)
        if ch:
            d[key] = j
            if mark:
                self.head_state[mark] = j
            pending.setdefault(bb, {})[key] = True

    def is_volatile(self, r):
        c = self.__dict__.setdefault('_vol', {})
        v = c.get(r)
        if v is None:
            v = False
            if r.op != 'L':
                v = any(x.op in self.volatile for x in walk(r))
            c[r] = v
        return v

    def keyid(self, key):
        m = self.__dict__.setdefault('_keyids', {})
        i = m.get(key)
        if i is None:
            i = len(m)
            m[key] = i
        return i

    def unrolling(self, st, fr, bb):
        """a live local of this frame is a fully concrete iterator that drives the loop"""
        P = fr.prep
        for l in P.keylocals[bb]:
            v = st.mem.get(mk('L', fr.fid, l))
            if v is not None and self.has_concrete_iter(v, 4) and l in self.loop_used(fr, bb):
                return True
        return False

    def loop_used(self, fr, bb):
        P = fr.prep
        c = P.__dict__.setdefault('_lu', {})
        if bb not in c:
            used = set()
            for b in P.loop_body.get(bb, ()):
                blk = fr.fn.bbs[b]
                for s in blk['s']:
                    if s[0] == '=':
                        ops, pls, refs = rv_uses(s[2])
                        for p in refs:
                            used.add(p[0])
                        for p in pls:
                            used.add(p[0])
                        for o in ops:
                            for p in op_places(o):
                                used.add(p[0])
                t = blk['t']
                if t[0] == 'call':
                    for o in t[2]:
                        for p in op_places(o):
                            used.add(p[0])
            c[bb] = used
        return c[bb]

    def has_concrete_iter(self, v, depth):
        if depth < 0:
            return False
        if v.op == 'ptr':
            return False
        if v.op != 'agg':
            return False
        t = v.a[0]
        if t[0] == 'adt' and (t[1] in ('iter', 'chunks') or t[1].startswith(RANGE_TY)) and v.a[1]:
            if t[1] in ('iter', 'chunks'):
                _, s, e = v.a[1][:3]
                n = sub(e, s)
                return is_int(n) and n.a[0] // (v.a[1][3].a[0] if t[1] == 'chunks' else 1) <= self.unroll_max
            ints = [x for x in v.a[1] if x.op == 'int']
            return len(ints) == len(v.a[1]) and len(ints) >= 2 and abs(ints[1].a[0] - ints[0].a[0]) <= self.unroll_max
        if t[0] == 'adt' and t[1] == 'core::iter::adapters::take::Take' and is_int(v.a[1][1]) and v.a[1][1].a[0] <= self.unroll_max:
            return True
        return any(self.has_concrete_iter(x, depth - 1) for x in v.a[1])

    def fix(self, fr, st0):
        P = fr.prep
        entry = {}
        pending = {}
        exits = []
        entry_mem = dict(st0.mem)
        self.arrive(fr, entry, pending, 0, st0.copy(), None)
        rpo = P.rpo
        exitmap = {}
        count = 0
        while pending:
            bb = min(pending, key=lambda b: rpo[b])
            keys = list(pending.pop(bb))
            for key in keys:
                st = entry[bb][key].copy()
                count += 1
                if count > self.max_blocks:
                    raise Unsupported('no convergence in ' + fr.fn.path)
                for nb, ns, ret in self.block(fr, bb, st):
                    if nb is None:
                        self.add_exit(fr, exitmap, ns, ret, entry_mem)
                    else:
                        self.arrive(fr, entry, pending, nb, ns, bb)
        return entry, list(exitmap.values())

    def add_exit(self, fr, exitmap, st, ret, entry_mem):
        fid = fr.fid
        for r in [r for r in st.mem if r.op == 'L' and r.a[0] is fid]:
            del st.mem[r]
        rl = mk('L', fid, 0)
        key = self.exit_key(st, ret, entry_mem)
        st.mem[rl] = ret
        old = exitmap.get(key)
        if old is None:
            exitmap[key] = (st, ret)
            return
        ctx = mk('ctx', fid, 'ret', self.keyid(key))
        j, _ = self.join(old[0], st, ctx)
        exitmap[key] = (j, j.mem[rl])

    def record_pass(self, fr, st0, entry0):
        """entry0: fixpoint block-entry states. Re-explore once from the function entry and the
        fixpoint loop-head states only, so that outcomes stem from the final head states"""
        P = fr.prep
        exitmap = {}
        entry_mem = dict(st0.mem)
        entry = {}
        for bb in P.heads:
            if bb in entry0:
                entry[bb] = dict(entry0[bb])
        if 0 not in P.heads:
            self.arrive(fr, entry, {}, 0, st0.copy(), None)
        for bb in sorted(range(len(fr.fn.bbs)), key=lambda b: P.rpo.get(b, 1 << 30) if isinstance(P.rpo, dict) else P.rpo[b]):
            for key in list(entry.get(bb, ())):
                st = entry[bb][key].copy()
                if bb in P.heads:
                    st.pre = entry[bb][key]
                for nb, ns, ret in self.block(fr, bb, st):
                    if nb is None:
                        self.add_exit(fr, exitmap, ns, ret, entry_mem)
                    elif nb not in P.heads:
                        self.arrive(fr, entry, {}, nb, ns, bb)
                    elif (bb, nb) not in P.back and self.recording and self.loop_hook and not self.unrolling(ns, fr, nb):
                        self.head_entries.setdefault(mk('loop', fr.fid, nb, fr.fn.path, self.keyid((fr.fid, nb, self.block_key(ns, fr, nb)))), []).append(ns)
                    elif (bb, nb) in P.back and self.recording and self.loop_hook and not self.unrolling(ns, fr, nb):
                        for i in range(len(ns.log) - 1, -1, -1):
                            e = ns.log[i]
                            if e.op == 'loop' and e.a[0] is fr.fid and e.a[1] == nb:
                                s2 = ns.copy()
                                s2.log = ns.log[:i]
                                for r in [r for r in s2.mem if self.is_volatile(r)]:
                                    del s2.mem[r]
                                self.hook_target = mk('loop', fr.fid, nb, fr.fn.path, self.keyid((fr.fid, nb, self.block_key(s2, fr, nb))))
                                self.loop_hook(fr, nb, ns, ns.log[i + 1:], e)
                                break
        return list(exitmap.values())

    def block(self, fr, bb, st):
        """execute one block: yields (succ or None, state, ret)"""
        self.stats['blocks'] += 1
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported('budget')
        b = fr.fn.bbs[bb]
        fid = fr.fid
        for s in b['s']:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                loc = self.place(st, fr, s[1])
                if self.effect_hook and loc.op != 'L':
                    self.effect_hook(fr, bb, st, 'write', loc, v, s[3])
                self.write(st, loc, v)
            elif s[0] == 'sd':
                loc = self.place(st, fr, s[1])
                v = self.read(st, loc)
                if not (v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][2] == s[2]):
                    self.write(st, loc, mk('setdiscr', v, s[2]))
            elif s[0] == 'dead':
                st.mem.pop(mk('L', fid, s[1]), None)
            elif s[0] == 'copy':
                src, dst = self.operand(st, fr, s[1]), self.operand(st, fr, s[2])
                n = self.operand(st, fr, s[3])
                self.memcpy(st, src, dst, n)
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st, None)]
        if k == 'drop':
            return [(t[2], st, None)]
        if k == 'ret':
            ret = st.mem.get(mk('L', fid, 0))
            if ret is None:
                ret = UNIT
            return [(None, st, ret)]
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            return self.switch(st, v, t, fr)
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            if not self.assume(st, c, 1 if t[2] else 0):
                return []
            return [(t[3], st, None)]
        if k == 'call':
            return self.call(fr, bb, st, t)
        return []

    def memcpy(self, st, src, dst, n):
        ls, ld = deref_loc(src), deref_loc(dst)
        if ls.op == 'idx' and ld.op == 'idx' and is_int(n) and n.a[0] <= 128:
            for j in range(n.a[0]):
                self.write(st, mkidx(ld.a[0], add(ld.a[1], I(j))), self.read(st, mkidx(ls.a[0], add(ls.a[1], I(j)))))
            return
        if is_int(n) and n.a[0] == 1:
            self.write(st, ld, self.read(st, ls))
            return
        self.write(st, ld, mk('memcpy', self.read(st, ls), n))

    def switch(self, st, v, t, fr):
        c = self.lookup(st, v)
        if c is not None:
            ty = self.prog.types[t[4]]
            cc = c
            if ty['k'] == 'int' and c < 0:
                cc = c & ((1 << ty['bits']) - 1)
            for val, tgt in t[2]:
                if int(val) == cc:
                    return [(tgt, st, None)]
            return [(t[3], st, None)]
        out = []
        vals = set()
        for val, tgt in t[2]:
            n = int(val)
            vals.add(n)
            s2 = st.copy()
            if self.assume(s2, v, n):
                out.append((tgt, s2, None))
        # otherwise (skip if it is an unreachable block)
        ob = fr.fn.bbs[t[3]]
        if not (ob['t'][0] == 'unreach' and not ob['s']):
            s2 = st
            if self.assume_not(s2, v, vals):
                out.append((t[3], s2, None))
        return out

    def call(self, fr, bb, st, t):
        callee, aops, dest, target, span, dty, atys = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        args = [self.operand(st, fr, o) for o in aops]
        c = Call(self, fr, bb, callee, args, atys, dty, span, st)
        self.stats['calls'] += 1
        outs = self.dispatch(c, st)
        if target is None:
            return []
        res = []
        for s2, rv in outs:
            loc = self.place(s2, fr, dest)
            if self.effect_hook and loc.op != 'L':
                self.effect_hook(fr, bb, s2, 'write', loc, rv, span)
            self.write(s2, loc, rv)
            res.append((target, s2, None))
        return res

    def dispatch(self, c, st):
        callee = c.callee
        if callee['kind'] == 'indirect':
            f = self.operand(st, c.fr, callee['op'])
            return self.call_value(c, st, f, c.args, tupled=False)
        path = callee['path']
        for cand in (path, callee.get('trait')):
            if cand is None:
                continue
            h = self.boundary.get(cand)
            if h is not None:
                r = h(self, c, st)
                if r is not None:
                    return r
        h = self.models.get(path)
        if h is None and callee.get('trait'):
            h = self.models.get(callee['trait'])
        if h is not None:
            r = h(self, c, st)
            if r is not None:
                return r
        if callee['kind'] in ('closure_once',):
            key = callee.get('closure')
            fn = self.prog.fns.get(key)
            if fn:
                return self.call_closure_body(c, st, fn, c.args[0], c.args[1], True)
        if callee['kind'] == 'fnptr':
            if 'target' in callee:
                tgt = callee['target']
                tup = c.args[1]
                a2 = list(tup.a[1]) if tup.op == 'agg' else None
                if a2 is None:
                    raise Unsupported('fnptr args')
                c2 = Call(self, c.fr, c.bb, tgt, a2, [], c.dty, c.span, st)
                return self.dispatch(c2, st)
            return self.call_value(c, st, c.args[0], c.args[1], tupled=True)
        if callee['kind'] == 'clone':
            return [(st, self.read(st, deref_loc(c.args[0])))]
        fn = self.prog.fns.get(callee.get('key'))
        if fn is not None and not fn.generic and self.inlinable(fn, c):
            if fn.clos and callee.get('clos') and len(c.args) == 2 and fn.argc != 2 or (fn.clos and len(c.args) == 2 and c.args[1].op == 'agg' and c.args[1].a[0][0] == 'tuple' and self.is_call_trait(callee)):
                return self.call_closure_body(c, st, fn, c.args[0], c.args[1], False)
            return self.enter(c, st, fn, c.args)
        return self.opaque(c, st)

    def is_call_trait(self, callee):
        tr = callee.get('trait') or ''
        return tr.startswith('core::ops::function::Fn')

    def inlinable(self, fn, c):
        return not any(fn.path.startswith(p) for p in self.no_inline)

    def enter(self, c, st, fn, args):
        fid = mk('frame', c.fr.fid, c.bb, st.u, fn.key)
        # recursion guard
        f, n = c.fr.fid, 0
        d = 0
        while f.op == 'frame':
            if f.a[3] == fn.key:
                n += 1
            d += 1
            f = f.a[0]
        if n >= 2 or d > self.max_depth:
            self.stats['recursion'] += 1
            return self.opaque(c, st)
        if fn.spread is not None and args and len(args) != fn.argc:
            tup = args[-1]
            args = args[:-1] + list(tup.a[1])
        return self.call_fn(fn, args, st, fid)

    def call_closure_body(self, c, st, fn, env, tup, once):
        if tup.op == 'agg':
            a = list(tup.a[1])
        else:
            n = fn.argc - 1
            a = [project(tup, ('f', i, str(i), 0)) for i in range(n)]
        envty = self.prog.types[fn.locals[1]]
        if envty['k'] == 'ref' and env.op == 'agg' and env.a[0][0] == 'closure':
            tmp = mk('L', mk('frame', c.fr.fid, c.bb, st.u, 'env'), 0)
            st.mem[tmp] = env
            env = mk('ptr', tmp)
        elif envty['k'] == 'closure' and env.op in ('ptr',):
            env = self.read(st, env.a[0])
        return self.enter(c, st, fn, [env] + a)

    def call_value(self, c, st, f, args, tupled=True):
        """call a function value (closure agg, pointer to closure, fn item)"""
        if tupled and isinstance(args, V):
            args = list(args.a[1]) if args.op == 'agg' else [project(args, ('f', 0, '0', 0))]
        n = 0
        env = f
        while f.op == 'ptr' and n < 4:
            env = f
            f = self.read(st, f.a[0])
            n += 1
        if f.op == 'agg' and f.a[0][0] == 'closure':
            fn = self.prog.fns.get(f.a[0][1])
            if fn is not None:
                return self.call_closure_body(c, st, fn, env if env.op == 'ptr' else f, agg(('tuple',), args), False)
        if f.op == 'fn':
            fn = self.prog.fns.get(f.a[0])
            callee = {'kind': f.a[3], 'path': f.a[1], 'key': f.a[0], 'targs': list(f.a[2]), 'clos': False, 'local': False}
            c2 = Call(self, c.fr, c.bb, callee, args, [], c.dty, c.span, st)
            return self.dispatch(c2, st)
        return self.opaque(c, st, extra=f)

    def opaque(self, c, st, extra=None):
        path = c.callee.get('path', 'indirect')
        self.stats['opaque'][path] = self.stats['opaque'].get(path, 0) + 1
        argvals = []
        for i, a in enumerate(c.args):
            argvals.append(self.deepval(st, a))
        # havoc &mut pointees
        rt = self.prog.types[c.dty] if c.dty is not None else {}
        ret = mk('call', path, *argvals)
        mutated = False
        for i, a in enumerate(c.args):
            ty = self.prog.types[c.atys[i]] if i < len(c.atys) else {}
            if ty.get('k') in ('ref', 'ptr') and ty.get('mut'):
                loc = deref_loc(a)
                self.write(st, loc, mk('havoc', path, i, c.fr.fid, c.bb, st.u))
                mutated = True
        if mutated:
            ret = mk('call', path, *(argvals + [mk('site', c.fr.fid, c.bb, st.u)]))
        if rt.get('k') == 'never':
            return []
        if rt.get('k') == 'tuple' and not rt.get('f'):
            ret = UNIT
        return [(st, ret)]

    def deepval(self, st, a, d=2):
        """pointer arguments are represented together with the pointee's current value"""
        if d > 0 and a.op == 'ptr':
            v = self.read(st, a.a[0])
            return mk('pv', self.deepval(st, v, d - 1)) if a.a[0].op == 'L' or a.a[0].op == 'const' else (a if v.op in ('init', 'undef') else mk('pv2', a, v))
        if d > 0 and a.op == 'slice':
            v = self.read(st, mk('sl', *a.a))
            return mk('pv', v)
        if d > 0 and a.op == 'agg':
            return mk('agg', a.a[0], tuple(self.deepval(st, x, d - 1) for x in a.a[1]))
        return a

    # convenience for models
    def result_ok(self, v):
        return agg(('adt', 'core::result::Result', 0, 'Ok'), [v])

    def result_err(self, v):
        return agg(('adt', 'core::result::Result', 1, 'Err'), [v])

    def some(self, v):
        return agg(('adt', 'core::option::Option', 1, 'Some'), [v])

    def none(self):
        return agg(('adt', 'core::option::Option', 0, 'None'), [])


class Frame:
    __slots__ = ('fn', 'prep', 'fid', 'depth', 'want_entry')

    def __init__(self, fn, prep, fid):
        self.fn = fn
        self.prep = prep
        self.fid = fid
        d = 0
        f = fid
        while f.op == 'frame':
            d += 1
            f = f.a[0]
        self.depth = d
        self.want_entry = False


class Call:
    __slots__ = ('eng', 'fr', 'bb', 'callee', 'args', 'atys', 'dty', 'span')

    def __init__(self, eng, fr, bb, callee, args, atys, dty, span, st):
        self.eng = eng
        self.fr = fr
        self.bb = bb
        self.callee = callee
        self.args = args
        self.atys = atys
        self.dty = dty
        self.span = span

    def site(self, st):
        return mk('site', self.fr.fid, self.bb, st.u)

    def targ(self, i):
        return self.eng.prog.types[self.callee['targs'][i]]


def ratio(d, d0):
    """integer c with d == c*d0"""
    t, t0 = terms_of(d), terms_of(d0)
    if set(t) != set(t0) or not t0:
        return None
    c = None
    for m in t0:
        if t[m] % t0[m]:
            return None
        q = t[m] // t0[m]
        if c is None:
            c = q
        elif c != q:
            return None
    return c


def neg_bool(a):
    if is_int(a):
        return I(1 - a.a[0])
    return a.a[0] if a.op == 'not' else mk('not', a)


def wrap_int(r, t):
    n = r.a[0]
    if t['k'] == 'uint':
        return I(n & ((1 << t['bits']) - 1))
    if t['k'] == 'int':
        b = t['bits']
        n &= (1 << b) - 1
        if n >> (b - 1):
            n -= 1 << b
        return I(n)
    if t['k'] == 'bool':
        return I(n & 1)
    return r


def fold(op, cs):
    if op == 'lt':
        return int(cs[0] < cs[1])
    if op == 'band':
        return cs[0] & cs[1]
    if op == 'bor':
        return cs[0] | cs[1]
    if op == 'bxor':
        return cs[0] ^ cs[1]
    if op == 'shl' and len(cs) >= 2:
        return cs[0] << cs[1] if cs[1] < 256 else None
    if op == 'shr' and len(cs) >= 2:
        return cs[0] >> cs[1]
    if op == 'div' and cs[1] != 0 and cs[0] >= 0:
        return cs[0] // cs[1]
    if op == 'rem' and cs[1] != 0 and cs[0] >= 0:
        return cs[0] % cs[1]
    return None


def ptr_offset(p, n):
    loc = deref_loc(p)
    if loc.op == 'idx':
        return mkref(mkidx2(loc.a[0], add(loc.a[1], n)))
    if loc.op == 'sl':
        return mkref(mkidx2(loc.a[0], add(loc.a[1], n)))
    if is_int(n) and n.a[0] == 0:
        return p
    return mkref(mkidx2(loc, n))
