"""C21: the ring queue.  Every operation of Queue is summarised over a symbolic header (head, count) and buffer
of symbolic length; what it returns and writes is compared with a FIFO ring, using the linear facts of the outcome."""
from spec import *
from lin import Lin, ring_index, linear, lsub, strip
from engine import deref_loc

HDR = {'Event': ('state::EventQueueHeader', 'seq_num'), 'Request': ('state::RequestQueueHeader', None)}


class Ring:
    """one outcome of one queue operation"""

    def __init__(self, D, hname, e, st, ret, hdr, buf, N):
        self.e, self.st, self.ret, self.N, self.hdr, self.buf = e, st, ret, N, hdr, buf
        self.h = mk('init', mk('fld', hdr, *D.field(hname, 'head'), 0))
        self.c = mk('init', mk('fld', hdr, *D.field(hname, 'count'), 0))
        self.names = [f[0] for f in D.type_by_path(hname)['v'][0]['f']]
        # what every operation may rely on and must keep: head < capacity, count <= capacity
        inv = [lsub(linear(N), linear(self.h), -1), lsub(linear(N), linear(self.c))]
        self.L = Lin(st.facts, inv)

    def field(self, i, n):
        l = mk('fld', self.hdr, i, n, 0)
        return self.e.read(self.st, l), mk('init', l)


def queue_fn(D, hname, m):
    tail = "<'_, %s>::%s" % (hname, m)
    fs = [f for k, f in D.prog.fns.items() if k.startswith(CR + 'state::Queue::') and k.endswith(tail)]
    if len(fs) != 1:
        raise Missing('state::Queue<%s>::%s' % (hname, m))
    return fs[0]


def run(sp, D, kind, m, extra=()):
    hname, seq = HDR[kind]
    fn = queue_fn(D, hname, m)
    e = D.engine(queue=False)
    e.nomerge = lambda st, fr: True
    q = mk('heap', mk('queue', kind))
    st = State()
    qi = {n: D.field('state::Queue', n) for n in ('header', 'buf')}
    hdr = deref_loc(e.read(st, mk('fld', q, *qi['header'], 0)))
    bufp = e.read(st, mk('fld', q, *qi['buf'], 0))
    buf = deref_loc(bufp)
    outs = e.call_fn(fn, [mk('ptr', q)] + list(extra), st, mk('frame0', 'queue'))
    N = None
    for s, r in outs:
        for f in list(s.facts) + list(s.mem.values()) + [r]:
            for z in walk(f):
                if z.op == 'len' and N is None:
                    N = z
    if N is None:
        N = mk('len', buf)
    rings = [Ring(D, hname, e, s, r, hdr, buf, N) for s, r in outs]
    return [R for R in rings if not R.L.contradiction()]


def header_is(sp, rule, w, R, want):
    """all header fields: expected value, or unchanged"""
    for i, n in enumerate(R.names):
        v, init = R.field(i, n)
        e = want.get(n, init)
        if e is None:
            continue
        if n == 'head' and empty_after(R) and R.L.lt(v, R.N):
            sp.oblige('%s %s' % (rule, n), w, True)    # the position of an empty ring is immaterial
            continue
        if callable(e):
            sp.oblige('%s %s' % (rule, n), w, e(v), lambda: '%s := %s' % (n, sh(v, 200)))
        else:
            sp.oblige('%s %s' % (rule, n), w, v is e or R.L.eq(v, e), lambda: '%s := %s, expected %s' % (n, sh(v, 200), sh(e, 200)))


def empty_after(R):
    return R.L.eq(R.field(R.names.index('count'), 'count')[0], ZERO)


def buffer_writes(R):
    """[(index, value)] written to the buffer, or None when the shape is unknown"""
    out = []
    for l, v in R.st.mem.items():
        if R.buf in walk(l) or (l.op == 'idx' and l.a[0] is R.buf):
            if l is R.buf:
                if v is mk('init', R.buf):
                    continue
                if v.op != 'upd' or v.a[0] is not mk('init', R.buf):
                    return None
                for path, val in v.a[1]:
                    if path[0] != 'i' or len(path) != 2:
                        return None
                    out.append((path[1], val))
            elif l.op == 'idx':
                if v is not mk('init', l):
                    out.append((l.a[1], v))
            else:
                return None
    return out


def item_at(R, p, base):
    """p points to the buffer cell of ring position base"""
    l = deref_loc(p) if p.op in ('ptr', 'slice') else None
    return l is not None and l.op == 'idx' and l.a[0] is R.buf and ring_index(R.L, l.a[1], base, R.N)


def value_at(R, v, base):
    return v.op == 'init' and v.a[0].op == 'idx' and v.a[0].a[0] is R.buf and ring_index(R.L, v.a[0].a[1], base, R.N)


def payload(r):
    return r.a[1][0] if r.op == 'agg' and r.a[1] else None


def full(R):
    return R.L.eq(R.c, R.N)


def not_full(R):
    return R.L.lt(R.c, R.N)


def check_c21(sp):
    D = sp.dex
    val = mk('arg', 'value')
    for kind, (hname, seq) in HDR.items():
        cnt = {}

        def outcomes(m, extra=()):
            rs = run(sp, D, kind, m, extra)
            sp.count('Queue<%s>::%s' % (kind, m), outcomes=len(rs))
            sp.oblige('Q0 operation analysed', '%s::%s' % (kind, m), len(rs) >= 1, 'no outcome')
            for i, R in enumerate(rs):
                t = R.ret.a[0][3] if R.ret.op == 'agg' and R.ret.a[0][0] == 'adt' else None
                cnt[m, t] = cnt.get((m, t), 0) + 1
                yield 'Queue<%s>::%s outcome %d' % (kind, m, i), R, t

        def unchanged(rule, w, R):
            header_is(sp, rule, w, R, {})
            sp.oblige(rule + ' buffer', w, buffer_writes(R) == [], lambda: 'writes %s' % sh(buffer_writes(R), 200))
        # push_back
        for w, R, t in outcomes('push_back', [val]):
            if t == 'Ok':
                sp.oblige('Q1 pushes only into a ring with room', w, not_full(R), 'push succeeds without establishing count < capacity')
                want = {'count': add(R.c, ONE)}
                if seq:
                    i = R.names.index(seq)
                    want[seq] = add(R.field(i, seq)[1], ONE)
                header_is(sp, 'Q1 push header', w, R, want)
                bw = buffer_writes(R)
                sp.oblige('Q1 exactly one cell written', w, bw is not None and len(bw) == 1, lambda: sh(bw, 300))
                for i, v in (bw or [])[:1]:
                    sp.oblige('Q1 the cell behind the newest element', w, ring_index(R.L, i, add(R.h, R.c), R.N), lambda: 'writes cell %s' % sh(i, 200))
                    sp.oblige('Q1 the pushed value', w, v is val, lambda: sh(v, 200))
            else:
                sp.oblige('Q2 refuses', w, t == 'Err', lambda: sh(R.ret, 100))
                sp.oblige('Q2 refuses only when full', w, full(R), 'refuses although there may be room')
                sp.oblige('Q2 hands the value back', w, payload(R.ret) is val, lambda: sh(R.ret, 100))
                unchanged('Q2 a refused push changes nothing:', w, R)
        # pop_front
        for w, R, t in outcomes('pop_front'):
            if t == 'Ok':
                sp.oblige('Q3 pops only from a non-empty ring', w, R.L.lt(ZERO, R.c), 'pops from a possibly empty ring')
                sp.oblige('Q3 returns the oldest element', w, value_at(R, payload(R.ret), R.h), lambda: sh(R.ret, 200))
                header_is(sp, 'Q3 pop header', w, R, {'count': sub(R.c, ONE), 'head': lambda v: ring_index(R.L, v, add(R.h, ONE), R.N)})
                sp.oblige('Q3 buffer untouched', w, buffer_writes(R) == [])
            else:
                sp.oblige('Q4 refuses only when empty', w, t == 'Err' and R.L.eq(R.c, ZERO), 'pop refused although elements may be queued')
                unchanged('Q4 a refused pop changes nothing:', w, R)
        # peek
        for m in ('peek_front', 'peek_front_mut'):
            for w, R, t in outcomes(m):
                if t == 'Some':
                    sp.oblige('Q5 peeks only into a non-empty ring', w, R.L.lt(ZERO, R.c), 'peeks into a possibly empty ring')
                    sp.oblige('Q5 refers to the oldest element', w, item_at(R, payload(R.ret), R.h), lambda: sh(R.ret, 200))
                else:
                    sp.oblige('Q5 nothing only when empty', w, t == 'None' and R.L.eq(R.c, ZERO), 'reports an empty ring although elements may be queued')
                unchanged('Q5 peeking changes nothing:', w, R)
        # revert
        d = mk('arg', 'desired_len')
        for w, R, t in outcomes('revert_pushes', [d]):
            if t == 'Ok':
                sp.oblige('Q6 reverts only what is queued', w, R.L.le(d, R.c), 'desired length not bounded by the count')
                want = {'count': d}
                if seq:
                    i = R.names.index(seq)
                    want[seq] = sub(R.field(i, seq)[1], sub(R.c, d))
                header_is(sp, 'Q6 revert header', w, R, want)
                sp.oblige('Q6 buffer untouched', w, buffer_writes(R) == [])
            else:
                sp.oblige('Q6 refuses only a length beyond the count', w, t == 'Err' and R.L.lt(R.c, d))
                unchanged('Q6 a refused revert changes nothing:', w, R)
        # queries
        for m, tr in (('len', None), ('full', lambda R: (mk('eq', R.c, R.N),)), ('empty', lambda R: (mk('eq', R.c, ZERO),))):
            for w, R, t in outcomes(m):
                if m == 'len':
                    sp.oblige('Q7 len is the count', w, R.ret is R.c or R.L.eq(R.ret, R.c), lambda: sh(R.ret, 100))
                else:
                    z = R.N if m == 'full' else ZERO
                    ok = truth(R, R.ret, R.c, z)
                    sp.oblige('Q7 %s' % m, w, ok, lambda: sh(R.ret, 150))
                unchanged('Q7 queries change nothing:', w, R)
        iterator(sp, D, kind, hname)
        for k in (('push_back', 'Ok'), ('push_back', 'Err'), ('pop_front', 'Ok'), ('pop_front', 'Err'), ('peek_front', 'Some'), ('peek_front', 'None'),
                  ('peek_front_mut', 'Some'), ('peek_front_mut', 'None'), ('revert_pushes', 'Ok'), ('revert_pushes', 'Err')):
            sp.floor('%s %s -> %s' % ((kind,) + k), cnt.get(k, 0), 1)


def iterator(sp, D, kind, hname):
    """iterating visits position 0, 1, ... count-1 from the oldest element"""
    try:
        fi = queue_fn(D, hname, 'iter')
    except Missing:
        return
    nx = [f for k, f in D.prog.fns.items() if k.startswith(CR + "<state::QueueIterator<") and hname in k and k.endswith('::next')]
    ti = [t for t in D.prog.types if (t.get('path') or '').endswith('state::QueueIterator')]
    if not nx or not ti:
        sp.count('Queue<%s>::iter' % kind, not_analysed=1)
        return
    names = [f[0] for f in ti[0]['v'][0]['f']]
    e = D.engine(queue=False)
    e.nomerge = lambda st, fr: True
    q = mk('heap', mk('queue', kind))
    st = State()
    hdr = deref_loc(e.read(st, mk('fld', q, *D.field('state::Queue', 'header'), 0)))
    buf = deref_loc(e.read(st, mk('fld', q, *D.field('state::Queue', 'buf'), 0)))
    outs = e.call_fn(fi, [mk('ptr', q)], st, mk('frame0', 'iter'))
    w = 'Queue<%s>::iter' % kind
    for s, r in outs:
        f = dict(zip(names, r.a[1])) if r.op == 'agg' else {}
        if not sp.oblige('Q8 iteration starts at the oldest element', w, f.get('index') is ZERO and f.get('queue') is not None and deref_loc(f['queue']) is q, lambda: sh(r, 200)):
            return
    it = mk('heap', mk('iter', kind))
    st = State()
    e.write(st, mk('fld', it, names.index('queue'), 'queue', 0), mk('ptr', q))
    il = mk('fld', it, names.index('index'), 'index', 0)
    i0 = mk('init', il)
    c = mk('init', mk('fld', hdr, *D.field(hname, 'count'), 0))
    n = 0
    for s, r in e.call_fn(nx[0], [mk('ptr', it)], st, mk('frame0', 'next')):
        N = next((z for f in list(s.facts) + [r] for z in walk(f) if z.op == 'len'), mk('len', buf))
        R = Ring(D, hname, e, s, r, hdr, buf, N)
        R.L.cs.append(lsub(linear(c), linear(i0)))     # index <= count: holds initially, kept below
        if R.L.contradiction():
            continue
        n += 1
        w = 'Queue<%s>::iter step %d' % (kind, n)
        i1 = e.read(s, il)
        if r.op == 'agg' and r.a[0][3] == 'Some':
            sp.oblige('Q8 visits only queued elements', w, R.L.lt(i0, c), 'index not below the count')
            sp.oblige('Q8 visits the element of that position', w, item_at(R, payload(r), add(R.h, i0)), lambda: sh(r, 200))
            sp.oblige('Q8 advances by one', w, R.L.eq(i1, add(i0, ONE)), lambda: sh(i1, 100))
        else:
            sp.oblige('Q8 stops only at the end', w, R.L.eq(i0, c), 'stops before the newest element')
    sp.floor('%s iterator steps' % kind, n, 2)


def truth(R, r, a, b):
    """the boolean r says a == b"""
    if r.op == 'int':
        return R.L.eq(a, b) if r.a[0] else (R.L.lt(a, b) or R.L.lt(b, a))
    from lin import Lin
    ok = True
    for v in (0, 1):
        f = dict(R.st.facts)
        f[r] = ('in', frozenset({v}))
        L = Lin(f, R.L.cs)
        ok = ok and (L.contradiction() or (L.eq(a, b) if v else (L.lt(a, b) or L.lt(b, a))))
    return ok


CHECKS = {'C21': check_c21}
TECHNIQUE = {'C21': 'abstract interpretation of every queue operation over a symbolic header and buffer; index arithmetic decided in a polyhedra (linear inequality) domain under the ring invariant'}
