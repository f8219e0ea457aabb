"""Hash-consed value / location terms and polynomial normal form."""
import sys
sys.setrecursionlimit(100000)

_tab = {}


class V(object):
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op = op
        v.a = a
        v.id = len(_tab)
        _tab[k] = v
    return v


def I(n):
    return mk('int', n)


ZERO = I(0)
ONE = I(1)
UNIT = mk('agg', ('tuple',), ())


def is_int(v):
    return v.op == 'int'


# ---- polynomials -------------------------------------------------------
def terms_of(v):
    if v.op == 'int':
        return {(): v.a[0]} if v.a[0] else {}
    if v.op == 'poly':
        return dict(v.a[0])
    return {(v,): 1}


def from_terms(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = sorted(d.items(), key=lambda mc: tuple(x.id for x in mc[0]))
    return mk('poly', tuple(items))


def add(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] + b.a[0])
    d = terms_of(a)
    for m, c in terms_of(b).items():
        d[m] = d.get(m, 0) + c
    return from_terms(d)


def scale(a, n):
    return from_terms({m: c * n for m, c in terms_of(a).items()})


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] * b.a[0])
    d = {}
    for m1, c1 in terms_of(a).items():
        for m2, c2 in terms_of(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return from_terms(d)


def atoms(v):
    out = []
    for m in terms_of(v):
        for x in m:
            if x not in out:
                out.append(x)
    return out


def subst_poly(v, mp):
    """substitute atoms at the top polynomial level"""
    if v in mp:
        return mp[v]
    if v.op != 'poly':
        return v
    if not any(x in mp for m, _ in v.a[0] for x in m):
        return v
    r = ZERO
    for m, c in v.a[0]:
        t = I(c)
        for x in m:
            t = mul(t, mp.get(x, x))
        r = add(r, t)
    return r


def walk(v, seen=None):
    """all sub-terms"""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def rewrite(v, mp, memo=None):
    """deep rewrite of subterms through mp (dict V->V)"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, V):
            if x in mp:
                return mp[x]
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == 'poly':
                r = ZERO
                for m, c in x.a[0]:
                    t = I(c)
                    for y in m:
                        t = mul(t, go(y))
                    r = add(r, t)
            else:
                na = tuple(go(y) for y in x.a)
                r = x if all(p is q or p == q for p, q in zip(na, x.a)) else mk(x.op, *na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(v)


# ---- printing ----------------------------------------------------------
def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ','.join(show(x, d + 1) for x in v) + ')'
        return str(v)
    if d > 14:
        return '…'
    op, a = v.op, v.a
    s = lambda x: show(x, d + 1)
    if op == 'int':
        return str(a[0])
    if op == 'poly':
        out = []
        for m, c in a[0]:
            t = '*'.join(s(x) for x in m)
            if not m:
                t = str(c)
            elif c == -1:
                t = '-' + t
            elif c != 1:
                t = '%d*%s' % (c, t)
            out.append(t)
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if op == 'L':
        return '%%%s' % (a[1],)
    if op == 'frame':
        return 'fr'
    if op == 'fld':
        return '%s.%s' % (s(a[0]), a[2])
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'sl':
        return '%s[%s;+%s]' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'deref':
        return '*%s' % s(a[0])
    if op == 'view':
        return '%s@%s as %s' % (s(a[0]), s(a[1]), a[2].split('::')[-1])
    if op == 'init':
        return s(a[0]) + ("'" * a[1] if len(a) > 1 and isinstance(a[1], int) else '')
    if op == 'ptr':
        return '&' + s(a[0])
    if op == 'slice':
        return '&%s[%s;+%s]' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'arg':
        return str(a[0])
    if op == 'agg':
        t = a[0]
        nm = {'adt': lambda: t[3] if len(t) > 3 else '?', 'tuple': lambda: '', 'array': lambda: 'arr', 'closure': lambda: 'closure'}.get(t[0], lambda: str(t[0]))()
        return '%s{%s}' % (nm, ', '.join(s(x) for x in a[1]))
    if op == 'upd':
        return '%s with {%s}' % (s(a[0]), ', '.join('%s=%s' % (k[2] if k[0] == 'f' else s(k[1]), s(x)) for k, x in a[1]))
    if op == 'phi':
        return 'phi#%d' % v.id
    if op in ('bytes', 'str'):
        return repr(a[0])[:60]
    return '%s(%s)' % (op, ', '.join(s(x) for x in a if not (isinstance(x, V) and x.op == 'frame')))


def ev(t, env):
    """evaluate a term to an int under env (dict V->int); None when it depends on anything else"""
    if t in env:
        return env[t]
    op, a = t.op, t.a
    if op == 'int':
        return a[0]
    if op == 'poly':
        s = 0
        for m, c in a[0]:
            for x in m:
                v = ev(x, env)
                if v is None:
                    return None
                c *= v
            s += c
        return s
    if op == 'zext':
        return ev(a[0], env)
    if op == 'not':
        x = ev(a[0], env)
        return None if x is None else int(not x)
    if op in ('and', 'or'):
        xs = [ev(x, env) for x in a]
        dom = 0 if op == 'and' else 1
        if any(x is not None and bool(x) == bool(dom) for x in xs):
            return dom
        return None if None in xs else 1 - dom
    if op == 'trunc' and len(a) == 2 and isinstance(a[1], int):
        x = ev(a[0], env)
        return None if x is None else x & ((1 << a[1]) - 1)
    if op in ('eq', 'lt', 'band', 'bor', 'bxor', 'shl', 'shr', 'div', 'rem', 'min', 'max'):
        x = ev(a[0], env)
        y = ev(a[1], env)
        if x is None or y is None:
            if op == 'band' and (x == 0 or y == 0):
                return 0
            return None
        if op == 'eq':
            return int(x == y)
        if op == 'lt':
            return int(x < y)
        if op == 'band':
            return x & y
        if op == 'bor':
            return x | y
        if op == 'bxor':
            return x ^ y
        if op == 'shl':
            return x << y
        if op == 'shr':
            return x >> y
        if op == 'div':
            return x // y if y else None
        if op == 'rem':
            return x % y if y else None
        if op == 'min':
            return min(x, y)
        if op == 'max':
            return max(x, y)
    return None


_atoms = {}


def atoms_of(t):
    """the memory reads a comparison term speaks about (short terms only)"""
    r = _atoms.get(t)
    if r is None:
        r, todo, n = set(), [t], 0
        while todo and n < 60:
            y = todo.pop()
            n += 1
            if y.op in ('init', 'arg', 'phi', 'call'):
                r.add(y)
            elif y.op == 'poly':
                todo += [x for m, c in y.a[0] for x in m]
            elif y.op in ('eq', 'lt', 'band', 'and', 'or', 'not', 'bor', 'bxor', 'shr', 'shl', 'trunc', 'zext'):
                todo += [x for x in y.a if isinstance(x, V)]
        _atoms[t] = r
    return r
