"""Semantics of library functions (core, alloc, bytemuck, solana, spl-token)
that are not analysed from their own MIR.  A model maps (engine, call, state) to
a list of (state, value) outcomes; returning None falls back to the body."""
from terms import *


def bitcount(fn, v, t):
    if is_int(v):
        w = 64 if t in ('usize', 'isize') else int(t[1:])
        x = v.a[0] & ((1 << w) - 1)
        if fn == 'count_ones':
            return I(bin(x).count('1'))
        if fn == 'leading_zeros':
            return I(w - x.bit_length())
        return I((x & -x).bit_length() - 1 if x else w)
    return mk(fn, v)


def install(eng):
    from engine import (agg, deref_loc, mkref, mkidx, mkidx2, project, ptr_offset, neg_bool, split_loc, childloc)
    M = eng.models

    def model(*paths):
        def deco(f):
            for p in paths:
                M[p] = f
            return f
        return deco

    def okv(v):
        return eng.result_ok(v)

    def errv(v):
        return eng.result_err(v)
    eng.okv, eng.errv = okv, errv

    def val(st, p):
        return eng.read(st, deref_loc(p))

    # ---------------------------------------------------------------- panics
    def never(e, c, st):
        return []
    for p in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind_fmt',
              'core::panicking::unimplemented_default_msg', 'core::panicking::unreachable_default_msg',
              'core::panicking::assert_failed', 'core::panicking::panic_nounwind', 'core::panicking::panic_display',
              'core::panicking::panic_explicit', 'core::panicking::panic_str_2015', 'core::panicking::panic_bounds_check',
              'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
              'core::hint::unreachable_unchecked', 'core::slice::index::slice_index_fail', 'std::process::exit',
              'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::cell::panic_already_mutably_borrowed',
              'core::cell::panic_already_borrowed', 'std::rt::begin_panic', 'alloc::alloc::handle_alloc_error', 'std::process::abort'):
        M[p] = never

    # ---------------------------------------------------------------- no-ops
    def unit(e, c, st):
        return [(st, UNIT)]
    for p in ('solana_program::log::sol_log', 'solana_program::log::sol_log_64', 'core::mem::drop', 'core::mem::forget',
              'solana_program::log::sol_log_compute_units', 'core::intrinsics::assert_inhabited',
              'core::hint::assert_unchecked', 'solana_program::log::sol_log_data'):
        M[p] = unit

    def opaque_pure(e, c, st):
        return [(st, mk('call', c.callee['path'], *[e.deepval(st, a) for a in c.args]))]
    for p in ('core::fmt::Arguments::<\'a>::new', 'core::fmt::Arguments::<\'a>::from_str', 'core::fmt::rt::Argument::<\'_>::new_debug',
              'core::fmt::rt::Argument::<\'_>::new_display', 'alloc::fmt::format', 'core::fmt::Arguments::<\'a>::new_const',
              'solana_program::pubkey::Pubkey::create_program_address_'):
        M[p] = lambda e, c, st: [(st, mk('fmt'))]

    # ---------------------------------------------------------------- identity-like
    def ident(e, c, st):
        return [(st, c.args[0])]
    for p in ('core::convert::identity', 'core::hint::must_use', 'core::hint::black_box', 'core::mem::transmute',
              '<I as core::iter::traits::collect::IntoIterator>::into_iter', '<T as core::convert::From<T>>::from',
              'core::mem::ManuallyDrop::<T>::new', 'core::mem::manually_drop::ManuallyDrop::<T>::into_inner',
              'core::mem::manually_drop::ManuallyDrop::<T>::new',
              'core::iter::traits::iterator::Iterator::by_ref', 'core::ptr::non_null::NonNull::<T>::new_unchecked',
              'core::intrinsics::likely', 'core::intrinsics::unlikely', 'core::num::<impl u64>::from_le', 'core::num::<impl u64>::to_le',
              'core::num::<impl u128>::to_le', 'core::num::<impl u128>::from_le',
              'solana_program::pubkey::Pubkey::to_bytes', 'core::mem::maybe_uninit::MaybeUninit::<T>::new',
              'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init'):
        M[p] = ident
    for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'i64', 'i32', 'usize'):
        M['core::clone::impls::<impl core::clone::Clone for %s>::clone' % t] = lambda e, c, st: [(st, val(st, c.args[0]))]

    def le_val(bits):
        def f(e, c, st):
            v = c.args[0]
            return [(st, from_le(v, bits))]
        return f

    def from_le(v, bits):
        if v.op == 'tole' and v.a[1] == bits:
            return v.a[0]
        if v.op == 'bytes':
            return I(int.from_bytes(bytes.fromhex(v.a[0]), 'little'))
        if v.op == 'agg' and all(is_int(x) for x in v.a[1]):
            return I(int.from_bytes(bytes(x.a[0] for x in v.a[1]), 'little'))
        if v.op == 'agg' and len(v.a[1]) == bits // 8:
            f0 = v.a[1][0]
            # array of consecutive bytes
            if f0.op == 'bsub' and all(x.op == 'bsub' and x.a[0] is f0.a[0] and sub(x.a[1], f0.a[1]) is I(j) and x.a[4] == f0.a[4] for j, x in enumerate(v.a[1])):
                return mk('le', mk('bsub', f0.a[0], f0.a[1], I(bits // 8), 1, f0.a[4]), bits)
            if f0.op == 'init' and f0.a[0].op == 'idx' and all(x.op == 'init' and x.a[0].op == 'idx' and x.a[0].a[0] is f0.a[0].a[0] and sub(x.a[0].a[1], f0.a[0].a[1]) is I(j) and x.a[1:] == f0.a[1:] for j, x in enumerate(v.a[1])):
                return mk('le', mk('bsub', f0.a[0].a[0], f0.a[0].a[1], I(bits // 8), 1, f0.a[1] if len(f0.a) > 1 else 0), bits)
            if f0.op == 'prj' and f0.a[0].op == 'tole' and f0.a[0].a[1] == bits and all(x.op == 'prj' and x.a[0] is f0.a[0] and x.a[1] == ('i', I(j)) for j, x in enumerate(v.a[1])):
                return f0.a[0].a[0]
        return mk('le', v, bits)
    for t, b in (('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128), ('i64', 64), ('i32', 32)):
        M['core::num::<impl %s>::from_le_bytes' % t] = le_val(b)

        def mkto(b):
            def f(e, c, st):
                v = c.args[0]
                if is_int(v):
                    n = v.a[0] & ((1 << b) - 1)
                    return [(st, mk('bytes', n.to_bytes(b // 8, 'little').hex()))]
                return [(st, mk('tole', v, b))]
            return f
        M['core::num::<impl %s>::to_le_bytes' % t] = mkto(b)

    # ---------------------------------------------------------------- sizes
    @model('core::mem::size_of')
    def size_of(e, c, st):
        t = c.targ(0)
        if t.get('size') is None:
            return [(st, mk('size_of', t['s']))]
        return [(st, I(t['size']))]

    @model('core::mem::align_of')
    def align_of(e, c, st):
        t = c.targ(0)
        return [(st, I(t.get('align') or 1))]

    # ---------------------------------------------------------------- Try
    def branch(ok_i, okn, paths):
        pass

    def enum_cases(st, v, path, variants):
        """outcomes [(state, variant index, payload list)] of an Option/Result-like value"""
        if v.op == 'agg' and v.a[0][0] == 'adt':
            return [(st, v.a[0][2], list(v.a[1]))]
        d = mk('discr', v)
        eng.discr_ty[d] = path
        out = []
        poss = eng.possible(st, d)
        for i, (n, k) in enumerate(variants):
            if poss is not None and i not in poss:
                continue
            s2 = st.copy()
            if not eng.constrain(s2, d, 'in', {i}):
                continue
            out.append((s2, i, [project(v, ('f', j, str(j), i)) for j in range(k)]))
        return out
    RES = [('Ok', 1), ('Err', 1)]
    OPT = [('None', 0), ('Some', 1)]
    eng.res_cases = lambda st, v: enum_cases(st, v, 'core::result::Result', RES)
    eng.opt_cases = lambda st, v: enum_cases(st, v, 'core::option::Option', OPT)

    CF = 'core::ops::control_flow::ControlFlow'

    @model('<core::result::Result<T, E> as core::ops::try_trait::Try>::branch')
    def res_branch(e, c, st):
        out = []
        for s, i, p in eng.res_cases(st, c.args[0]):
            if i == 0:
                out.append((s, agg(('adt', CF, 0, 'Continue'), p)))
            else:
                out.append((s, agg(('adt', CF, 1, 'Break'), [errv(p[0])])))
        return out

    @model('<core::option::Option<T> as core::ops::try_trait::Try>::branch')
    def opt_branch(e, c, st):
        out = []
        for s, i, p in eng.opt_cases(st, c.args[0]):
            if i == 1:
                out.append((s, agg(('adt', CF, 0, 'Continue'), p)))
            else:
                out.append((s, agg(('adt', CF, 1, 'Break'), [e.none()])))
        return out

    @model('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual',
           '<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual')
    def from_residual(e, c, st):
        v = c.args[0]
        p = v.a[1][0] if v.op == 'agg' and v.a[1] else mk('e')
        if e.precise_err and p.op == 'agg':
            t = e.prog.types[c.dty]
            F = e.prog.types[t['args'][1]]
            if F.get('path') == p.a[0][1]:
                return [(st, errv(p))]
            ix = e.prog.__dict__.get('_from_impls')
            if ix is None:
                import re
                ix = e.prog._from_impls = {}
                for k, fs in e.prog.bypath.items():
                    m = re.match(r'(\w+)::<(.*) as core::convert::From<(.*)>>::from$', k)
                    if not m:
                        m = re.match(r'(\w+)::(?:\w+::)*<impl core::convert::From<(.*)> for (.*)>::from$', k)
                        if m:
                            for a in (m.group(3), m.group(1) + '::' + m.group(3)):
                                for b in (m.group(2), m.group(1) + '::' + m.group(2)):
                                    ix[a, b] = fs
                            continue
                    if m:
                        for a in (m.group(2), m.group(1) + '::' + m.group(2)):
                            for b in (m.group(3), m.group(1) + '::' + m.group(3)):
                                ix[a, b] = fs
            for f in ix.get((F.get('path'), p.a[0][1]), []):
                return [(s2, errv(r)) for s2, r in e.enter(c, st, f, [p])]
        return [(st, errv(mk('errfrom', p) if p.op != 'errfrom' else p))]

    @model('<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual',
           '<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<core::convert::Infallible>>>::from_residual')
    def opt_residual(e, c, st):
        return [(st, e.none())]

    @model('core::result::Result::<T, E>::map_err')
    def map_err(e, c, st):
        out = []
        for s, i, p in eng.res_cases(st, c.args[0]):
            if i == 1 and e.precise_err:
                out += [(s2, errv(r)) for s2, r in e.call_value(c, s, c.args[1], [p[0]], tupled=False)]
                continue
            out.append((s, okv(p[0]) if i == 0 else errv(mk('errmap'))))
        return out

    @model('core::result::Result::<T, E>::or')
    def res_or(e, c, st):
        out = []
        for s, i, p in eng.res_cases(st, c.args[0]):
            out.append((s, okv(p[0]) if i == 0 else c.args[1]))
        return out

    @model('core::result::Result::<T, E>::ok')
    def res_ok(e, c, st):
        return [(s, e.some(p[0]) if i == 0 else e.none()) for s, i, p in eng.res_cases(st, c.args[0])]

    @model('core::result::Result::<T, E>::err')
    def res_err(e, c, st):
        return [(s, e.some(p[0]) if i == 1 else e.none()) for s, i, p in eng.res_cases(st, c.args[0])]

    @model('core::result::Result::<T, E>::unwrap', 'core::result::Result::<T, E>::expect')
    def res_unwrap(e, c, st):
        return [(s, p[0]) for s, i, p in eng.res_cases(st, c.args[0]) if i == 0]

    @model('core::result::Result::<T, E>::unwrap_err', 'core::result::Result::<T, E>::expect_err')
    def res_unwrap_err(e, c, st):
        return [(s, p[0]) for s, i, p in eng.res_cases(st, c.args[0]) if i == 1]

    @model('core::option::Option::<T>::unwrap', 'core::option::Option::<T>::expect')
    def opt_unwrap(e, c, st):
        return [(s, p[0]) for s, i, p in eng.opt_cases(st, c.args[0]) if i == 1]

    @model('core::option::Option::<T>::ok_or')
    def opt_ok_or(e, c, st):
        return [(s, okv(p[0]) if i == 1 else errv(c.args[1])) for s, i, p in eng.opt_cases(st, c.args[0])]

    @model('core::option::Option::<T>::ok_or_else')
    def opt_ok_or_else(e, c, st):
        return [(s, okv(p[0]) if i == 1 else errv(mk('errmap'))) for s, i, p in eng.opt_cases(st, c.args[0])]

    @model('core::option::Option::<T>::unwrap_or')
    def opt_unwrap_or(e, c, st):
        return [(s, p[0] if i == 1 else c.args[1]) for s, i, p in eng.opt_cases(st, c.args[0])]

    @model('core::option::Option::<T>::is_some')
    def opt_is_some(e, c, st):
        return [(s, I(i)) for s, i, p in eng.opt_cases(st, val(st, c.args[0]))]

    @model('core::option::Option::<T>::is_none')
    def opt_is_none(e, c, st):
        return [(s, I(1 - i)) for s, i, p in eng.opt_cases(st, val(st, c.args[0]))]

    @model('core::result::Result::<T, E>::is_ok')
    def res_is_ok(e, c, st):
        return [(s, I(1 - i)) for s, i, p in eng.res_cases(st, val(st, c.args[0]))]

    @model('core::result::Result::<T, E>::is_err')
    def res_is_err(e, c, st):
        return [(s, I(i)) for s, i, p in eng.res_cases(st, val(st, c.args[0]))]

    # ---------------------------------------------------------------- NonZero: value is the integer itself
    @model('core::num::nonzero::NonZero::<T>::new')
    def nz_new(e, c, st):
        out = []
        v = c.args[0]
        s2 = st.copy()
        z = e.cmp_eq(st, v, ZERO)
        if e.assume(s2, z, 1):
            out.append((s2, e.none()))
        if e.assume(st, z, 0):
            out.append((st, e.some(v)))
        return out

    def nz_get(e, c, st):
        v = c.args[0]
        if not e.constrain(st, v, 'ni', {0}):
            return []
        return [(st, v)]
    M['core::num::nonzero::NonZero::<T>::get'] = nz_get
    M['core::num::nonzero::NonZero::<T>::new_unchecked'] = ident
    M['<core::num::nonzero::NonZero<T> as core::clone::Clone>::clone'] = lambda e, c, st: [(st, val(st, c.args[0]))]

    def cmp_model(f):
        def g(e, c, st):
            return [(st, f(e, st, val(st, c.args[0]), val(st, c.args[1])))]
        return g
    eq = cmp_model(lambda e, st, a, b: e.cmp_eq(st, a, b))
    ne = cmp_model(lambda e, st, a, b: neg_bool(e.cmp_eq(st, a, b)))
    lt = cmp_model(lambda e, st, a, b: e.cmp_lt(st, a, b))
    gt = cmp_model(lambda e, st, a, b: e.cmp_lt(st, b, a))
    le = cmp_model(lambda e, st, a, b: neg_bool(e.cmp_lt(st, b, a)))
    ge = cmp_model(lambda e, st, a, b: neg_bool(e.cmp_lt(st, a, b)))

    def affix(end):
        def f(e, c, st):
            b, s, n = e.to_slice(st, c.args[0])
            m = e.to_slice(st, c.args[1])[2]
            out = []
            short = e.cmp_lt(st, n, m)
            s2 = st.copy()
            if e.assume(s2, short, 1):
                out.append((s2, ZERO))
            if e.assume(st, short, 0):
                h = mk('slice', b, add(s, sub(n, m)) if end else s, m)
                out.append((st, e.cmp_eq(st, val(st, h), val(st, c.args[1]))))
            return out
        return f
    M['core::slice::<impl [T]>::starts_with'], M['core::slice::<impl [T]>::ends_with'] = affix(False), affix(True)
    ltu = cmp_model(lambda e, st, a, b: e.cmp_ltu(st, a, b))
    gtu = cmp_model(lambda e, st, a, b: e.cmp_ltu(st, b, a))
    leu = cmp_model(lambda e, st, a, b: neg_bool(e.cmp_ltu(st, b, a)))
    geu = cmp_model(lambda e, st, a, b: neg_bool(e.cmp_ltu(st, a, b)))
    for T in ('<core::num::nonzero::NonZero<T> as core::cmp::PartialOrd>::',):
        M[T + 'lt'], M[T + 'gt'], M[T + 'le'], M[T + 'ge'] = lt, gt, le, ge
    M['<core::num::nonzero::NonZero<T> as core::cmp::PartialEq>::eq'] = eq
    M['<core::num::nonzero::NonZero<T> as core::cmp::PartialEq>::ne'] = ne
    for T in ('<solana_program::pubkey::Pubkey as core::cmp::PartialEq>::',
              'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::',
              'core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::',
              'core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>::',
              'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T]>::',
              'core::str::traits::<impl core::cmp::PartialEq for str>::'):
        M[T + 'eq'], M[T + 'ne'] = eq, ne
    for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'i64', 'usize', 'bool'):
        M['core::cmp::impls::<impl core::cmp::PartialEq for %s>::eq' % t] = eq
        M['core::cmp::impls::<impl core::cmp::PartialEq for %s>::ne' % t] = ne
        for n, f in (('lt', lt), ('le', le), ('gt', gt), ('ge', ge)) if t == 'i64' else (('lt', ltu), ('le', leu), ('gt', gtu), ('ge', geu)):
            M['core::cmp::impls::<impl core::cmp::PartialOrd for %s>::%s' % (t, n)] = f
        for n in ('min', 'max'):
            def mm(n):
                def f(e, c, st):
                    return [(st, minmax(e, st, n, c.args[0], c.args[1]))]
                return f
            M['core::cmp::impls::<impl core::cmp::Ord for %s>::%s' % (t, n)] = mm(n)

    def minmax(e, st, n, a, b):
        if a is b:
            return a
        if a is ZERO or b is ZERO:   # unsigned
            return (b if a is ZERO else a) if n == 'max' else ZERO
        l = e.cmp_lt(st, a, b)
        if is_int(l):
            if n == 'min':
                return a if l.a[0] else b
            return b if l.a[0] else a
        if b.id < a.id:
            a, b = b, a
        return mk(n, a, b)
    eng.minmax = minmax
    def satop(e, st, op, a, b):
        if op == 'sub' and not (is_int(a) and is_int(b)):
            return sub(a, minmax(e, st, 'min', a, b))
        return mk('sat' + op, a, b)
    M['core::cmp::min'] = lambda e, c, st: [(st, minmax(e, st, 'min', c.args[0], c.args[1]))]
    M['core::cmp::max'] = lambda e, c, st: [(st, minmax(e, st, 'max', c.args[0], c.args[1]))]
    M['core::intrinsics::integer_min'] = M['core::cmp::min']
    M['core::intrinsics::integer_max'] = M['core::cmp::max']

    # ---------------------------------------------------------------- checked / wrapping arithmetic
    def checked(op, signed=False):
        f = {'add': add, 'sub': sub, 'mul': mul}.get(op)

        def g(e, c, st):
            a, b = c.args
            if op in ('div', 'rem'):
                z = e.cmp_eq(st, b, ZERO)
                out = []
                s2 = st.copy()
                if e.assume(s2, z, 1):
                    out.append((s2, e.none()))
                if e.assume(st, z, 0):
                    out.append((st, e.some(mk(op, a, b))))
                return out
            r = f(a, b)
            if is_int(r) and 0 <= r.a[0] < (1 << 63):
                return [(st, e.some(r))]
            if op == 'sub' and not signed:
                cond = e.cmp_ltu(st, a, b)
            else:
                cond = mk('ovf', op, a, b)
            out = []
            s2 = st.copy()
            if e.assume(s2, cond, 1):
                out.append((s2, e.none()))
            if e.assume(st, cond, 0):
                out.append((st, e.some(r)))
            return out
        return g
    for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'i64', 'usize', 'i128'):
        for op in ('add', 'sub', 'mul', 'div', 'rem'):
            M['core::num::<impl %s>::checked_%s' % (t, op)] = checked(op, t[0] == 'i')
        for op in ('add', 'sub', 'mul'):
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            M['core::num::<impl %s>::wrapping_%s' % (t, op)] = (lambda f: lambda e, c, st: [(st, f(c.args[0], c.args[1]))])(f)
            M['core::num::<impl %s>::saturating_%s' % (t, op)] = (lambda op, sg: lambda e, c, st: [(st, mk('isat' + op, *c.args) if sg else satop(e, st, op, c.args[0], c.args[1]))])(op, t[0] == 'i')
        for fn in ('leading_zeros', 'trailing_zeros', 'count_ones'):
            M['core::num::<impl %s>::%s' % (t, fn)] = (lambda fn, t: lambda e, c, st: [(st, bitcount(fn, c.args[0], t))])(fn, t)
    for op in ('add', 'sub'):
        M['core::intrinsics::saturating_' + op] = (lambda op: lambda e, c, st: [(st, satop(e, st, op, c.args[0], c.args[1]))])(op)

    # ---------------------------------------------------------------- cells, Rc, Box
    @model("<core::cell::RefMut<'_, T> as core::ops::deref::Deref>::deref", "<core::cell::RefMut<'_, T> as core::ops::deref::DerefMut>::deref_mut",
           "<core::cell::Ref<'_, T> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref",
           "<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut")
    def ref_deref(e, c, st):
        return [(st, val(st, c.args[0]))]

    @model("core::cell::RefMut::<'b, T>::map", "core::cell::Ref::<'b, T>::map")
    def ref_map(e, c, st):
        return e.call_value(c, st, c.args[1], [c.args[0]], tupled=False)

    @model("core::cell::RefMut::<'b, T>::map_split", "core::cell::Ref::<'b, T>::map_split")
    def ref_map_split(e, c, st):
        return e.call_value(c, st, c.args[1], [c.args[0]], tupled=False)

    def cell_value(p):
        return mk('ptr', mk('fld', deref_loc(p), 1, 'value', 0))

    @model('core::cell::RefCell::<T>::borrow_mut', 'core::cell::RefCell::<T>::borrow')
    def borrow(e, c, st):
        return [(st, cell_value(c.args[0]))]

    @model('core::cell::RefCell::<T>::try_borrow_mut', 'core::cell::RefCell::<T>::try_borrow')
    def try_borrow(e, c, st):
        s2 = st.copy()
        return [(st, okv(cell_value(c.args[0]))), (s2, errv(mk('borrowerr')))]

    @model('core::cell::RefCell::<T>::new')
    def cell_new(e, c, st):
        return [(st, agg(('adt', 'core::cell::RefCell', 0, 'RefCell'), [ZERO, c.args[0]]))]

    @model('<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref', '<alloc::rc::Rc<T, A> as core::ops::deref::Deref>::deref')
    def rc_deref(e, c, st):
        return [(st, mkref(deref_loc(val(st, c.args[0]))))]

    @model('<alloc::rcs::rc::Rc<T, A> as core::clone::Clone>::clone', '<alloc::rcs::rc::Rc<T> as core::clone::Clone>::clone')
    def rc_clone(e, c, st):
        return [(st, val(st, c.args[0]))]

    @model('alloc::rcs::rc::Rc::<T>::new', 'alloc::boxed::Box::<T>::new')
    def rc_new(e, c, st):
        l = mk('heap', c.site(st))
        st.mem[l] = c.args[0]
        return [(st, mk('ptr', l))]

    @model('alloc::boxed::Box::<T>::new_uninit')
    def box_uninit(e, c, st):
        l = mk('heap', c.site(st))
        st.mem[l] = mk('undef', l)
        return [(st, mk('ptr', l))]

    @model('alloc::boxed::box_assume_init_into_vec_unsafe')
    def box_into_vec(e, c, st):
        v = val(st, c.args[0])
        while v.op in ('agg', 'union', 'upd') and not (v.op == 'agg' and v.a[0][0] == 'array'):
            if v.op == 'union':
                v = v.a[1]
            elif v.op == 'upd':
                v = v.a[1][0][1]
            else:
                v = v.a[1][0]
        if v.op == 'agg':
            return [(st, vec(v, I(len(v.a[1]))))]
        if v.op == 'rep' and v.a[1] is not None:
            return [(st, vec(v, I(v.a[1])))]
        return [(st, mk('call', 'into_vec', v))]

    # AccountInfo clone shares the same cells
    @model("<solana_program::account_info::AccountInfo<'a> as core::clone::Clone>::clone")
    def acc_clone(e, c, st):
        return [(st, val(st, c.args[0]))]

    # ---------------------------------------------------------------- mem
    @model('core::mem::replace')
    def mem_replace(e, c, st):
        l = deref_loc(c.args[0])
        old = e.read(st, l)
        e.write(st, l, c.args[1])
        return [(st, old)]

    @model('core::mem::swap')
    def mem_swap(e, c, st):
        a, b = deref_loc(c.args[0]), deref_loc(c.args[1])
        x, y = e.read(st, a), e.read(st, b)
        e.write(st, a, y)
        e.write(st, b, x)
        return [(st, UNIT)]

    @model('core::mem::take')
    def mem_take(e, c, st):
        l = deref_loc(c.args[0])
        old = e.read(st, l)
        e.write(st, l, mk('default', c.dty))
        return [(st, old)]

    # ---------------------------------------------------------------- zeroed
    def zero_of(tid, depth=0):
        t = eng.prog.types[tid]
        k = t['k']
        if k in ('uint', 'int', 'bool', 'char'):
            return ZERO
        if k == 'array':
            z = zero_of(t['e'], depth + 1)
            n = t.get('n')
            if n is not None and n <= 16:
                return agg(('array',), [z] * n)
            return mk('rep', z, n)
        if k == 'struct' and t.get('path') in eng.transparent:
            return zero_of(t['v'][0]['f'][0][1])
        if k == 'struct':
            return agg(eng.adt_tag(tid, 0), [zero_of(f[1], depth + 1) for f in t['v'][0]['f']])
        if k == 'tuple':
            return agg(('tuple',), [zero_of(f, depth + 1) for f in t['f']])
        return mk('zeroed', t['s'])
    eng.zero_of = zero_of

    @model('bytemuck::zeroable::Zeroable::zeroed', 'core::mem::zeroed')
    def zeroed(e, c, st):
        return [(st, zero_of(c.callee['targs'][0]) if c.callee['targs'] else zero_of(c.dty))]

    @model('<solana_program::pubkey::Pubkey as core::default::Default>::default')
    def pk_default(e, c, st):
        return [(st, zero_of(c.dty))]

    # ---------------------------------------------------------------- byte casts
    def mkview(base, start, t):
        """location of a T at byte offset `start` of the byte array at `base`"""
        if base.op == 'bv' and is_int(start) and start.a[0] == 0 and base.a[1] == t.get('size'):
            return base.a[0]
        return mk('view', base, start, t['s'], t.get('size'))
    eng.mkview = mkview

    def elem_ty(tid):
        t = eng.prog.types[tid]
        return eng.prog.types[t['e']]

    def bytes_at(st, loc, t):
        """byte base/start/len of the object at loc (type t)"""
        if loc.op == 'view' and loc.a[2] == t['s']:
            return loc.a[0], loc.a[1], I(t['size'])
        if loc.op == 'idx' and loc.a[0].op == 'viewarr':
            va = loc.a[0]
            return va.a[0], add(va.a[1], mul(loc.a[1], I(va.a[3]))), I(t['size'])
        return mk('bv', loc, t.get('size')), ZERO, I(t['size'])

    def slice_bytes(e, st, v, et):
        b, s, n = e.to_slice(st, v)
        es = et.get('size') or 1
        if et['s'] == 'u8':
            return b, s, n
        if b.op == 'viewarr' and b.a[2] == et['s']:
            return b.a[0], add(b.a[1], mul(s, I(es))), mul(n, I(es))
        base = mk('bvs', b, et['s'], es)
        return base, mul(s, I(es)), mul(n, I(es))

    def from_bytes(ok):
        def f(e, c, st):
            t = e.prog.types[c.callee['targs'][-1]]
            b, s, n = e.to_slice(st, c.args[0])
            szeq = e.cmp_eq(st, n, I(t['size']))
            p = mkref(mkview(b, s, t))
            out = []
            if ok:
                s2 = st.copy()
                if e.assume(s2, szeq, 1):
                    out.append((s2, okv(p)))
                out.append((st, errv(mk('podcast'))))
            else:
                if e.assume(st, szeq, 1):
                    out.append((st, p))
            return out
        return f
    M['bytemuck::from_bytes'] = M['bytemuck::from_bytes_mut'] = from_bytes(False)
    M['bytemuck::try_from_bytes'] = M['bytemuck::try_from_bytes_mut'] = from_bytes(True)

    def castarr(b, s, n, t):
        """slice of T over n bytes at (b,s)"""
        es = t.get('size') or 1
        if t['s'] == 'u8':
            return mk('slice', b, s, n)
        if b.op == 'bvs' and b.a[1] == t['s']:
            return mk('slice', b.a[0], divq(s, es), divq(n, es))
        return mk('slice', mk('viewarr', b, s, t['s'], es), ZERO, divq(n, es))

    def divq(x, n):
        if n == 1:
            return x
        ts = terms_of(x)
        if all(c % n == 0 for c in ts.values()):
            return from_terms({m: c // n for m, c in ts.items()})
        return mk('div', x, I(n))

    def cast_slice(ok):
        def f(e, c, st):
            ta = [e.prog.types[x] for x in c.callee['targs']]
            A, B = ta[0], ta[1]
            b, s, n = slice_bytes(e, st, c.args[0], A)
            es = B.get('size') or 1
            r = castarr(b, s, n, B)
            if ok:
                s2 = st.copy()
                return [(st, okv(r)), (s2, errv(mk('podcast')))]
            return [(st, r)]
        return f
    M['bytemuck::cast_slice'] = M['bytemuck::cast_slice_mut'] = cast_slice(False)
    M['bytemuck::try_cast_slice'] = M['bytemuck::try_cast_slice_mut'] = cast_slice(True)

    def cast_ref(ok):
        def f(e, c, st):
            ta = [e.prog.types[x] for x in c.callee['targs']]
            A, B = ta[0], ta[1]
            loc = deref_loc(c.args[0])
            if A['s'] == B['s']:
                r = c.args[0]
            else:
                b, s, n = bytes_at(st, loc, A)
                r = mkref(mkview(b, s, B)) if not (b.op == 'bv') else mkref(mk('asview', loc, B['s'], A['s']))
            if ok:
                s2 = st.copy()
                return [(st, okv(r)), (s2, errv(mk('podcast')))]
            return [(st, r)]
        return f
    @model('solana_program::pubkey::Pubkey::new')
    def pk_new(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        return [(st, e.read(st, mk('sl', b, s, I(32))))]

    @model('bytemuck::cast')
    def cast_val(e, c, st):
        from engine import castval, VIEWTY
        A, B = [e.prog.types[x] for x in c.callee['targs']]
        v = c.args[0]
        if A['k'] == 'struct' and B['k'] == 'struct' and A['s'] in VIEWTY and B['s'] in VIEWTY:
            v = castval(v, B['s'], A['s'])
        return [(st, v)]

    M['bytemuck::cast_ref'] = M['bytemuck::cast_mut'] = cast_ref(False)
    M['bytemuck::try_cast_ref'] = M['bytemuck::try_cast_mut'] = cast_ref(True)

    @model('bytemuck::bytes_of', 'bytemuck::bytes_of_mut')
    def bytes_of(e, c, st):
        t = e.prog.types[c.callee['targs'][0]]
        b, s, n = bytes_at(st, deref_loc(c.args[0]), t)
        return [(st, mk('slice', b, s, n))]

    @model('safe_transmute::to_bytes::transmute_to_bytes')
    def tt_bytes(e, c, st):
        t = e.prog.types[c.callee['targs'][0]]
        b, s, n = slice_bytes(e, st, c.args[0], t)
        return [(st, mk('slice', b, s, n))]

    # ---------------------------------------------------------------- slices
    @model('core::slice::<impl [T]>::len')
    def slen(e, c, st):
        return [(st, e.ptr_len(st, c.args[0]))]

    @model('core::slice::<impl [T]>::is_empty')
    def sempty(e, c, st):
        return [(st, e.cmp_eq(st, e.ptr_len(st, c.args[0]), ZERO))]

    @model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
    def as_ptr(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        return [(st, mkref(mkidx2(b, s)))]

    @model('core::ptr::const_ptr::<impl *const T>::offset', 'core::ptr::mut_ptr::<impl *mut T>::offset',
           'core::ptr::const_ptr::<impl *const T>::add', 'core::ptr::mut_ptr::<impl *mut T>::add')
    def poff(e, c, st):
        return [(st, ptr_offset(c.args[0], c.args[1]))]

    @model('core::ptr::const_ptr::<impl *const T>::cast', 'core::ptr::mut_ptr::<impl *mut T>::cast')
    def pcast(e, c, st):
        return [(st, c.args[0])]

    @model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut')
    def frp(e, c, st):
        loc = deref_loc(c.args[0])
        n = c.args[1]
        if loc.op == 'idx':
            return [(st, mkref(mk('sl', loc.a[0], loc.a[1], n)))]
        if loc.op == 'sl':
            return [(st, mkref(mk('sl', loc.a[0], loc.a[1], n)))]
        return [(st, mkref(mk('sl', loc, ZERO, n)))]

    @model('core::slice::raw::from_mut', 'core::slice::raw::from_ref')
    def from_mut(e, c, st):
        loc = deref_loc(c.args[0])
        return [(st, mk('slice', mk('one', loc), ZERO, ONE))]

    @model('core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at')
    def split_at(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        m = c.args[1]
        if not e.assume(st, e.cmp_lt(st, n, m), 0):
            return []
        return [(st, agg(('tuple',), [mkref(mk('sl', b, s, m)), mkref(mk('sl', b, add(s, m), sub(n, m)))]))]

    def opt_elem(e, st, b, s, i, n):
        out = []
        c = e.cmp_lt(st, i, n)
        s2 = st.copy()
        if e.assume(s2, c, 1):
            out.append((s2, e.some(mkref(mkidx2(b, add(s, i))))))
        if e.assume(st, c, 0):
            out.append((st, e.none()))
        return out

    @model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
    def first(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        return opt_elem(e, st, b, s, ZERO, n)

    @model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
    def last(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        z = e.cmp_eq(st, n, ZERO)
        out = []
        s2 = st.copy()
        if e.assume(s2, z, 0):
            out.append((s2, e.some(mkref(mkidx2(b, add(s, sub(n, ONE)))))))
        if e.assume(st, z, 1):
            out.append((st, e.none()))
        return out

    def index_value(e, st, b, s, n, ix, checked=True):
        """pointer for an index/range value; None if unsupported. may add facts"""
        if ix.op == 'agg' and ix.a[0][0] == 'adt':
            nm = ix.a[0][1].split('::')[-1]
            fs = ix.a[1]
            if nm == 'Range':
                lo, hi = fs[0], fs[1]
            elif nm == 'RangeTo':
                lo, hi = ZERO, fs[0]
            elif nm == 'RangeFrom':
                lo, hi = fs[0], n
            elif nm == 'RangeFull':
                lo, hi = ZERO, n
            elif nm == 'RangeInclusive':
                lo, hi = fs[0], add(fs[1], ONE)
            elif nm == 'RangeToInclusive':
                lo, hi = ZERO, add(fs[0], ONE)
            else:
                return None
            conds = [(e.cmp_lt(st, hi, lo), 0), (e.cmp_lt(st, n, hi), 0)]
            return mkref(mk('sl', b, add(s, lo), sub(hi, lo))), conds
        if ix.op == 'agg':
            return None
        c = e.lookup(st, ix)
        if c is not None:
            ix = I(c)
        return mkref(mkidx2(b, add(s, ix))), [(e.cmp_lt(st, ix, n), 1)]

    @model('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut',
           '<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
           'core::array::<impl core::ops::index::Index<I> for [T; N]>::index', 'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut')
    def sindex(e, c, st):
        if 'vec::Vec' in c.callee['path']:
            b, s, n = vec_slice(e, st, c.args[0])
        else:
            if c.callee['path'].startswith('core::array') and c.atys:
                t = e.prog.types[e.prog.types[c.atys[0]]['e']]
                if t.get('n') is not None:
                    e.arrlen[deref_loc(c.args[0])] = t['n']
            b, s, n = e.to_slice(st, c.args[0])
        r = index_value(e, st, b, s, n, c.args[1])
        if r is None:
            return None
        p, conds = r
        for cond, w in conds:
            if not e.assume(st, cond, w):
                return []
        return [(st, p)]

    @model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
    def sget(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        r = index_value(e, st, b, s, n, c.args[1])
        if r is None:
            return None
        p, conds = r
        out = []
        s2 = st.copy()
        if all(e.assume(s2, cond, w) for cond, w in conds):
            out.append((s2, e.some(p)))
        for i, (cond, w) in enumerate(conds):
            s3 = st.copy()
            if all(e.assume(s3, cc, ww) for cc, ww in conds[:i]) and e.assume(s3, cond, 1 - w):
                out.append((s3, e.none()))
        return out

    @model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
    def sgetu(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        r = index_value(e, st, b, s, n, c.args[1])
        return None if r is None else [(st, r[0])]

    @model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
    def cfs(e, c, st):
        db, ds, dn = e.to_slice(st, c.args[0])
        sb, ss, sn = e.to_slice(st, c.args[1])
        if not e.assume(st, e.cmp_eq(st, dn, sn), 1):
            return []
        c1 = e.lookup(st, dn)
        n = dn if not is_int(sn) else sn
        if c1 is not None:
            n = I(c1)
        v = e.read(st, mk('sl', sb, ss, n))
        e.write(st, mk('sl', db, ds, n), v)
        return [(st, UNIT)]

    @model('core::slice::<impl [T]>::contains')
    def contains(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        x = val(st, c.args[1])
        if is_int(n) and n.a[0] <= 16:
            r = ZERO
            for j in range(n.a[0]):
                q = e.cmp_eq(st, e.read(st, mkidx2(b, add(s, I(j)))), x)
                r = neg_bool(e.band(neg_bool(r), neg_bool(q)))
            return [(st, r)]
        return [(st, mk('contains', e.read(st, mk('sl', b, s, n)), x))]

    @model('core::slice::<impl [T]>::binary_search_by_key')
    def bsearch_key(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        key = val(st, c.args[1])
        i = mk('bsearch', b, s, n, key, c.site(st))
        s2 = st.copy()
        out = [(s2, errv(mk('bsearch_ins', i)))]
        if e.assume(st, e.cmp_lt(st, i, n), 1):
            for s3, k in e.call_value(c, st, c.args[2], [mkref(mkidx2(b, add(s, i)))], tupled=False):
                if e.assume(s3, e.cmp_eq(s3, k, key), 1):
                    out.append((s3, okv(i)))
        return out

    @model('core::slice::<impl [T]>::binary_search')
    def bsearch(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        key = val(st, c.args[1])
        i = mk('bsearch', b, s, n, key, c.site(st))
        s2 = st.copy()
        out = [(s2, errv(mk('bsearch_ins', i)))]
        if e.assume(st, e.cmp_lt(st, i, n), 1):
            if e.assume(st, e.cmp_eq(st, e.read(st, mkidx2(b, add(s, i))), key), 1):
                out.append((st, okv(i)))
        return out

    # three-way comparison
    def ordv(i):
        return agg(('adt', 'core::cmp::Ordering', i, ('Less', 'Equal', 'Greater')[i]), [])

    def three(e, c, st):
        a, b = val(st, c.args[0]), val(st, c.args[1])
        out = []
        s2 = st.copy()
        if e.assume(s2, e.cmp_eq(s2, a, b), 1):
            out.append((s2, ordv(1)))
        if e.assume(st, e.cmp_eq(st, a, b), 0):
            lt = e.cmp_lt(st, a, b) if a.op != 'agg' and b.op != 'agg' else mk('lexlt', a, b)
            s3 = st.copy()
            if e.assume(s3, lt, 1):
                out.append((s3, ordv(0)))
            if e.assume(st, lt, 0):
                out.append((st, ordv(2)))
        return out
    for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i64', 'i32', 'i128'):
        M['core::cmp::impls::<impl core::cmp::Ord for %s>::cmp' % t] = three
    for t in ('core::array::<impl core::cmp::Ord for [T; N]>::cmp', 'core::slice::cmp::<impl core::cmp::Ord for [T]>::cmp',
              '<solana_program::pubkey::Pubkey as core::cmp::Ord>::cmp', '<core::num::nonzero::NonZero<T> as core::cmp::Ord>::cmp'):
        M[t] = three

    @model('core::slice::<impl [T]>::binary_search_by')
    def bsearch_by(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        i = mk('bsearch', b, s, n, e.deepval(st, c.args[1]), c.site(st))
        s2 = st.copy()
        out = [(s2, errv(mk('bsearch_ins', i)))]
        if e.assume(st, e.cmp_lt(st, i, n), 1):
            for s3, k in e.call_value(c, st, c.args[1], [mkref(mkidx2(b, add(s, i)))], tupled=False):
                if k.op == 'agg':
                    if k.a[0][2] == 1:
                        out.append((s3, okv(i)))
                elif e.assume(s3, e.cmp_eq(s3, mk('discr', k), ZERO), 1):
                    out.append((s3, okv(i)))
        return out

    # ---------------------------------------------------------------- Vec
    def vec(buf, n):
        return agg(('adt', 'vec', 0, 'vec'), [buf, n])
    eng.vec = vec

    def vec_slice(e, st, p):
        l = deref_loc(p)
        n = e.read(st, mk('fld', l, 1, 'len', 0))
        return mk('fld', l, 0, 'buf', 0), ZERO, n
    eng.vec_slice = vec_slice

    @model('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
           'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
           '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref', '<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow')
    def vderef(e, c, st):
        return [(st, mk('slice', *vec_slice(e, st, c.args[0])))]

    @model('alloc::vec::Vec::<T, A>::len')
    def vlen(e, c, st):
        return [(st, vec_slice(e, st, c.args[0])[2])]

    @model('alloc::vec::Vec::<T, A>::is_empty')
    def vempty(e, c, st):
        return [(st, e.cmp_eq(st, vec_slice(e, st, c.args[0])[2], ZERO))]

    @model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', '<alloc::vec::Vec<T> as core::default::Default>::default')
    def vnew(e, c, st):
        return [(st, vec(agg(('array',), []), ZERO))]

    @model('alloc::vec::Vec::<T, A>::push')
    def vpush(e, c, st):
        l = deref_loc(c.args[0])
        v = e.read(st, l)
        x = c.args[1]
        if e.vpush_hook is not None:
            e.vpush_hook(st, x)
        if v.op == 'agg' and v.a[1][0].op == 'agg' and is_int(v.a[1][1]):
            e.write(st, l, vec(agg(('array',), list(v.a[1][0].a[1]) + [x]), add(v.a[1][1], ONE)))
        else:
            b, s, n = vec_slice(e, st, c.args[0])
            e.write(st, l, vec(mk('vpush', e.read(st, b), n, x), add(n, ONE)))
        return [(st, UNIT)]

    @model('alloc::vec::Vec::<T, A>::append', 'alloc::vec::Vec::<T, A>::extend_from_slice')
    def vappend(e, c, st):
        l = deref_loc(c.args[0])
        v = e.read(st, l)
        if c.callee['path'].endswith('append'):
            o = val(st, c.args[1])
            if o.op == 'agg' and o.a[1][0].op == 'agg' and is_int(o.a[1][1]):
                items = list(o.a[1][0].a[1])
            else:
                items = None
            e.write(st, deref_loc(c.args[1]), vec(agg(('array',), []), ZERO))
        else:
            b, s, n = e.to_slice(st, c.args[1])
            items = [e.read(st, mkidx2(b, add(s, I(j)))) for j in range(n.a[0])] if is_int(n) and n.a[0] <= 64 else None
        if items is not None and v.op == 'agg' and v.a[1][0].op == 'agg' and is_int(v.a[1][1]):
            e.write(st, l, vec(agg(('array',), list(v.a[1][0].a[1]) + items), add(v.a[1][1], I(len(items)))))
        else:
            e.write(st, l, mk('vappend', v, mk('items', *(items or ())), c.site(st)))
        return [(st, UNIT)]

    @model('alloc::vec::Vec::<T, A>::pop')
    def vpop(e, c, st):
        l = deref_loc(c.args[0])
        v = e.read(st, l)
        if v.op == 'agg' and v.a[1][0].op == 'agg' and is_int(v.a[1][1]):
            items = v.a[1][0].a[1]
            if not items:
                return [(st, e.none())]
            e.write(st, l, vec(agg(('array',), items[:-1]), I(len(items) - 1)))
            return [(st, e.some(items[-1]))]
        return None

    @model('alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned')
    def to_vec(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        return [(st, vec(e.read(st, mk('sl', b, s, n)), n))]

    @model('<alloc::vec::Vec<T, A> as core::clone::Clone>::clone')
    def vclone(e, c, st):
        return [(st, val(st, c.args[0]))]

    @model('alloc::slice::<impl [T]>::concat')
    def concat(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        out = []
        if is_int(n) and n.a[0] <= 16:
            tot = ZERO
            for j in range(n.a[0]):
                x = e.read(st, mkidx2(b, add(s, I(j))))
                bb, ss, nn = e.to_slice(st, x)
                out.append(e.read(st, mk('sl', bb, ss, nn)))
                tot = add(tot, nn)
            return [(st, vec(mk('concat', *out), tot))]
        return None

    # ---------------------------------------------------------------- iterators
    def mkiter(b, s, n, kind='ptr'):
        return agg(('adt', 'iter', 0, 'iter'), [mk('ptr', b) if b.op != 'deref' else mk('ptr', b), s, add(s, n), mk('ik', kind)])

    @model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
           "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
           "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
           "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter",
           "core::array::<impl core::iter::traits::collect::IntoIterator for &'a mut [T; N]>::into_iter",
           "core::slice::iter::Iter::<'a, T>::new", "core::slice::iter::IterMut::<'a, T>::new")
    def siter(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        t = e.prog.types[c.atys[0]] if c.atys else {}
        if 'e' in t:
            te = e.prog.types[t['e']]
            if te['k'] == 'array' and te.get('n') is not None:
                n = I(te['n'])
        return [(st, mkiter(b, s, n))]

    @model("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter", "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
    def viter(e, c, st):
        return [(st, mkiter(*vec_slice(e, st, c.args[0])))]

    @model('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
    def vinto(e, c, st):
        l = mk('heap', c.site(st))
        st.mem[l] = c.args[0]
        b, s, n = vec_slice(e, st, mk('ptr', l))
        return [(st, mkiter(b, s, n, 'val'))]

    @model('core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
    def ainto(e, c, st):
        l = mk('heap', c.site(st))
        st.mem[l] = c.args[0]
        return [(st, mkiter(l, ZERO, e.len_of(st, l), 'val'))]

    def iter_next(e, st, l):
        """outcomes (state, Option item)"""
        v = e.read(st, l)
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'iter':
            bp, s, en, kind = v.a[1]
            cnd = e.cmp_lt(st, s, en)
            out = []
            s2 = st.copy()
            if e.assume(s2, cnd, 1):
                loc = mkidx2(bp.a[0], s)
                e.write(s2, l, agg(v.a[0], [bp, add(s, ONE), en, kind]))
                item = mkref(loc) if kind.a[0] == 'ptr' else e.read(s2, loc)
                out.append((s2, e.some(item)))
            if e.assume(st, cnd, 0):
                out.append((st, e.none()))
            return out
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'zip' and all(z.op == 'agg' and z.a[0][0] == 'adt' and z.a[0][1] == 'iter' for z in v.a[1]):
            out = []
            for s2, r in iter_next(e, st, mk('fld', l, 0, 'a', 0)):
                if r.a[0][2] == 0:
                    out.append((s2, r))
                    continue
                for s3, r2 in iter_next(e, s2, mk('fld', l, 1, 'b', 0)):
                    if r2.a[0][2] == 0:
                        out.append((s3, r2))
                    else:
                        out.append((s3, e.some(agg(('tuple',), [r.a[1][0], r2.a[1][0]]))))
            return out
        if v.op == 'agg' and v.a[0][0] == 'adt':
            r = istep(e, None, st, v)
            if r is not None:
                out = []
                for s2, i2, x in r:
                    e.write(s2, l, i2)
                    out.append((s2, e.none() if x is None else e.some(x)))
                return out
        return None
    eng.iter_next = iter_next

    @model('core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks')
    def chunks(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        k = c.args[1]
        if not is_int(k) or k.a[0] == 0 or 'exact' not in c.callee['path'] and not (is_int(n) and n.a[0] % k.a[0] == 0):
            return None
        return [(st, agg(('adt', 'chunks', 0, 'chunks'), [mk('ptr', b), s, add(s, n), k]))]

    def istep(e, c, st, it):
        """one step of an iterator value: [(state, iterator', item or None)], or None when unknown"""
        if not (it.op == 'agg' and it.a[0][0] == 'adt'):
            return None
        p, f = it.a[0][1], it.a[1]
        if p == 'iter':
            bp, s, en, kind = f
            cnd = e.cmp_lt(st, s, en)
            out = []
            s2 = st.copy()
            if e.assume(s2, cnd, 1):
                loc = mkidx2(bp.a[0], s)
                out.append((s2, agg(it.a[0], [bp, add(s, ONE), en, kind]), mkref(loc) if kind.a[0] == 'ptr' else e.read(s2, loc)))
            if e.assume(st, cnd, 0):
                out.append((st, it, None))
            return out
        if p == 'chunks':
            bp, s, en, k = f
            cnd = e.cmp_lt(st, sub(en, s), k)
            out = []
            s2 = st.copy()
            if e.assume(s2, cnd, 0):
                out.append((s2, agg(it.a[0], [bp, add(s, k), en, k]), mk('slice', bp.a[0], s, k)))
            if e.assume(st, cnd, 1):
                out.append((st, it, None))
            return out
        if p == 'zip':
            r = istep(e, c, st, f[0])
            if r is None:
                return None
            out = []
            for s2, i2, x in r:
                if x is None:
                    out.append((s2, agg(it.a[0], [i2, f[1]]), None))
                    continue
                r2 = istep(e, c, s2, f[1])
                if r2 is None:
                    return None
                for s3, i3, y in r2:
                    out.append((s3, agg(it.a[0], [i2, i3]), None if y is None else agg(('tuple',), [x, y])))
            return out
        nm = p.rsplit('::', 1)[-1]
        if p == 'chain':
            r = istep(e, c, st, f[0])
            if r is None:
                return None
            out = []
            for s2, i2, x in r:
                if x is not None:
                    out.append((s2, agg(it.a[0], [i2, f[1]]), x))
                    continue
                r2 = istep(e, c, s2, f[1])
                if r2 is None:
                    return None
                out += [(s3, agg(it.a[0], [i2, i3]), y) for s3, i3, y in r2]
            return out
        if nm == 'Range' and len(f) == 2:
            cnd = e.cmp_lt(st, f[0], f[1])
            out = []
            s2 = st.copy()
            if e.assume(s2, cnd, 1):
                out.append((s2, agg(it.a[0], [add(f[0], ONE), f[1]]), f[0]))
            if e.assume(st, cnd, 0):
                out.append((st, it, None))
            return out
        if nm == 'Skip':
            n = e.lookup(st, f[1])
            if n is None or n > 16:
                return None
            if n == 0:
                r = istep(e, c, st, f[0])
                return None if r is None else [(s2, agg(it.a[0], [i2, ZERO]), x) for s2, i2, x in r]
            r = istep(e, c, st, f[0])
            if r is None:
                return None
            out = []
            for s2, i2, x in r:
                if x is None:
                    out.append((s2, agg(it.a[0], [i2, ZERO]), None))
                else:
                    r2 = istep(e, c, s2, agg(it.a[0], [i2, I(n - 1)]))
                    if r2 is None:
                        return None
                    out += r2
            return out
        if nm in ('Map', 'Filter', 'FilterMap', 'Enumerate', 'Copied', 'Cloned', 'Take') and c is not None:
            if nm == 'Take':
                n = e.lookup(st, f[1])
                if n is None:
                    return None
                if n == 0:
                    return [(st, it, None)]
            r = istep(e, c, st, f[0])
            if r is None:
                return None
            out = []
            for s2, i2, x in r:
                if x is None:
                    out.append((s2, agg(it.a[0], [i2] + list(f[1:])), None))
                    continue
                if nm in ('Copied', 'Cloned'):
                    out.append((s2, agg(it.a[0], [i2] + list(f[1:])), e.read(s2, deref_loc(x))))
                elif nm == 'Enumerate':
                    out.append((s2, agg(it.a[0], [i2, add(f[1], ONE)]), agg(('tuple',), [f[1], x])))
                elif nm == 'Take':
                    out.append((s2, agg(it.a[0], [i2, sub(f[1], ONE)]), x))
                elif nm == 'Map':
                    for s3, y in e.call_value(c, s2, f[1], [x], tupled=False):
                        out.append((s3, agg(it.a[0], [i2, f[1]]), y))
                else:
                    nit = agg(it.a[0], [i2, f[1]])
                    arg = x
                    if nm == 'Filter':
                        tmp = mk('heap', mk('tmp', c.site(s2), x))
                        s2.mem[tmp] = x
                        arg = mk('ptr', tmp)
                    for s3, y in e.call_value(c, s2, f[1], [arg], tupled=False):
                        rest = []
                        if nm == 'Filter':
                            s4 = s3.copy()
                            if e.assume(s4, y, 1):
                                out.append((s4, nit, x))
                            if e.assume(s3, y, 0):
                                rest.append(s3)
                        else:
                            for s4, i, q in eng.opt_cases(s3, y):
                                if i == 1:
                                    out.append((s4, nit, q[0]))
                                else:
                                    rest.append(s4)
                        for s4 in rest:
                            r4 = istep(e, c, s4, nit)
                            if r4 is None:
                                return None
                            out += r4
            return out
        return None
    eng.istep = istep

    def to_iter(e, c, st, v):
        """IntoIterator::into_iter on a value"""
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'vec':
            l = mk('heap', mk('tmp', c.site(st), v))
            st.mem[l] = v
            b, s, n = vec_slice(e, st, mk('ptr', l))
            return mkiter(b, s, n, 'val')
        if v.op == 'agg' and v.a[0][0] == 'array':
            l = mk('heap', mk('tmp', c.site(st), v))
            st.mem[l] = v
            return mkiter(l, ZERO, I(len(v.a[1])), 'val')
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][3] in ('Some', 'None'):
            l = mk('heap', mk('tmp', c.site(st), v))
            st.mem[l] = agg(('array',), list(v.a[1]))
            return mkiter(l, ZERO, I(len(v.a[1])), 'val')
        if v.op in ('ptr', 'slice'):
            try:
                x = e.read(st, v.a[0]) if v.op == 'ptr' else None
                if x is not None and x.op == 'agg' and x.a[0][0] == 'adt' and x.a[0][1] == 'vec':
                    return mkiter(*vec_slice(e, st, v))
                return mkiter(*e.to_slice(st, v))
            except Exception:
                return v
        return v

    def drain(e, c, st, it):
        """[(state, items)] of an iterator of bounded length; None when unknown"""
        k = isize(it)
        if k is None or k > 16:
            return None
        work, out = [(st, it, [])], []
        while work:
            s1, i1, acc = work.pop()
            r = istep(e, c, s1, i1)
            if r is None:
                return None
            for s2, i2, x in r:
                if x is None:
                    out.append((s2, acc))
                else:
                    work.append((s2, i2, acc + [x]))
        return out

    @model("core::slice::iter::Iter::<'a, T>::as_slice", "<core::slice::iter::Iter<'_, T> as core::convert::AsRef<[T]>>::as_ref", "core::slice::iter::IterMut::<'a, T>::as_slice",
           "core::slice::iter::IterMut::<'a, T>::into_slice")
    def iter_slice(e, c, st):
        v = c.args[0]
        if v.op == 'ptr':
            v = e.read(st, deref_loc(v))
        if v.op == 'agg' and v.a[0][:2] == ('adt', 'iter') and v.a[1][3] is mk('ik', 'ptr') and v.a[1][0].op == 'ptr':
            p, s, t = v.a[1][:3]
            return [(st, mk('slice', p.a[0], s, sub(t, s)))]
        return None

    def vknown(e, st, p):
        l = deref_loc(p)
        v = e.read(st, l)
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] == 'vec' and v.a[1][0].op == 'agg' and is_int(v.a[1][1]) and len(v.a[1][0].a[1]) == v.a[1][1].a[0]:
            return l, list(v.a[1][0].a[1])
        return None

    def vput(e, st, l, xs):
        e.write(st, l, e.vec(agg(('array',), xs), I(len(xs))))

    @model('alloc::vec::Vec::<T, A>::drain', 'alloc::vec::Vec::<T, A>::split_off', 'alloc::vec::Vec::<T, A>::truncate', 'alloc::vec::Vec::<T, A>::remove',
           'alloc::vec::Vec::<T, A>::swap_remove', 'alloc::vec::Vec::<T, A>::insert', 'alloc::vec::Vec::<T, A>::clear')
    def vcut(e, c, st):
        k = vknown(e, st, c.args[0])
        if k is None:
            return None
        l, xs = k
        n = len(xs)
        op = c.callee['path'].split('::')[-1]
        if op == 'clear':
            vput(e, st, l, [])
            return [(st, UNIT)]
        if op == 'drain':
            ix = c.args[1]
            nm = ix.a[0][1].split('::')[-1] if ix.op == 'agg' and ix.a[0][0] == 'adt' else None
            b = {'Range': lambda f: (f[0], f[1]), 'RangeTo': lambda f: (ZERO, f[0]), 'RangeFrom': lambda f: (f[0], I(n)), 'RangeFull': lambda f: (ZERO, I(n)),
                 'RangeInclusive': lambda f: (f[0], add(f[1], ONE)), 'RangeToInclusive': lambda f: (ZERO, add(f[0], ONE))}.get(nm)
            if b is None:
                return None
            lo, hi = b(ix.a[1])
            if not (is_int(lo) and is_int(hi)):
                return None
            lo, hi = lo.a[0], hi.a[0]
            if lo > hi or hi > n:
                return []
            vput(e, st, l, xs[:lo] + xs[hi:])
            h = mk('heap', mk('tmp', c.site(st), l))
            st.mem[h] = agg(('array',), xs[lo:hi])
            return [(st, mkiter(h, ZERO, I(hi - lo), 'val'))]
        i = c.args[1]
        if not is_int(i):
            return None
        i = i.a[0]
        if op == 'truncate':
            vput(e, st, l, xs[:i])
            return [(st, UNIT)]
        if i > n or i == n and op in ('remove', 'swap_remove'):
            return []
        if op == 'split_off':
            vput(e, st, l, xs[:i])
            return [(st, e.vec(agg(('array',), xs[i:]), I(n - i)))]
        if op == 'insert':
            vput(e, st, l, xs[:i] + [c.args[2]] + xs[i:])
            return [(st, UNIT)]
        x = xs[i]
        if op == 'remove':
            vput(e, st, l, xs[:i] + xs[i + 1:])
        else:
            xs[i] = xs[-1]
            vput(e, st, l, xs[:-1])
        return [(st, x)]

    def vextend(e, c, st):
        l = deref_loc(c.args[0])
        v = e.read(st, l)
        it = to_iter(e, c, st, c.args[1])
        r = drain(e, c, st, it)
        if r is None or not (v.op == 'agg' and v.a[1][0].op == 'agg' and is_int(v.a[1][1])):
            if isize(it) is None and c.callee['path'].endswith('extend_from_slice'):
                return None
            e.write(st, l, mk('vappend', v, mk('items'), c.site(st)))
            return [(st, UNIT)]
        out = []
        for s2, items in r:
            if 'Extend<&' in c.callee['path']:
                items = [e.read(s2, deref_loc(x)) for x in items]
            v = e.read(s2, l)
            e.write(s2, l, vec(agg(('array',), list(v.a[1][0].a[1]) + items), add(v.a[1][1], I(len(items)))))
            out.append((s2, UNIT))
        return out
    for t in ('<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend', "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend"):
        M[t] = vextend

    def isize(it):
        """concrete upper bound on the number of source elements, or None"""
        if not (it.op == 'agg' and it.a[0][0] == 'adt'):
            return None
        p, f = it.a[0][1], it.a[1]
        if p in ('iter', 'chunks'):
            n = sub(f[2], f[1])
            return (n.a[0] if p == 'iter' else n.a[0] // f[3].a[0]) if is_int(n) else None
        if p == 'zip':
            a, b = isize(f[0]), isize(f[1])
            return None if a is None or b is None else min(a, b)
        if p == 'chain':
            a, b = isize(f[0]), isize(f[1])
            return None if a is None or b is None else a + b
        nm = p.rsplit('::', 1)[-1]
        if nm == 'Range' and len(f) == 2:
            n = sub(f[1], f[0])
            return max(n.a[0], 0) if is_int(n) else None
        if nm == 'Take' and is_int(f[1]):
            n = isize(f[0])
            return f[1].a[0] if n is None else min(n, f[1].a[0])
        if nm in ('Map', 'Filter', 'FilterMap', 'Enumerate', 'Copied', 'Cloned', 'Take', 'Skip'):
            return isize(f[0])
        return None
    def ifiltered(it):
        """does an adapter of the chain drop elements (2^n outcomes when enumerated)"""
        while it.op == 'agg' and it.a[0][0] == 'adt' and it.a[1]:
            nm = it.a[0][1].rsplit('::', 1)[-1]
            if nm in ('Filter', 'FilterMap'):
                return True
            it = it.a[1][0]
        return False
    eng.isize = isize

    @model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
           "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next",
           '<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next',
           '<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next',
           '<core::iter::adapters::zip::Zip<A, B> as core::iter::traits::iterator::Iterator>::next',
           "<core::slice::iter::ChunksExact<'a, T> as core::iter::traits::iterator::Iterator>::next")
    def inext(e, c, st):
        r = iter_next(e, st, deref_loc(c.args[0]))
        if r is None:
            # opaque iterator: unknown element
            return e.opaque_iter_next(c, st)
        return r

    def opaque_iter_next(c, st):
        l = deref_loc(c.args[0])
        v = eng.read(st, l)
        s2 = st.copy()
        eng.write(s2, l, mk('iternext', v, c.site(st)))
        return [(s2, eng.some(mk('iteritem', v, c.site(st)))), (st, eng.none())]
    eng.opaque_iter_next = opaque_iter_next

    @model('core::iter::traits::iterator::Iterator::zip')
    def izip(e, c, st):
        b = c.args[1]
        if b.op in ('ptr', 'slice'):
            b = mkiter(*e.to_slice(st, b))
        elif b.op == 'agg' and b.a[0][0] == 'adt' and b.a[0][1] == 'vec':
            l = mk('heap', c.site(st))
            st.mem[l] = b
            bb, s, n = vec_slice(e, st, mk('ptr', l))
            b = mkiter(bb, s, n, 'val')
        return [(st, agg(('adt', 'zip', 0, 'zip'), [c.args[0], b]))]

    @model('core::iter::traits::iterator::Iterator::chain')
    def ichain(e, c, st):
        b = to_iter(e, c, st, c.args[1])
        if isize(c.args[0]) is None or isize(b) is None:
            return None
        return [(st, agg(('adt', 'chain', 0, 'chain'), [c.args[0], b]))]

    def chain_next(e, c, st):
        l = deref_loc(c.args[0])
        r = istep(e, c, st, e.read(st, l))
        if r is None:
            return None
        out = []
        for s2, i2, x in r:
            e.write(s2, l, i2)
            out.append((s2, e.none() if x is None else e.some(x)))
        return out
    M['<core::iter::adapters::chain::Chain<A, B> as core::iter::traits::iterator::Iterator>::next'] = chain_next
    M['<core::iter::adapters::skip::Skip<I> as core::iter::traits::iterator::Iterator>::next'] = chain_next

    def consumer(kind):
        def f(e, c, st):
            l = deref_loc(c.args[0]) if c.args[0].op in ('ptr', 'slice') else None
            it = e.read(st, l) if l is not None else c.args[0]
            k = isize(it)
            if k is None or k > 16 or (k > 4 and ifiltered(it)):
                return None
            acc0 = c.args[1] if kind == 'fold' else UNIT
            fn = c.args[2] if kind == 'fold' else c.args[1]
            work, out = [(st, it, acc0)], []
            while work:
                s1, i1, acc = work.pop()
                r = istep(e, c, s1, i1)
                if r is None:
                    return None
                for s2, i2, x in r:
                    if x is None:
                        if l is not None:
                            e.write(s2, l, i2)
                        if kind == 'try_for_each':
                            rp = (e.prog.types[c.dty].get('path') or '').rsplit('::', 1)[-1]
                            if rp not in ('Result', 'Option'):
                                return None
                            out.append((s2, okv(UNIT) if rp == 'Result' else e.some(UNIT)))
                        else:
                            out.append((s2, acc))
                        continue
                    for s3, y in e.call_value(c, s2, fn, [acc, x] if kind == 'fold' else [x], tupled=False):
                        if kind == 'try_for_each':
                            rp = (e.prog.types[c.dty].get('path') or '').rsplit('::', 1)[-1]
                            for s4, i, q in (eng.opt_cases if rp == 'Option' else eng.res_cases)(s3, y):
                                if (i == 1) == (rp == 'Option'):
                                    work.append((s4, i2, UNIT))
                                else:
                                    if l is not None:
                                        e.write(s4, l, i2)
                                    out.append((s4, e.none() if rp == 'Option' else errv(q[0])))
                        else:
                            work.append((s3, i2, y if kind == 'fold' else UNIT))
            return out
        return f
    for nm in ('for_each', 'fold', 'try_for_each'):
        M['core::iter::traits::iterator::Iterator::' + nm] = consumer(nm)

    # element-wise iteration over an arbitrary element: used for adaptor chains whose
    # length is unknown.  The closure may only have logged effects.
    def any_item(e, c, st, it):
        """outcomes (state, item) for an arbitrary element of iterator value it; None = unsupported"""
        if it.op == 'agg' and it.a[0][0] == 'adt':
            p = it.a[0][1]
            if p == 'iter':
                bp, s, en, kind = it.a[1]
                j = mk('anyidx', bp, s, en)
                loc = mkidx2(bp.a[0], j)
                return [(st, mkref(loc) if kind.a[0] == 'ptr' else e.read(st, loc))]
            if p.endswith('::FilterMap') or p.endswith('::Map') or p.endswith('::Filter'):
                src = any_item(e, c, st, it.a[1][0])
                if src is None:
                    return None
                out = []
                for s2, x in src:
                    if p.endswith('::Filter'):
                        tmp = mk('heap', mk('tmp', c.site(s2), x))
                        s2.mem[tmp] = x
                        for s3, r in e.call_value(c, s2, it.a[1][1], [mk('ptr', tmp)], tupled=False):
                            if e.assume(s3, r, 1):
                                out.append((s3, x))
                        continue
                    for s3, r in e.call_value(c, s2, it.a[1][1], [x], tupled=False):
                        if p.endswith('::FilterMap'):
                            for s4, i, q in eng.opt_cases(s3, r):
                                if i == 1:
                                    out.append((s4, q[0]))
                                elif s4.log != st.log:
                                    out.append((s4, None))
                        else:
                            out.append((s3, r))
                return out
            if p.endswith('::Cloned') or p.endswith('::Copied'):
                src = any_item(e, c, st, it.a[1][0])
                return None if src is None else [(s2, e.read(s2, deref_loc(x))) for s2, x in src if x is not None]
        return None
    eng.any_item = any_item

    @model('core::iter::traits::iterator::Iterator::collect', '<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter')
    def collect(e, c, st):
        rt = e.prog.types[c.dty]
        rp = rt.get('path') or ''
        k = isize(c.args[0])
        wrap = rp.rsplit('::', 1)[-1] if rp.rsplit('::', 1)[-1] in ('Option', 'Result') else None
        if wrap and k is None:
            v = mk('collected', c.site(st), e.deepval(st, c.args[0]))
            fail = e.none() if wrap == 'Option' else errv(mk('collecterr', v))
            return [(st.copy(), fail), (st, (e.some if wrap == 'Option' else okv)(vec(v, mk('len', v))))]
        if k is not None and k <= 16 and (wrap or rp.endswith('vec::Vec')) and not (k > 4 and ifiltered(c.args[0])):
            work, out = [(st, c.args[0], [])], []
            while work:
                s1, it, acc = work.pop()
                r = istep(e, c, s1, it)
                if r is None:
                    return None
                for s2, i2, x in r:
                    if x is None:
                        v = vec(agg(('array',), acc), I(len(acc)))
                        out.append((s2, v if not wrap else e.some(v) if wrap == 'Option' else okv(v)))
                    elif not wrap:
                        work.append((s2, i2, acc + [x]))
                    else:
                        for s3, i, q in (eng.opt_cases if wrap == 'Option' else eng.res_cases)(s2, x):
                            if (i == 1) == (wrap == 'Option'):
                                work.append((s3, i2, acc + [q[0]]))
                            else:
                                out.append((s3, e.none() if wrap == 'Option' else errv(q[0])))
            return out
        if not rp.endswith('vec::Vec'):
            return None
        n0 = len(st.log)
        r = any_item(e, c, st.copy(), c.args[0])
        if r is None:
            return None
        alts = []
        for s2, x in r:
            nf = tuple(sorted(((k, v) for k, v in s2.facts.items() if st.facts.get(k) != v), key=lambda z: z[0].id))
            alts.append(mk('alt', tuple((k, v[0], tuple(sorted(v[1]))) for k, v in nf), mk('log', *s2.log[n0:]), x if x is not None else 0))
        buf = mk('collected', c.site(st), *alts)
        if any(a.a[1].a for a in alts):
            st.log = st.log + (mk('foreach', buf),)
        return [(st, vec(buf, mk('len', buf)))]

    # searching consumers over a slice iterator of unknown length: some element satisfies the
    # predicate (an arbitrary in-range index), or none does
    def searcher(mode, byref):
        def f(e, c, st):
            l = deref_loc(c.args[0]) if c.args[0].op in ('ptr', 'slice') else None
            it = e.read(st, l) if l is not None else c.args[0]
            if not (it.op == 'agg' and it.a[0][0] == 'adt' and it.a[0][1] == 'iter'):
                k = isize(it)
                if k is None or k > 16 or (k > 4 and ifiltered(it)):
                    return None
                want = 0 if mode == 'all' else 1
                miss = {'any': ZERO, 'all': ONE}.get(mode) or e.none()
                work, out = [(st, it, 0)], []
                while work:
                    s1, i1, n = work.pop()
                    r = istep(e, c, s1, i1)
                    if r is None:
                        return None
                    for s2, i2, x in r:
                        if l is not None:
                            e.write(s2, l, i2)
                        if x is None:
                            out.append((s2, miss))
                            continue
                        arg = x
                        if byref:
                            tmp = mk('heap', mk('tmp', c.site(s2), x))
                            s2.mem[tmp] = x
                            arg = mk('ptr', tmp)
                        for s3, y in e.call_value(c, s2, c.args[1], [arg], tupled=False):
                            if mode == 'find_map':
                                for s4, i, q in eng.opt_cases(s3, y):
                                    if i == 1:
                                        out.append((s4, e.some(q[0])))
                                    else:
                                        work.append((s4, i2, n + 1))
                                continue
                            s4 = s3.copy()
                            if e.assume(s4, y, want):
                                out.append((s4, e.some(I(n)) if mode == 'position' else e.some(x) if mode == 'find' else I(want)))
                            if e.assume(s3, y, 1 - want):
                                work.append((s3, i2, n + 1))
                return out
            bp, s, en, kind = it.a[1]

            def test(s2, j):
                loc = mkidx2(bp.a[0], j)
                item = mkref(loc) if kind.a[0] == 'ptr' else e.read(s2, loc)
                arg = item
                if byref:
                    tmp = mk('heap', mk('tmp', c.site(s2), item))
                    s2.mem[tmp] = item
                    arg = mk('ptr', tmp)
                return item, e.call_value(c, s2, c.args[1], [arg], tupled=False)

            def hit(s2, j, item, r):
                if l is not None:
                    e.write(s2, l, agg(it.a[0], [bp, add(j, ONE), en, kind]))
                if mode == 'position':
                    return e.some(sub(j, s))
                if mode == 'find':
                    return e.some(item)
                if mode == 'any':
                    return ONE
                if mode == 'all':
                    return ZERO
                return r
            miss = {'any': ZERO, 'all': ONE}.get(mode) or e.none()
            want = 0 if mode == 'all' else 1
            span = sub(en, s)
            if is_int(span) and span.a[0] <= 16:
                cur, out = [st], []
                for k in range(span.a[0]):
                    k = add(s, I(k))
                    nxt = []
                    for s1 in cur:
                        item, rs = test(s1, k)
                        for s2, r in rs:
                            if mode == 'find_map':
                                for s4, i, q in eng.opt_cases(s2, r):
                                    if i == 1:
                                        out.append((s4, e.some(q[0])))
                                    else:
                                        nxt.append(s4)
                                continue
                            s3 = s2.copy()
                            if e.assume(s3, r, want):
                                out.append((s3, hit(s3, k, item, r)))
                            if e.assume(s2, r, 1 - want):
                                nxt.append(s2)
                    cur = nxt
                return out + [(s1, miss) for s1 in cur]
            j = mk('found', bp, s, en, e.deepval(st, c.args[1]), c.site(st))
            s0 = st.copy()
            out = [(s0, miss)]
            if e.assume(st, e.cmp_lt(st, j, en), 1) and e.assume(st, e.cmp_lt(st, j, s), 0):
                item, rs = test(st, j)
                for s2, r in rs:
                    if mode == 'find_map':
                        for s4, i, q in eng.opt_cases(s2, r):
                            if i == 1:
                                out.append((s4, e.some(q[0])))
                    elif e.assume(s2, r, want):
                        out.append((s2, hit(s2, j, item, r)))
            return out
        return f
    for nm, br in (('position', 0), ('find', 1), ('any', 0), ('all', 0), ('find_map', 0)):
        for pre in ('core::iter::traits::iterator::Iterator', "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>",
                    "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>"):
            M[pre + '::' + nm] = searcher(nm, br)

    def range_next(e, c, st):
        l = deref_loc(c.args[0])
        v = e.read(st, l)
        s, en = project(v, ('f', 0, 'start', 0)), project(v, ('f', 1, 'end', 0))
        cnd = e.cmp_lt(st, s, en)
        out = []
        s2 = st.copy()
        if e.assume(s2, cnd, 1):
            e.write(s2, mk('fld', l, 0, 'start', 0), add(s, ONE))
            out.append((s2, e.some(s)))
        if e.assume(st, cnd, 0):
            out.append((st, e.none()))
        return out
    M['core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next'] = range_next

    def rangeinc_next(e, c, st):
        l = deref_loc(c.args[0])
        v = e.read(st, l)
        s, en, ex = [project(v, ('f', i, n, 0)) for i, n in enumerate(('start', 'end', 'exhausted'))]
        done = e.band(neg_bool(ex), neg_bool(e.cmp_lt(st, en, s)))
        out = []
        s2 = st.copy()
        if e.assume(s2, done, 1):
            last_ = e.cmp_eq(s2, s, en)
            s3 = s2.copy()
            if e.assume(s3, last_, 1):
                e.write(s3, mk('fld', l, 2, 'exhausted', 0), ONE)
                out.append((s3, e.some(s)))
            if e.assume(s2, last_, 0):
                e.write(s2, mk('fld', l, 0, 'start', 0), add(s, ONE))
                out.append((s2, e.some(s)))
        if e.assume(st, done, 0):
            out.append((st, e.none()))
        return out
    M['core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next'] = rangeinc_next

    # ---------------------------------------------------------------- solana / spl-token
    def sysget(name):
        def f(e, c, st):
            return [(st, okv(mk('sysvar', name))), (st.copy(), errv(mk('syserr')))]
        return f
    M['solana_program::sysvar::rent::<impl solana_program::sysvar::Sysvar for solana_program::rent::Rent>::get'] = sysget('rent')
    M['solana_program::sysvar::clock::<impl solana_program::sysvar::Sysvar for solana_program::clock::Clock>::get'] = sysget('clock')
    M['solana_program::sysvar::Sysvar::from_account_info'] = lambda e, c, st: [(st, okv(mk('sysvar_of', c.args[0]))), (st.copy(), errv(mk('syserr')))]

    @model('solana_program::rent::Rent::is_exempt')
    def is_exempt(e, c, st):
        return [(st, neg_bool(e.cmp_lt(st, c.args[1], mk('minbal', val(st, c.args[0]), c.args[2]))))]

    @model('solana_program::rent::Rent::minimum_balance')
    def minimum_balance(e, c, st):
        return [(st, mk('minbal', val(st, c.args[0]), c.args[1]))]

    @model('solana_program::pubkey::Pubkey::create_program_address')
    def cpa(e, c, st):
        b, s, n = e.to_slice(st, c.args[0])
        seeds = []
        if is_int(n):
            for j in range(n.a[0]):
                x = e.read(st, mkidx2(b, add(s, I(j))))
                seeds.append(e.read(st, mk('sl', *e.to_slice(st, x))))
        else:
            seeds = [mk('seeds', c.args[0])]
        v = mk('pda', val(st, c.args[1]), *seeds)
        return [(st, okv(v)), (st.copy(), errv(mk('pdaerr')))]

    @model('spl_token::instruction::transfer')
    def transfer(e, c, st):
        prog, src, dst, auth = [val(st, a) for a in c.args[:4]]
        sb, ss, sn = e.to_slice(st, c.args[4])
        v = mk('spl_transfer', prog, src, dst, auth, sn, c.args[5])
        return [(st, okv(v)), (st.copy(), errv(mk('tokerr')))]

    def read_list(e, st, p):
        b, s, n = e.to_slice(st, p)
        if is_int(n) and n.a[0] <= 32:
            return mk('list', *[e.read(st, mkidx2(b, add(s, I(j)))) for j in range(n.a[0])])
        return mk('listof', e.read(st, mk('sl', b, s, n)))
    eng.read_list = read_list

    def deep_list(e, st, v, d):
        if d == 0:
            return v
        if v.op in ('slice', 'ptr'):
            b, s, n = e.to_slice(st, v)
            if is_int(n) and n.a[0] <= 32 and d > 1:
                return mk('list', *[deep_list(e, st, e.read(st, mkidx2(b, add(s, I(j)))), d - 1) for j in range(n.a[0])])
            return e.read(st, mk('sl', b, s, n))
        return v

    @model('solana_program::program::invoke_signed', 'solana_program::program::invoke')
    def invoke(e, c, st):
        ix = val(st, c.args[0])
        infos = read_list(e, st, c.args[1])
        seeds = deep_list(e, st, c.args[2], 3) if len(c.args) > 2 else mk('list')
        s2 = st.copy()
        st.epoch += 1
        st.log = st.log + (mk('invoke', ix, infos, seeds, I(st.epoch)),)
        return [(st, okv(UNIT)), (s2, errv(mk('cpierr')))]
