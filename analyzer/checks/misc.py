"""C30: the owner-assertion program; C31: a refused request fails, under its published error number."""
from spec import *
from proxy import find

AO = 'serum_assert_owner'
CHECKS, SCOPE = {}, {}

CODES = '''InvalidMarketFlags InvalidAskFlags InvalidBidFlags InvalidQueueLength OwnerAccountNotProvided ConsumeEventsQueueFailure WrongCoinVault WrongPcVault
WrongCoinMint WrongPcMint CoinVaultProgramId PcVaultProgramId CoinMintProgramId PcMintProgramId WrongCoinMintSize WrongPcMintSize WrongCoinVaultSize WrongPcVaultSize
UninitializedVault UninitializedMint CoinMintUninitialized PcMintUninitialized WrongMint WrongVaultOwner VaultHasDelegate AlreadyInitialized WrongAccountDataAlignment
WrongAccountDataPaddingLength WrongAccountHeadPadding WrongAccountTailPadding RequestQueueEmpty EventQueueTooSmall SlabTooSmall BadVaultSignerNonce InsufficientFunds
SplAccountProgramId SplAccountLen WrongFeeDiscountAccountOwner WrongFeeDiscountMint CoinPayerProgramId PcPayerProgramId ClientIdNotFound TooManyOpenOrders
FakeErrorSoWeDontChangeNumbers BorrowError WrongOrdersAccount WrongBidsAccount WrongAsksAccount WrongRequestQueueAccount WrongEventQueueAccount RequestQueueFull
EventQueueFull MarketIsDisabled WrongSigner TransferFailed ClientOrderIdIsZero WrongRentSysvarAccount RentNotProvided OrdersNotRentExempt OrderNotFound OrderNotYours
WouldSelfTrade InvalidOpenOrdersAuthority OrderMaxTimestampExceeded MinAmountNotMet'''.split()
CODE = {n: i for i, n in enumerate(CODES)}
CODE.update(Unknown=1000, AssertionError=1001)
FILES = {'State': 1, 'Matching': 2, 'Critbit': 3}


def variant(r):
    return r.a[0][3] if r.op == 'agg' and r.a[0][0] == 'adt' and len(r.a[0]) > 3 else None


def check_c30(sp):
    D = sp.dex
    e = Engine(D.prog)
    e.nomerge = lambda st, fr: True
    base = mk('deref', mk('arg', 'accounts'))
    ai = D.type_by_path('account_info::AccountInfo')
    oi = [x[0] for x in ai['v'][0]['f']].index('owner')
    data = mk('deref', mk('arg', 'data'))
    na, n = mk('arg', 'accounts.len'), mk('arg', 'data.len')
    outs = e.call_fn(find(D.prog, 'serum_assert_owner::entry'), [mk('ptr', mk('deref', mk('arg', 'program_id'))), mk('slice', base, ZERO, na), mk('slice', data, ZERO, n)], State(), mk('frame0', 'entry'))
    owner = mk('init', mk('deref', mk('init', mk('fld', mkidx2(base, ZERO), oi, 'owner', 0))))
    want = mk('bsub', data, ZERO, I(32), 1, 0)
    oks = 0
    for i, (s, r) in enumerate(outs):
        w = 'serum_assert_owner::entry outcome %d' % i
        v = View(e, s, r)
        if v.infeasible():
            continue
        if variant(r) == 'Err':
            continue
        sp.oblige('R1 the result is Ok or an error', w, variant(r) == 'Ok', lambda: show(r)[:200])
        oks += 1
        facts = lambda: [('' if s.facts[x] is True else str(s.facts[x])) + show(x)[:160] for x in s.facts]
        sp.oblige('R2 an account was given', w, v.lt(ZERO, na), facts)
        sp.oblige('R3 the request is exactly one address', w, v.same(n, I(32)), facts)
        sp.oblige('R4 the account belongs to the program named by the request', w, owned(v, s, want, owner), facts)
        sp.oblige('R6 nothing is called', w, not s.log, lambda: [show(x)[:100] for x in s.log])
        # whatever else the outcome assumes would refuse an account that is owned as asserted
        extra = [x for x in s.facts if not about(x, na, n, want, owner)]
        sp.oblige('R5 every matching account is accepted', w, not extra, lambda: [show(x)[:200] for x in extra])
    sp.oblige('R5 every matching account is accepted', 'serum_assert_owner::entry', oks >= 1, '%d accepting outcomes' % oks)
    sp.count('serum_assert_owner::entry', outcomes=len(outs), accepting=oks)


def owned(v, s, want, owner):
    if v.same(want, owner):
        return True
    def is_(t):
        return 'owner' if t is owner else 'want' if t is want or t.op == want.op and t.a[0] is want.a[0] and t.a[1] is ZERO and t.a[3:] == want.a[3:] and v.same(t.a[2], I(32)) else None

    def match(x):
        return {is_(x.a[0]), is_(x.a[1])} == {'want', 'owner'}
    return any(x.op == 'eq' and v.nz(x) and match(x) or x.op == 'ne' and v.is0(x) and match(x) for x in s.facts)


def about(x, na, n, want, owner):
    ins = set(walk(x))
    return na in ins or n in ins or owner in ins


CHECKS['C30'] = check_c30
SCOPE['C30'] = [AO]


def check_c31(sp):
    D = sp.dex

    def eng():
        e = Engine(D.prog)
        e.nomerge = lambda st, fr: True
        return e

    def conv(suffix, arg):
        e = eng()
        f = find(D.prog, suffix)
        outs = e.call_fn(f, [arg], State(), mk('frame0', suffix))
        sp.count(suffix, outcomes=len(outs))
        return [(View(e, s, r), r) for s, r in outs if not View(e, s, r).infeasible()]
    et, ct, pt = D.type_by_path('error::DexError'), D.type_by_path('error::DexErrorCode'), None
    # the published numbers
    have = {v['n']: int(v['d']) for v in ct['v']}
    for k in sorted(set(have) | set(CODE), key=lambda k: CODE.get(k, 9999)):
        if k in CODE:
            sp.oblige('R3 published error numbers', 'DexErrorCode::' + k, have.get(k) == CODE[k], 'number %s, published %s' % (have.get(k), CODE[k]))
        else:
            sp.oblige('R3 published error numbers', 'DexErrorCode::' + k, have[k] not in CODE.values(), 'number %s was published for another error' % have[k])
    have = {v['n']: int(v['d']) for v in D.type_by_path('error::SourceFileId')['v']}
    for k in FILES:
        sp.oblige('R3 published error numbers', 'SourceFileId::' + k, have.get(k) == FILES[k], 'number %s, published %s' % (have.get(k), FILES[k]))

    def dexerr(name, payload):
        vi = [v['n'] for v in et['v']].index(name)
        return agg(('adt', et['path'], vi, name), [payload])
    c, pe = mk('arg', 'code'), mk('arg', 'program_error')

    def is_custom(r, n):
        return variant(r) == 'Custom' and (r.a[1][0] is n)
    # conversions keep the error
    U = '<impl core::convert::From<error::DexErrorCode> for u32>::from'
    for v, r in conv(U, c):
        sp.oblige('R4 an error code is its number', U, r is mk('discr', c), show(r)[:200])
    P = 'for solana_program::program_error::ProgramError>::from'
    for v, r in conv(P, dexerr('ErrorCode', c)):
        sp.oblige('R4 an error code is its number', 'ProgramError::from(ErrorCode)', is_custom(r, mk('discr', c)), show(r)[:200])
    for v, r in conv(P, dexerr('ProgramError', pe)):
        sp.oblige('R5 program errors are passed on', 'ProgramError::from(ProgramError)', r is pe, show(r)[:200])
    for v, r in conv('<error::DexError as core::convert::From<solana_program::program_error::ProgramError>>::from', pe):
        sp.oblige('R5 program errors are passed on', 'DexError::from(ProgramError)', r is dexerr('ProgramError', pe), show(r)[:200])
    for v, r in conv('<error::DexError as core::convert::From<error::DexErrorCode>>::from', c):
        sp.oblige('R4 an error code is its number', 'DexError::from(DexErrorCode)', r is dexerr('ErrorCode', c), show(r)[:200])
    # assertions: line and file
    A = D.type_by_path('error::AssertionError')
    names = [x[0] for x in A['v'][0]['f']]
    ln, fi = mk('arg', 'line'), mk('arg', 'file_id')
    a = agg(('adt', A['path'], 0, 'AssertionError'), [{'line': ln, 'file_id': fi}[k] for k in names])

    def is_site(v, n):
        for l in (0, 1, 777, 65535):
            for f in (1, 2, 3):
                try:
                    x = ev(n, {ln: l, mk('discr', fi): f})
                except Exception:
                    return False
                if x != l + (f << 24):
                    return False
        return True
    N = '<impl core::convert::From<error::AssertionError> for u32>::from'
    for v, r in conv(N, a):
        sp.oblige('R6 an assertion error names its line and file', N, is_site(v, r), show(r)[:200])
    for v, r in conv('<error::DexError as core::convert::From<error::AssertionError>>::from', a):
        ok = variant(r) == 'ProgramError' and variant(r.a[1][0]) == 'Custom' and is_site(v, r.a[1][0].a[1][0])
        sp.oblige('R6 an assertion error names its line and file', 'DexError::from(AssertionError)', ok, show(r)[:200])
    # the entry point: Ok exactly when the processor was
    args = [mk('arg', 'program_id'), mk('arg', 'accounts'), mk('arg', 'data')]
    PR = D.fn('state::State::process')
    key = [k for k in D.prog.bypath if k.endswith('state::State::process')][0]
    for what in ('success', 'error code', 'program error'):
        e = eng()
        e.precise_err = True

        def process(e, c_, st):
            st.log = st.log + (mk('process', *c_.args),)
            return [(st, e.okv(UNIT) if what == 'success' else e.errv(dexerr('ErrorCode', c) if what == 'error code' else dexerr('ProgramError', pe)))]
        e.boundary[key] = process
        outs = [(s, r) for s, r in e.call_fn(find(D.prog, 'serum_dex::process_instruction'), args, State(), mk('frame0', 'process_instruction')) if not View(e, s, r).infeasible()]
        sp.floor('outcomes of process_instruction after ' + what, len(outs), 1)
        for i, (s, r) in enumerate(outs):
            w = 'process_instruction, %s of the processor, outcome %d' % (what, i)
            calls = [x for x in s.log if x.op == 'process']
            sp.oblige('R1 every request reaches the processor once, as given', w, len(calls) == 1 and list(calls[0].a) == args, lambda: [show(x)[:200] for x in s.log])
            k = variant(r)
            if what == 'success':
                sp.oblige('R2 success is reported when the processor succeeded', w, k == 'Ok', lambda: show(r)[:200])
            else:
                x = r.a[1][0] if k == 'Err' else None
                sp.oblige('R2 a refusal is reported as the error of the processor', w, x is not None and (is_custom(x, mk('discr', c)) if what == 'error code' else x is pe), lambda: show(r)[:200])
        sp.count('process_instruction, ' + what, outcomes=len(outs))
    # data that does not decode is refused
    e = D.engine()
    key = [k for k in D.prog.bypath if k.endswith('MarketInstruction::unpack')][0]
    e.boundary[key] = lambda e, c_, st: [(st, e.none())]
    outs = e.call_fn(PR, args, State(), mk('frame0', 'process'))
    for i, (s, r) in enumerate(outs):
        sp.oblige('R7 data that does not decode is refused', 'State::process outcome %d' % i, View(e, s, r).infeasible() or variant(r) == 'Err', lambda: show(r)[:200])
    sp.floor('outcomes of State::process on undecodable data', len(outs), 1)
    sp.count('State::process, undecodable data', outcomes=len(outs))


CHECKS['C31'] = check_c31
