"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                          'observe_at': list(observe), 'hook_needed': None}})


ST = 'dex/src/state.rs'
MA = 'dex/src/matching.rs'
IN = 'dex/src/instruction.rs'

p('C01', 'Only the owner of an open-orders account can act on it',
  'Placing, cancelling (by id, by client id, in batch), replacing, settling and closing succeed only when the account recorded as the owner of the open-orders account signed the transaction; a fresh open-orders account is only ever bound to a key that signed. '
  'The token account that pays a deposit is debited under the signer\'s own authority, never under the program\'s.',
  ['inputs'], 'for every instruction payload, every list of accounts (including adversarial ones) and every content of those accounts',
  'The tests call the handlers with well-formed account lists; nothing tries the open set of forged account lists.',
  [ST], [('account_parser::*::with_parsed_args, SignerAccount::new, Market::load_orders_mut', ST)],
  [('OpenOrders.owner', 'the key entitled to the account', ST)], ['result of State::process'])

p('C02', 'Privileged market operations need their authority\'s signature',
  'Disabling a market, sweeping fees, pruning a user\'s orders, consuming events on a market with a consume-events authority and initialising open orders on a market with an open-orders authority succeed only when the corresponding authority (global constant or the key stored in the market) signed. '
  'On a market with a consume-events authority the unpermissioned consume-events instruction is refused.',
  ['inputs'], 'for every account list, every signer set and every market account content',
  'The authority keys are compared in a few tests with the right key only.',
  [ST, IN], [('DisableMarketArgs, SweepFeesArgs, PruneArgs, ConsumeEventsArgs, InitOpenOrdersArgs', ST)],
  [('prune_authority / consume_events_authority / open_orders_authority', 'permissioned-market authorities', ST)], ['result of State::process'])

p('C03', 'Every account used is the one the market records',
  'Whenever an instruction succeeds, the market account is owned by the program and carries initialised market flags, the vaults, bids, asks, event queue and request queue it used are the ones recorded in that market with the right type flag, the open-orders account is program-owned and belongs to that market, user wallets are SPL token accounts of the right mint, and the vault signer is the market\'s program-derived address.',
  ['inputs'], 'for every instruction kind and every list of accounts',
  'Tests pass consistent account sets; substituting a foreign book, vault or queue is not sampled.',
  [ST], [('Market::load, load_*_mut, TokenAccount / CoinVault / PcVault / wallets / VaultSigner newtypes', ST)],
  (), ['result of State::process'])

p('C04', 'Settling pays out exactly the free balances, once',
  'A successful settlement transfers from each market vault exactly the free coin and price-currency balance of the open-orders account (plus the accrued referrer rebate to the referrer when one is given, otherwise to protocol fees), reduces the account\'s free and total balances and the market\'s recorded deposits by the same amounts and zeroes the rebate. '
  'No other balance changes and no transfer goes anywhere else.',
  ['inputs', 'histories'], 'for every reachable or unreachable content of the market and open-orders accounts, with and without referrer',
  'The token transfers are stubbed in unit tests and amounts are sampled on a few histories.',
  [ST], [('State::process_settle_funds, send_from_vault', ST)],
  [('native_coin_free, native_pc_free, *_total', 'user balances', ST), ('coin_deposits_total, pc_deposits_total', 'market liabilities', ST)],
  ['token transfer instructions issued', 'market and open-orders account data'])

p('C05', 'An order is funded by exactly what it locks beyond free funds',
  'A new order locks the worst-case amount for its side (quantity for asks, price-currency budget for bids), takes it from the open-orders free balance first and deposits exactly the remainder from the payer into the matching side\'s vault, recording the same amount in the user\'s totals and the market\'s deposits; the vault balance change is verified to equal the deposit. '
  'Proceeds and unlocked funds returned by matching are credited to the user exactly once.',
  ['inputs', 'histories'], 'for every order, every balance of the open-orders account and every outcome of matching',
  'Arithmetic over all lock/free/credit combinations cannot be sampled; CPI effects are stubbed in tests.',
  [ST], [('State::process_new_order_v3', ST)],
  [('native_*_free/_total', 'user balances', ST), ('*_deposits_total', 'market liabilities', ST)],
  ['token transfers', 'account data after State::process'])

p('C06', 'Send-take settles both legs immediately and exactly',
  'An immediate take without open orders either fails or deposits exactly what the match debited (plus fees for bids) into the paying side\'s vault and withdraws exactly what it credited from the other vault to the taker\'s wallet, leaves nothing resting on the book, and honours the caller\'s minimum fill amounts. '
  'Market deposit totals move by exactly those transfers.',
  ['inputs', 'histories'], 'for every order, order book content and minimum amounts',
  'Only one end-to-end path exists in tests and transfers are stubbed.',
  [ST], [('State::process_send_take', ST)], (), ['token transfers', 'market account data'])

p('C07', 'Matching conserves the taker\'s and the makers\' funds',
  'In every step of matching an incoming order, the quantity it came with equals what was traded, plus what was released, plus what was posted, plus what remains; likewise for the price-currency budget of bids including fees. '
  'Each maker fill pays the maker the counter-value of exactly the quantity removed from its order, at the maker\'s price.',
  ['inputs', 'histories'], 'for every order book content, order, fee tier and number of matching steps',
  'Property tests of the repo sample a few book shapes and do not check the per-fill identities.',
  [MA], [('OrderBookState::new_bid / new_ask', MA)], (), ['events pushed', 'RequestProceeds', 'order book leaves'])

p('C08', 'Orders never trade outside their instructions',
  'A trade only happens when the resting price is at least as good as the incoming order\'s limit and for no more than both orders\' quantities (and the bid\'s budget); a post-only order never takes, an immediate-or-cancel order never rests, an order that still crosses never rests. '
  'An order never trades against its own owner: self-trade behaviour cancels, decrements or aborts as requested.',
  ['inputs', 'histories'], 'for every side, order type, self-trade behaviour, limit price and book content',
  'The combination of side, type, behaviour and book content is unbounded.',
  [MA], [('OrderBookState::new_bid / new_ask', MA)], (), ['events pushed', 'order book leaves'])

p('C09', 'Price-time priority',
  'An incoming order is always matched against the best-priced opposite order first, and among equal prices the oldest one: bids consume the lowest ask key, asks the highest bid key, and order keys are built as price above a strictly increasing sequence number (complemented for bids) so that key order is price-time order. '
  'When a side is full, the worst-priced resting order is the one evicted, its funds fully released to its owner.',
  ['inputs', 'histories'], 'for every book content and every sequence of requests',
  'Ordering holds for all keys or not at all; tests sample a handful of books.',
  [MA, ST], [('find_min / find_max use in matching, RequestQueueHeader/gen_order_id', ST)], (), ['events pushed', 'order ids'])

p('C10', 'Fees and rebates are booked exactly',
  'For every match the taker pays exactly the fee of its tier on the total traded value, makers receive their rebate, a fifth of the fee accrues as referrer rebate, and the market\'s accrued fees, accrued referrer rebates and deposit totals move by exactly the corresponding amounts; sweeping transfers exactly the accrued fees out of the price-currency vault once. '
  'The only other change of the accrued fees is settling without a referrer, which adds the user\'s unclaimed rebate to them.',
  ['inputs', 'histories'], 'for every trade, tier and market state',
  'Accounting identities over all amounts cannot be sampled.',
  [MA, ST, 'dex/src/fees.rs'], [('fee accounting at the end of new_bid/new_ask', MA), ('State::process_sweep_fees', ST)],
  [('pc_fees_accrued, referrer_rebates_accrued', 'fee buckets', ST)], ['market account data', 'token transfers'])

p('C11', 'Every change of the book is announced by exactly one event',
  'Whenever an order leaves the book or is partly filled - by matching, cancellation, pruning or eviction - exactly the corresponding fill/out event, carrying that order\'s id, owner, slot, side, fee tier and client id, is appended to the event queue; if the queue is full the instruction fails and nothing changes. '
  'No event is emitted for an order that did not change.',
  ['inputs', 'histories', 'fault_sequences'], 'for every book and event-queue content including a full queue',
  'Queue-full at each individual push is not sampled.',
  [MA, ST], [('EventQueue::push_back call sites', MA)], (), ['event queue content', 'order book leaves'])

p('C12', 'Each event is applied exactly once, to the right account',
  'Consuming events applies every event to the open-orders account it names (found by key, verified to be initialised for this market and program-owned) and removes it from the queue exactly once, in order; a maker fill moves the paid amount out of the locked total and the received amount into free, a taker fill only accrues the referrer rebate, an out event frees exactly the released amount. '
  'If the account is missing from the list, processing stops with the event still queued.',
  ['inputs', 'histories', 'schedules'], 'for every event-queue content, every limit and every list of open-orders accounts',
  'The tests consume the events of a few histories only.',
  [ST], [('State::process_consume_events', ST)], (), ['open-orders account data', 'event queue content'])

p('C13', 'Cancelling returns exactly the locked funds of one\'s own order',
  'A cancel or prune removes an order only if it belongs to the named open-orders account and slot, and unlocks exactly the funds that order still locks (quantity for asks, price times quantity for bids) to that account. '
  'An order that is not on the book, or not owned, leaves every balance and the book unchanged.',
  ['inputs', 'histories'], 'for every order id, book content and open-orders account',
  'The set of foreign or stale order ids is unbounded.',
  [MA, ST], [('OrderBookState::cancel_order_v2, cancel_order', MA), ('State::process_prune', ST)], (), ['events pushed', 'open-orders balances'])

p('C14', 'Order slots are used once and freed only when the order is done',
  'A resting order occupies one free slot of its owner\'s account with its id, side and client id; the slot is released only when the order is completely out, and released slots forget their client id and side. '
  'An order that neither rests nor leaves pending events does not keep a slot.',
  ['inputs', 'histories'], 'for every slot number, slot bitmap and history of orders',
  '128 slots times all histories cannot be sampled.',
  [ST], [('OpenOrders::add_order / remove_order, process_new_order_v3, process_consume_events', ST)],
  [('free_slot_bits, is_bid_bits, orders, client_order_ids', 'slot bookkeeping', ST)], ['open-orders account data'])

p('C15', 'A disabled market accepts no new exposure but lets users exit',
  'On a disabled market, new orders, takes, fee sweeps, pruning and open-orders initialisation are refused, while cancelling, consuming events, settling and closing still work. '
  'Disabling only sets the disabled flag and is irreversible through the program.',
  ['inputs', 'configurations'], 'for every instruction and every market flag combination',
  'The flag times instruction matrix is not covered by tests.',
  [ST], [('MarketState::load allow_disabled', ST)], [('account_flags', 'market status bits', ST)], ['result of State::process'])

p('C16', 'Open-orders accounts are closed only when empty',
  'Closing an open-orders account succeeds only if it has no occupied slot and no coin or price-currency balance; it then moves all its lamports to the destination, leaves none behind and marks the account closed so it can never be used or re-initialised as open orders. '
  'Initialising never overwrites an account already in use.',
  ['inputs', 'histories'], 'for every content of the open-orders account',
  'Emptiness is a conjunction over all balances and 128 slots.',
  [ST], [('State::process_close_open_orders, process_init_open_orders, OpenOrders::init', ST)], (), ['account data and lamports'])

p('C17', 'Markets are created consistent or not at all',
  'A market is initialised only when the market, request-queue, event-queue, bids and asks accounts are owned by the program, carry no earlier initialisation (leading and trailing header bytes zero) and are large enough (non-empty request queue, at least 128 events, more than 200 tree nodes per book side), all of the queue, book, vault and mint accounts are rent-exempt, and both vaults are initialised token accounts of the given mints whose owner is the market\'s vault signer, without delegate or close authority. '
  'On success the market records exactly the given addresses, lot sizes, dust threshold, fee rate, vault-signer nonce and authorities with zero balances and fees, and the market, queues and books carry exactly their type flags.',
  ['inputs', 'configurations'], 'for every instruction payload and set of accounts',
  'The space of inconsistent account sets is not sampled.',
  [ST], [('State::process_initialize_market, InitializeMarketArgs', ST)], (), ['account data after State::process'])

p('C18', 'Instruction encoding and decoding agree',
  'Every instruction a client packs is decoded by the program to the same instruction with the same fields, and any byte string that is not such an encoding is refused. '
  'Numeric tags, field order, widths and enum codes are the published wire format.',
  ['inputs', 'programs'], 'for every instruction value and every byte string',
  'Round-trip tests sample payloads; the wire format is fixed for deployed clients.',
  [IN], [('MarketInstruction::pack / unpack and the per-variant codecs', IN)], (), ['bytes of the instruction data'])

p('C19', 'Client builders and program parsers agree on accounts',
  'For every instruction the client-side builder lists exactly the accounts the program expects, in the same order, with signer and writable flags for each account the program requires to sign or writes to, and the data of the matching variant.',
  ['programs', 'configurations'], 'for every instruction builder and optional-account combination',
  'Builders are used in integration scripts that need a validator.',
  [IN, ST], [('instruction::* builder functions', IN), ('account_parser::*', ST)], (), ['Instruction values returned by builders'])

p('C20', 'Queue records say what happened',
  'Every event stored in the event queue decodes to the same fill or out record it was created from: side, maker/taker role, fee tier, quantities, order id, owner, slot and client id; every request built from a new order carries the order\'s terms unchanged.',
  ['inputs'], 'for every event and request value',
  'Sampled by existing property tests only for a subset of fields.',
  [ST], [('Event::new / as_view, Request::new / as_view, EventFlag', ST)], (), ['bytes of queue records'])

p('C21', 'Queues are bounded FIFO rings',
  'Pushing appends behind all elements and fails, changing nothing, when the ring is full; popping removes the oldest element; reading a position never touches another; the stored count and head stay consistent, and reverting undoes exactly the newest pushes.',
  ['inputs', 'histories'], 'for every head, count, capacity and sequence of operations',
  'Wrap-around and full/empty boundaries at every head position are not sampled.',
  [ST], [('Queue::push_back, pop_front, peek_front(_mut), revert_pushes', ST)], [('head, count, next_seq_num', 'ring state', ST)], ['queue account data'])

p('C22', 'The order tree neither loses nor duplicates orders or nodes',
  'Inserting an order into a book side stores exactly that order and keeps every other one (replacing only an equal key), removing by key removes exactly that order and returns it, and every tree node is taken from or returned to the free list exactly once; failure to allocate leaves the book unchanged.',
  ['inputs', 'histories'], 'for every tree shape, key and free-list state',
  'A randomised test samples shapes; the update rules must hold at every node of every tree.',
  ['dex/src/critbit.rs'], [('Slab::insert_leaf, remove_by_key, SlabView insert/remove, InnerNode::walk_down', 'dex/src/critbit.rs')], (), ['order book account data'])

p('C23', 'Fee tiers follow the published schedule',
  'The fee tier is determined by the market and the SRM/MSRM balance of a token account of the right mint owned by the order\'s owner; taker rates are 4.0, 3.9, 3.8, 3.6, 3.4, 3.2, 3.0 and (stable markets) 1.0 bps, rounded up, the referrer share is one fifth and removing a fee inverts adding it. '
  'Without such an account the base tier applies.',
  ['inputs'], 'for every balance, market and traded amount',
  'Boundary balances and rounding at every amount are sampled only.',
  ['dex/src/fees.rs', ST], [('FeeTier::*, SrmOrMsrmAccount, referrer_rebate', 'dex/src/fees.rs')], (), ['fee amounts'])

p('C24', 'Account data can be reinterpreted safely',
  'Every type the program overlays on account bytes is plain data without padding or invalid bit patterns, with the size and field offsets clients rely on; account data always carries the head and tail markers before being interpreted.',
  ['inputs', 'configurations'], 'for every byte content of an account',
  'Undefined behaviour on unsampled bit patterns is invisible to tests.',
  [ST, 'dex/src/critbit.rs'], [('unsafe impl Pod/Zeroable, strip_header, remove_slop', ST)], (), ['account data layout'])

p('C25', 'Order expiry and request limits are enforced',
  'An order with an expiry is refused once the cluster time has passed it; quantities, prices and budgets of zero and malformed orders are refused before any state changes, and the per-request matching limit bounds how many resting orders one request touches.',
  ['inputs'], 'for every order and clock value', 'Clock sysvar access is stubbed in tests.',
  [ST, IN, MA], [('process_new_order_v3 max_ts check; NonZeroU64 fields; limit countdown', ST)], (), ['result of State::process'])

PM = 'dex/permissioned/src/middleware.rs'
PP = 'dex/permissioned/src/proxy.rs'

p('C26', 'The open-orders proxy signs only for the user who signed',
  'On a permissioned market the open-orders PDA middleware lets new orders, cancels, settles and closes through only when the user in the owner position signed; it then signs with exactly one seed list, that of this user, this market and the DEX, and puts the open-orders PDA, marked as signer, in the owner position, changing no other account. '
  'For a new order it lets the PDA spend the payer account only up to what the order can cost (the native budget of a bid, lots times lot size of an ask) and takes that permission back afterwards. Prune passes the open-orders account as its own owner. Initialisation creates only the PDA of the signing user and market, with the bumps of the request. '
  'The referral middleware passes a settlement on only when the referral account belongs to the configured referrer.',
  ['inputs'], 'for every account list, user, market and order',
  'No test exercises the middlewares; forged signers or seeds need adversarial account lists.',
  [PM], [('OpenOrdersPda, ReferralFees: every MarketMiddleware hook', PM), ('open_orders_authority!, open_orders_init_authority!', PM)], (), ['the Context left by each hook'])

p('C27', 'The permissioned proxy relays exactly what its middlewares decided',
  'The proxy accepts only the DEX program as target and only requests with all the accounts their hook needs. Every middleware sees the instruction data, then exactly the hook of the decoded request, once each, in registration order, with the context and parameters left by the one before; an error anywhere aborts. '
  'Then the instructions asked for beforehand, one call to the DEX (the request as the middlewares left it, the context\'s accounts with their signer and writable flags, signed with the context\'s seeds), the instructions asked for afterwards and the callbacks run, in this order, each once. '
  'A request the proxy does not know is never relayed: it reaches the fallback hooks only.',
  ['inputs', 'configurations'], 'for every list of middlewares, request and account list',
  'No test runs the proxy; the order and content of its cross-program calls are invisible to unit tests.',
  [PP], [('MarketProxy::run', PP), ('Context', PM)], (), ['cross-program invocations of MarketProxy::run'])

PO = 'pool/src/lib.rs'
PC = 'pool/src/context.rs'

p('C28', 'A pool request acts on that pool\'s own accounts and stores its state',
  'The pool framework runs a request only against a pool account of its program whose mint, vaults, authority, fee accounts and parameter accounts are the recorded ones, hold the recorded assets and are controlled by the pool (the protocol fee account by the protocol), and hands each account to the pool in its role. '
  'Exactly the requested pool function runs, once, with the stored state; its failure aborts; the state it leaves is stored in the pool account. Queries store nothing and write the basket to a return buffer of its own program. '
  'Only an empty account can be initialised: with rent-exempt accounts, an authority derived from the pool account, a clean protocol fee account and a fee rate of at least 150 and below one million millionths, recording the accounts and terms given.',
  ['inputs'], 'for every account list, pool state and request; account lists of one and two assets, up to two parameters',
  'The framework has no test with accounts; substitution of a vault or mint needs adversarial account lists.',
  [PO, PC], [('pool_entrypoint, PoolProcessor', PO), ('PoolContext::new, UserAccounts::new, FeeAccounts::new, RetbufAccounts::new', PC)], [('PoolState', 'accounts and terms of a pool', 'pool/schema/src/schema.rs')], ['calls of the Pool trait, pool account data'])

p('C29', 'Pool creations and redemptions move exactly the basket, fees and pool tokens',
  'By default creating pool tokens moves each asset of the creation basket from the user to the vault and mints the requested amount, split into fees and remainder; redeeming pays the fees in pool tokens, burns the rest and moves the redemption basket of the burned amount from the vaults to the user; nothing else moves, the user\'s tokens move by the user\'s signature and the pool\'s by the pool\'s. '
  'Baskets are the proportional share of each vault, rounded up for creation and down for redemption, and need a non-empty pool. Fees are the pool rate rounded up, split into protocol, initializer and referrer shares; a fee account pays itself no fee. Swaps are refused unless the pool defines them.',
  ['inputs'], 'for every amount, fee rate, vault balance and supply; one and two assets',
  'Existing tests check seven fee values; rounding direction and transfers at other values and outcomes are not tested.',
  [PC, 'pool/src/pool.rs'], [('Pool::process_creation, process_redemption, get_*_basket', 'pool/src/pool.rs'), ('PoolContext::mint_tokens, burn_tokens_and_collect_fees, transfer_basket_*, get_fees, get_simple_basket', PC), ('Fees::from_fee_rate_and_tokens', PC)], (), ['token program invocations'])

p('C30', 'The owner assertion succeeds exactly for the named owner',
  'The assert-owner program succeeds exactly when its data is one 32-byte address and its first account is owned by that address; it does nothing else.',
  ['inputs'], 'for every account list and instruction data',
  'The program has no tests; a weaker comparison only shows for crafted owners.',
  ['assert-owner/src/lib.rs'], [('entry', 'assert-owner/src/lib.rs')], (), ['result of entry'])

p('C31', 'A refused request fails, under its published error number',
  'The DEX entry point hands each request unchanged to the processor once and reports success exactly when the processor succeeded; data that does not decode is refused. '
  'Every refusal is reported as its error: error codes keep their published numbers, program errors are passed on unchanged, and an assertion error is its line plus its source file number times 2^24.',
  ['inputs'], 'for every request, error and assertion site',
  'Tests compare errors by name inside the crate; a renumbered code or swallowed error at the boundary is only seen by clients.',
  ['dex/src/lib.rs', 'dex/src/error.rs', ST], [('process_instruction', 'dex/src/lib.rs'), ('DexErrorCode, AssertionError, From<DexError> for ProgramError', 'dex/src/error.rs'), ('State::process', ST)], (), ['ProgramResult of process_instruction'])

CK = 'dex/crank/src/lib.rs'

p('C32', 'The client reads accounts and queues as the program writes them',
  'The command line client reads only account data between the head and tail markers. From a queue account it takes exactly the live records, oldest first, including those that wrapped around. '
  'From a market account, of either version and only if it is flagged as an initialized market and names itself, it takes each key from its own field and derives the vault signer from the recorded nonce.',
  ['inputs'], 'for every account content; lengths and positions unbounded',
  'The client has no tests; a wrapped queue or a permissioned market needs particular account contents.',
  [CK], [('remove_dex_account_padding, parse_event_queue, parse_req_queue, get_keys_for_market', CK)], (), ['results of the readers'])

p('C33', 'The client sends the instruction asked for, on the right accounts, signed',
  'Placing, cancelling by client id (one or several), settling, closing, initializing open orders, matching, consuming events and listing a market each send exactly one transaction that carries the instruction asked for, with the given arguments, on the market\'s own accounts in the order and with the signer and writable flags the program needs, signed by everyone who must sign. '
  'An open orders account is created only when none is given: with the right size, rent exempt and owned by the DEX. Events are consumed with the sorted open orders accounts of the queued events. '
  'Listing creates the market\'s accounts for the DEX and vaults of the right mints owned by the derived vault signer, and reports them.',
  ['inputs'], 'for every key, market and order; event queues of zero, one and three events',
  'No test builds these transactions; a swapped account only fails (or pays the wrong wallet) on a live cluster.',
  [CK], [('place_order, settle_funds, cancel_*, close_open_orders, init_open_orders, match_orders, consume_events_instruction, consume_events_once, list_market', CK)], (), ['transactions sent'])

if __name__ == '__main__':
    for x in P:
        assert len(x['title']) <= 80, x['id']
        print(json.dumps(x))
