"""planted bugs: edits, demonstration body, metadata"""
SEEDS = []


def seed(**k):
    SEEDS.append(k)


ST = 'dex/src/state.rs'
MA = 'dex/src/matching.rs'

seed(id='settle-referrer-double', prop='C04', edits=[(ST, """                    &vault_signer_seeds,
                )?;
            }
            _ => {
                market.pc_fees_accrued += open_orders.referrer_rebates_accrued;
            }
        };""", """                    &vault_signer_seeds,
                )?;
            }
            Some(_) => {}
            None => {
                market.pc_fees_accrued += open_orders.referrer_rebates_accrued;
                market.pc_deposits_total += open_orders.referrer_rebates_accrued;
            }
        };""")], needs='settling without a referrer after a taker fill that accrued a referrer rebate', breaks='the accrued rebate is booked twice (fees and deposits), so booked totals exceed the vault', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(1_000_000, 100_000_000);
        w.bid(&a, 100_000, 50, 6_000_000, 1);
        w.ask(&b, 90_000, 30, 2);
        w.consume(&[&a, &b], 100).unwrap();
        w.solvent(&[&a, &b]);
        assert!(w.oo(&b).reb > 0);
        w.settle(&b).unwrap();
        w.solvent(&[&a, &b]);
    }
""")

seed(id='settle-owner-of-other', prop='C01', edits=[(ST, """            let mut open_orders = market.load_orders_mut(
                open_orders_acc,
                Some(owner.inner()),
                program_id,
                None,
                None,
            )?;

            let args = SettleFundsArgs {""", """            let mut open_orders = market.load_orders_mut(
                open_orders_acc,
                match referrer {
                    None => Some(owner.inner()),
                    Some(_) => None,
                },
                program_id,
                None,
                None,
            )?;

            let args = SettleFundsArgs {""")], needs='a settle instruction with a referrer account, sent by someone who is not the owner', breaks='anyone can settle (and redirect) the balances of another user by naming a referrer', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(0, 0);
        w.bid(&a, 100_000, 50, 6_000_000, 1);
        w.cancel_cid(&a, 1).unwrap();
        w.consume(&[&a], 100).unwrap();
        // b tries to settle a's open orders into b's wallets
        let thief = User { owner: b.owner.clone(), oo: a.oo.clone(), coin: b.coin.clone(), pc: b.pc.clone() };
        let r = w.settle_ref(&thief, Some(&b.pc));
        assert!(r.is_err());
        assert_eq!(w.bal(&b.pc), 0);
    }
""")

seed(id='take-min-bid-native', prop='C06', edits=[(ST, """            Side::Bid if coin_credit < instruction.min_coin_qty => true,""", """            Side::Bid if coin_credit * coin_lot_size < instruction.min_coin_qty => true,""")], needs='a send-take buy whose fill in lots is below the requested minimum, while the fill in native units is not', breaks='an under-filled send-take succeeds', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(1_000_000, 100_000_000);
        w.bid(&a, 10_000, 3, 60_000, 9);
        w.ask(&a, 100_000, 3, 1);
        assert!(w.take(&b, Side::Bid, 100_000, 10, 10_000_000, 5, 0).is_err());
    }
    #[test]
    fn enough() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(1_000_000, 100_000_000);
        w.bid(&a, 10_000, 3, 60_000, 9);
        w.ask(&a, 100_000, 5, 1);
        w.take(&b, Side::Bid, 100_000, 10, 10_000_000, 5, 0).unwrap();
    }
""")

seed(id='selftrade-provide-dropped', prop='C07', edits=[(MA, """                if remaining_provide_qty == 0 {
                    self.orders_mut(Side::Ask)""", """                if remaining_provide_qty == 0 || cancelled_take_qty == coin_qty_remaining {
                    self.orders_mut(Side::Ask)""")],
     needs='a bid that decrements against a larger ask of the same account and is thereby used up completely',
     breaks='the rest of the resting ask disappears from the book although its coins stay locked', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        w.ask(&a, 100, 10, 1);
        w.bid(&a, 100, 4, 400_000, 2);
        let asks = w.book(Side::Ask);
        assert_eq!(asks.len(), 1);
        assert_eq!(asks[0].1, 6);
        w.consume(&[&a], 100).unwrap();
        w.cancel_cid(&a, 1).unwrap();
        w.consume(&[&a], 100).unwrap();
        let o = w.oo(&a);
        assert_eq!((o.cf, o.pf), (o.ct, o.pt));
    }
""")

seed(id='out-frees-live-slot', prop='C14', edits=[(ST, """                    let fully_out = native_qty_still_locked == 0;
""", """                    let fully_out =
                        native_qty_still_locked == 0 || native_qty_unlocked > native_qty_still_locked;
""")], needs='a bid whose budget is more than twice what its posted remainder locks, followed by consuming its events',
     breaks='the slot of an order that still rests on the book is freed, so the order can no longer be cancelled or settled', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(1_000_000, 100_000_000);
        w.bid(&a, 100, 4, 100_000, 7);
        w.consume(&[&a], 100).unwrap();
        let o = w.oo(&a);
        assert_eq!(o.cids[0], 7);
        assert_eq!(o.free, !1u128);
        w.ask(&b, 100, 4, 8);
        w.consume(&[&a, &b], 100).unwrap();
        assert_eq!(w.oo(&a).free, !0u128);
        w.solvent(&[&a, &b]);
    }
""")

seed(id='take-on-disabled', prop='C15', edits=[(ST, """            let mut market = Market::load(market_acc, program_id, false)?;

            let signer = SignerAccount::new(signer_acc)?;""", """            let mut market = Market::load(market_acc, program_id, true)?;

            let signer = SignerAccount::new(signer_acc)?;""")], needs='a market that was disabled while orders rest on its book',
     breaks='immediate takes still trade on the disabled market', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(1_000_000, 100_000_000);
        w.bid(&a, 100, 4, 100_000, 7);
        let auth = AccountInfo::new(&crate::instruction::disable_authority::ID, true, false, bump.alloc(1), &mut [], &system_program::ID, false, Epoch::default());
        w.run(vec![w.m.market.clone(), auth], MarketInstruction::DisableMarket).unwrap();
        assert!(w.order(&b, Side::Ask, 100, 1, 1, 3).is_err());
        assert!(w.take(&b, Side::Ask, 100, 2, 1, 0, 1).is_err());
        w.cancel_cid(&a, 7).unwrap();
    }
""")

seed(id='init-pc-delegate', prop='C17', edits=[(ST, """                let delegate_tag = array_ref![vault_data, 0x48, 0x4];
                check_assert_eq!(*delegate_tag, [0u8; 4])?;
""", """                if vault.0.key != unchecked_vaults[i ^ 1].key {
                    let delegate_tag = array_ref![vault_data, 0x48, 0x4];
                    check_assert_eq!(*delegate_tag, [0u8; 4]).or_else(|e| match i {
                        0 => Err(e),
                        _ => check_assert_eq!(*array_ref![vault_data, 0x79, 0x8], [0u8; 8]),
                    })?;
                }
""")], needs='initialising a market whose pc vault names a delegate that currently has no allowance',
     breaks='a market is created although a third party is the delegate of one of its vaults', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let mut r = StdRng::seed_from_u64(11);
        for (bad_coin, bad_pc) in &[(false, false), (true, false), (false, true)] {
            let pid = w.pid;
            let (nonce, vs) = {
                let mut i = 0u64;
                let key;
                loop {
                    let k = random_pubkey(&mut r, &bump);
                    if let Ok(p) = Pubkey::create_program_address(&[k.as_ref(), bytemuck::bytes_of(&i)], pid) {
                        key = (k, p);
                        break;
                    }
                }
                (i, key)
            };
            let market = AccountInfo::new(vs.0, false, true, bump.alloc(60_000_000_000), allocate_dex_owned_account(size_of::<MarketState>(), &bump), pid, false, Epoch::default());
            let signer: &Pubkey = bump.alloc(vs.1);
            let bids = new_dex_owned_account(&mut r, 1 << 16, pid, &bump);
            let asks = new_dex_owned_account(&mut r, 1 << 16, pid, &bump);
            let req_q = new_dex_owned_account(&mut r, 640, pid, &bump);
            let event_q = new_dex_owned_account(&mut r, 65536, pid, &bump);
            let cv = new_token_account(&mut r, w.m.coin_mint.key, signer, 0, &bump);
            let pv = new_token_account(&mut r, w.m.pc_mint.key, signer, 0, &bump);
            for (bad, v) in &[(*bad_coin, &cv), (*bad_pc, &pv)] {
                if *bad {
                    let mut d = v.try_borrow_mut_data().unwrap();
                    let mut a = Account::unpack(&d).unwrap();
                    a.delegate = spl_token::solana_program::program_option::COption::Some(*w.m.coin_mint.key);
                    Account::pack(a, &mut d).unwrap();
                }
            }
            let res = w.run(
                vec![market, req_q, event_q, bids, asks, cv, pv, w.m.coin_mint.clone(), w.m.pc_mint.clone(), w.m.rent_sysvar.clone()],
                MarketInstruction::InitializeMarket(InitializeMarketInstruction { coin_lot_size: 1000, pc_lot_size: 1, fee_rate_bps: 0, vault_signer_nonce: nonce, pc_dust_threshold: 5 }),
            );
            assert_eq!(res.is_ok(), !*bad_coin && !*bad_pc);
        }
    }
""")

seed(id='close-one-currency', prop='C16', edits=[(ST, """            if open_orders.free_slot_bits != std::u128::MAX {""", """            if open_orders.free_slot_bits != std::u128::MAX && open_orders.is_bid_bits != 0 {""")],
     needs='closing an account whose only order is an ask that was matched away in full and not consumed yet',
     breaks='an account with a used slot is closed; its pending events can never be consumed', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(1_000_000, 100_000_000);
        w.bid(&a, 100, 1, 100_000, 1);
        w.ask(&b, 100, 1, 2);
        w.settle(&b).unwrap();
        let o = w.oo(&b);
        assert_eq!((o.ct, o.pt, o.free == !0u128), (0, 0, false));
        let dest = new_sol_account(&mut *w.rng.borrow_mut(), 1, &bump);
        assert!(w.close(&b, &dest).is_err());
        w.consume(&[&a, &b], 100).unwrap();
        w.settle(&b).unwrap();
        w.close(&b, &dest).unwrap();
    }
""")

seed(id='replace-ts-default', prop='C18', edits=[('dex/src/instruction.rs', """46 => Some([data, &i64::MAX.to_le_bytes()].concat()),""", """46 => Some([data, &(u32::MAX as i64).to_le_bytes()].concat()),""")],
     needs='decoding the short form of a new order, which carries no expiry', breaks='an order sent without an expiry gets one', body="""
    #[test]
    fn demo() {
        let full = MarketInstruction::NewOrderV3(NewOrderInstructionV3 {
            side: Side::Bid,
            limit_price: NonZeroU64::new(1).unwrap(),
            max_coin_qty: NonZeroU64::new(1).unwrap(),
            max_native_pc_qty_including_fees: NonZeroU64::new(1).unwrap(),
            client_order_id: 5,
            order_type: OrderType::Limit,
            self_trade_behavior: SelfTradeBehavior::DecrementTake,
            limit: 9,
            max_ts: i64::MAX,
        });
        let data = full.pack();
        let short = &data[..data.len() - 8];
        assert_eq!(MarketInstruction::unpack(short).unwrap(), full);
    }
""")

seed(id='tail-padding', prop='C24', edits=[(ST, """    check_assert_eq!(tail, ACCOUNT_TAIL_PADDING)?;
""", """    check_assert!(tail.starts_with(&ACCOUNT_TAIL_PADDING[..head.len()]))?;
""")], needs='an account whose last two marker bytes are wrong', breaks='accounts that do not carry the tail marker are accepted', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        w.bid(&a, 100, 1, 100_000, 1);
        {
            let mut d = w.m.bids.try_borrow_mut_data().unwrap();
            let n = d.len();
            d[n - 1] = b'X';
        }
        assert!(w.order(&a, Side::Bid, 99, 1, 100_000, 2).is_err());
    }
""")

seed(id='expiry-off-by-one', prop='C25', edits=[(ST, """            if cur_ts > instruction.max_ts {""", """            if cur_ts > instruction.max_ts.saturating_add(1) {""")],
     needs='an order that expired one second ago', breaks='an expired order is accepted', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let u = w.user(1_000_000, 100_000_000);
        for (ts, ok) in &[(1_650_000_000i64, true), (1_649_999_999, false), (5, false)] {
            let r = w.run(
                vec![w.m.market.clone(), u.oo.clone(), w.m.req_q.clone(), w.m.event_q.clone(), w.m.bids.clone(), w.m.asks.clone(),
                     u.pc.clone(), u.owner.clone(), w.m.coin_vault.clone(), w.m.pc_vault.clone(), w.spl.clone(), w.m.rent_sysvar.clone()],
                MarketInstruction::NewOrderV3(NewOrderInstructionV3 {
                    side: Side::Bid,
                    limit_price: NonZeroU64::new(10).unwrap(),
                    max_coin_qty: NonZeroU64::new(1).unwrap(),
                    max_native_pc_qty_including_fees: NonZeroU64::new(100).unwrap(),
                    client_order_id: 5,
                    order_type: OrderType::Limit,
                    self_trade_behavior: SelfTradeBehavior::DecrementTake,
                    limit: 9,
                    max_ts: *ts,
                }),
            );
            assert_eq!(r.is_ok(), *ok);
        }
    }
""")

seed(id='cancels-ignore-full-queue', prop='C13', edits=[(ST, """                        if code == DexErrorCode::OrderNotFound {
                            continue;""", """                        if code == DexErrorCode::OrderNotFound || code == DexErrorCode::EventQueueFull {
                            continue;""")], needs='a batch cancel while the event queue is full',
     breaks='the order leaves the book and its funds are released without an out event, so its slot stays used for ever', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000, 100_000_000);
        let b = w.user(1_000_000, 100_000_000);
        w.ask(&a, 1000, 1, 1);
        loop {
            let r = w.order_full(&b, Side::Bid, 10, 1, 100, OrderType::ImmediateOrCancel, 0, SelfTradeBehavior::DecrementTake, 10);
            if r.is_err() { break; }
            // keep a slot available: the queue still holds the out events
            if w.oo(&b).free == 0 { break; }
        }
        let mut users = vec![];
        'fill: loop {
            let u = w.user(1_000_000, 100_000_000);
            users.push(u);
            let u = users.last().unwrap();
            for _ in 0..128 {
                if w.order_full(u, Side::Bid, 10, 1, 100, OrderType::ImmediateOrCancel, 0, SelfTradeBehavior::DecrementTake, 10).is_err() {
                    break 'fill;
                }
            }
        }
        assert!(w.cancel_cids(&a, [1, 2, 3, 4, 5, 6, 7, 8]).is_err());
    }
""")

seed(id='take-fee-deposits', prop='C10', edits=[(MA, """        self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;


        if !done {""", """        self.market_state.pc_deposits_total -= if is_send_take {
            net_fees
        } else {
            net_fees_before_referrer_rebate
        };

        if !done {""")], needs='an immediate take that sells into resting bids', breaks='the referrer share of the fee stays in the booked deposits as well, so the books promise more than the vault holds', body="""
    #[test]
    fn demo() {
        let bump = Bump::new();
        let w = World::new(&bump);
        let a = w.user(1_000_000_000, 1_000_000_000);
        let b = w.user(1_000_000_000, 1_000_000_000);
        w.bid(&a, 100_000, 1000, 200_000_000, 1);
        w.take(&b, Side::Ask, 100_000, 1000, 1, 0, 1).unwrap();
        let (c, p, f, r) = w.mkt();
        assert!(r > 0);
        assert_eq!(w.bal(&w.m.pc_vault), p + f + r);
    }
""")
