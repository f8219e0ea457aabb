
#[cfg(test)]
#[allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod demo {
    use super::*;
    use crate::instruction::*;
    use crate::state::*;

    pub struct User<'b> {
        pub owner: AccountInfo<'b>,
        pub oo: AccountInfo<'b>,
        pub coin: AccountInfo<'b>,
        pub pc: AccountInfo<'b>,
    }

    pub struct World<'b> {
        m: MarketAccounts<'b>,
        pub pid: &'b Pubkey,
        pub spl: AccountInfo<'b>,
        pub bump: &'b Bump,
        pub rng: std::cell::RefCell<StdRng>,
    }

    pub struct OO {
        pub cf: u64,
        pub ct: u64,
        pub pf: u64,
        pub pt: u64,
        pub free: u128,
        pub bids: u128,
        pub orders: [u128; 128],
        pub cids: [u64; 128],
        pub reb: u64,
    }

    pub type R = Result<(), crate::error::DexError>;

    impl<'b> World<'b> {
        pub fn new(bump: &'b Bump) -> World<'b> {
            let mut rng = StdRng::seed_from_u64(7);
            let m = setup_market(&mut rng, bump);
            let pid = m.market.owner;
            let spl = new_spl_token_program(bump);
            World { m, pid, spl, bump, rng: std::cell::RefCell::new(rng) }
        }
        pub fn user(&self, coin: u64, pc: u64) -> User<'b> {
            let mut r = self.rng.borrow_mut();
            let owner = new_sol_account(&mut *r, 1_000_000_000, self.bump);
            let oo = new_dex_owned_account(&mut *r, size_of::<OpenOrders>(), self.pid, self.bump);
            let coin = new_token_account(&mut *r, self.m.coin_mint.key, owner.key, coin, self.bump);
            let pc = new_token_account(&mut *r, self.m.pc_mint.key, owner.key, pc, self.bump);
            User { owner, oo, coin, pc }
        }
        pub fn run(&self, accs: Vec<AccountInfo<'b>>, ix: MarketInstruction) -> R {
            let s: &'b [AccountInfo<'b>] =
                BumpVec::from_iter_in(accs.into_iter(), self.bump).into_bump_slice();
            State::process(self.pid, s, &ix.pack())
        }
        #[allow(clippy::too_many_arguments)]
        pub fn order_full(&self, u: &User<'b>, side: Side, px: u64, qty: u64, pc: u64, ot: OrderType, cid: u64, stb: SelfTradeBehavior, limit: u16) -> R {
            let payer = match side { Side::Bid => &u.pc, Side::Ask => &u.coin };
            self.run(
                vec![self.m.market.clone(), u.oo.clone(), self.m.req_q.clone(), self.m.event_q.clone(), self.m.bids.clone(), self.m.asks.clone(),
                     payer.clone(), u.owner.clone(), self.m.coin_vault.clone(), self.m.pc_vault.clone(), self.spl.clone(), self.m.rent_sysvar.clone()],
                MarketInstruction::NewOrderV3(NewOrderInstructionV3 {
                    side,
                    limit_price: NonZeroU64::new(px).unwrap(),
                    max_coin_qty: NonZeroU64::new(qty).unwrap(),
                    max_native_pc_qty_including_fees: NonZeroU64::new(pc).unwrap(),
                    client_order_id: cid,
                    order_type: ot,
                    self_trade_behavior: stb,
                    limit,
                    max_ts: i64::MAX,
                }),
            )
        }
        pub fn order(&self, u: &User<'b>, side: Side, px: u64, qty: u64, pc: u64, cid: u64) -> R {
            self.order_full(u, side, px, qty, pc, OrderType::Limit, cid, SelfTradeBehavior::DecrementTake, 100)
        }
        pub fn bid(&self, u: &User<'b>, px: u64, qty: u64, pc: u64, cid: u64) {
            self.order(u, Side::Bid, px, qty, pc, cid).unwrap()
        }
        pub fn ask(&self, u: &User<'b>, px: u64, qty: u64, cid: u64) {
            self.order(u, Side::Ask, px, qty, 1, cid).unwrap()
        }
        pub fn take(&self, u: &User<'b>, side: Side, px: u64, qty: u64, pc: u64, min_coin: u64, min_pc: u64) -> R {
            self.run(
                vec![self.m.market.clone(), self.m.req_q.clone(), self.m.event_q.clone(), self.m.bids.clone(), self.m.asks.clone(),
                     u.coin.clone(), u.pc.clone(), u.owner.clone(), self.m.coin_vault.clone(), self.m.pc_vault.clone(), self.spl.clone(), self.m.vault_signer.clone()],
                MarketInstruction::SendTake(SendTakeInstruction {
                    side,
                    limit_price: NonZeroU64::new(px).unwrap(),
                    max_coin_qty: NonZeroU64::new(qty).unwrap(),
                    max_native_pc_qty_including_fees: NonZeroU64::new(pc).unwrap(),
                    min_coin_qty: min_coin,
                    min_native_pc_qty: min_pc,
                    limit: 100,
                }),
            )
        }
        pub fn cancel_accs(&self, u: &User<'b>) -> Vec<AccountInfo<'b>> {
            vec![self.m.market.clone(), self.m.bids.clone(), self.m.asks.clone(), u.oo.clone(), u.owner.clone(), self.m.event_q.clone()]
        }
        pub fn cancel(&self, u: &User<'b>, side: Side, order_id: u128) -> R {
            self.run(self.cancel_accs(u), MarketInstruction::CancelOrderV2(CancelOrderInstructionV2 { side, order_id }))
        }
        pub fn cancel_cid(&self, u: &User<'b>, cid: u64) -> R {
            self.run(self.cancel_accs(u), MarketInstruction::CancelOrderByClientIdV2(cid))
        }
        pub fn cancel_cids(&self, u: &User<'b>, cids: [u64; 8]) -> R {
            self.run(self.cancel_accs(u), MarketInstruction::CancelOrdersByClientIds(cids))
        }
        pub fn consume(&self, us: &[&User<'b>], n: u16) -> R {
            let mut oos: Vec<AccountInfo<'b>> = us.iter().map(|u| u.oo.clone()).collect();
            oos.sort_by_key(|a| a.key.to_aligned_bytes());
            oos.push(self.m.market.clone());
            oos.push(self.m.event_q.clone());
            oos.push(self.m.coin_vault.clone());
            oos.push(self.m.pc_vault.clone());
            self.run(oos, MarketInstruction::ConsumeEvents(n))
        }
        pub fn settle_ref(&self, u: &User<'b>, r: Option<&AccountInfo<'b>>) -> R {
            let mut v = vec![self.m.market.clone(), u.oo.clone(), u.owner.clone(), self.m.coin_vault.clone(), self.m.pc_vault.clone(),
                             u.coin.clone(), u.pc.clone(), self.m.vault_signer.clone(), self.spl.clone()];
            if let Some(a) = r { v.push(a.clone()) }
            self.run(v, MarketInstruction::SettleFunds)
        }
        pub fn settle(&self, u: &User<'b>) -> R { self.settle_ref(u, None) }
        pub fn close(&self, u: &User<'b>, dest: &AccountInfo<'b>) -> R {
            self.run(vec![u.oo.clone(), u.owner.clone(), dest.clone(), self.m.market.clone()], MarketInstruction::CloseOpenOrders)
        }
        pub fn bal(&self, a: &AccountInfo<'b>) -> u64 {
            TokenAccount::new(a).unwrap().balance().unwrap()
        }
        pub fn oo(&self, u: &User<'b>) -> OO {
            let mk = Market::load(&self.m.market, self.pid, true).unwrap();
            let o = mk.load_orders_mut(&u.oo, None, self.pid, None, None).unwrap();
            OO { cf: identity(o.native_coin_free), ct: identity(o.native_coin_total), pf: identity(o.native_pc_free), pt: identity(o.native_pc_total),
                 free: identity(o.free_slot_bits), bids: identity(o.is_bid_bits), orders: identity(o.orders), cids: identity(o.client_order_ids),
                 reb: identity(o.referrer_rebates_accrued) }
        }
        /// (coin_deposits, pc_deposits, fees, rebates)
        pub fn mkt(&self) -> (u64, u64, u64, u64) {
            let m = Market::load(&self.m.market, self.pid, true).unwrap();
            (identity(m.coin_deposits_total), identity(m.pc_deposits_total), identity(m.pc_fees_accrued), identity(m.referrer_rebates_accrued))
        }
        /// leaves of one book, best first: (price, qty, owner, client id)
        pub fn book(&self, side: Side) -> Vec<(u64, u64, [u64; 4], u64, u128)> {
            let mkt = Market::load(&self.m.market, self.pid, true).unwrap();
            let mut s = match side { Side::Bid => mkt.load_bids_mut(&self.m.bids).unwrap(), Side::Ask => mkt.load_asks_mut(&self.m.asks).unwrap() };
            let mut v = vec![];
            let mut keys = vec![];
            loop {
                let h = match side { Side::Bid => s.find_max(), Side::Ask => s.find_min() };
                let h = match h { None => break, Some(h) => h };
                let n = *s.get(h).unwrap().as_leaf().unwrap();
                v.push((n.price().get(), n.quantity(), n.owner(), n.client_order_id(), n.order_id()));
                keys.push(n);
                s.remove_by_key(n.order_id());
            }
            for n in keys.iter() { s.insert_leaf(n).unwrap(); }
            v
        }
        pub fn events(&self) -> Vec<EventView> {
            let (header, buf) = strip_header::<EventQueueHeader, Event>(&self.m.event_q, false).unwrap();
            let q = EventQueue::new(header, buf);
            q.iter().map(|e| e.as_view().unwrap()).collect()
        }
        /// vault balances always cover everything owed to the given users, plus fees and rebates
        pub fn solvent(&self, us: &[&User<'b>]) {
            let (c, p, f, r) = self.mkt();
            assert_eq!(self.bal(&self.m.coin_vault), c, "coin vault vs deposits");
            assert_eq!(self.bal(&self.m.pc_vault), p + f + r, "pc vault vs deposits+fees+rebates");
            let mut ct = 0;
            let mut pt = 0;
            for u in us { let o = self.oo(u); ct += o.ct; pt += o.pt; assert!(o.cf <= o.ct && o.pf <= o.pt); }
            assert_eq!(ct, c, "sum of user coin totals");
            assert_eq!(pt, p, "sum of user pc totals");
        }
    }
    type User_<'b> = User<'b>;

    //BODY
}
