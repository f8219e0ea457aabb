"""development edits: 'bug' breaks a property, 'ok' keeps the behaviour (used by tools/mut.py)"""
MUTANTS = []
ST = 'dex/src/state.rs'
MA = 'dex/src/matching.rs'
IN = 'dex/src/instruction.rs'
FE = 'dex/src/fees.rs'
CB = 'dex/src/critbit.rs'


def bug(name, props, *edits, **k):
    MUTANTS.append(dict(name=name, kind='bug', props=props.split(), edits=list(edits), **k))


def ok(name, *edits, **k):
    MUTANTS.append(dict(name=name, kind='ok', edits=list(edits), props=[], **k))


# ------------------------------------------------------------------ matching: bugs
bug('m-selftrade-cancelprovide-qty', 'C07', (MA, """                        cancelled_provide_qty = best_bid_ref.quantity();
                        cancelled_take_qty = 0;""", """                        cancelled_provide_qty = trade_qty;
                        cancelled_take_qty = 0;"""))
bug('m-ask-post-crossed', 'C08', (MA, "        if post_allowed && !crossed && unfilled_qty > 0 {", "        if post_allowed && (!crossed || post_only) && unfilled_qty > 0 {"))
bug('m-crossed-lt', 'C08', (MA, "            crossed = limit_price <= trade_price;", "            crossed = limit_price < trade_price;"))
bug('m-limit-iopc', 'C08', (MA, """            OrderType::ImmediateOrCancel => (false, false),
            OrderType::PostOnly => (true, true),""", """            OrderType::ImmediateOrCancel => (false, max_coin_qty.get() > 1000),
            OrderType::PostOnly => (true, true),"""))
bug('m-out-release-true', 'C07 C11', (MA, """            let out = Event::new(EventView::Out {
                side: Side::Ask,
                release_funds: false,""", """            let out = Event::new(EventView::Out {
                side: Side::Ask,
                release_funds: true,"""))
bug('m-evict-min-ask', 'C09', (MA, "let order = offers.remove_max().unwrap();", "let order = offers.remove_min().unwrap();"))
bug('m-evict-bid-price', 'C07 C09 C11', (MA, "native_qty_unlocked: order.quantity() * order.price().get() * pc_lot_size,", "native_qty_unlocked: order.quantity() * limit_price.unwrap().get() * pc_lot_size,"))
bug('m-evict-slot', 'C11 C09', (MA, """                    order_id: order.order_id(),
                    owner: order.owner(),
                    owner_slot: order.owner_slot(),
                    client_order_id: NonZeroU64::new(order.client_order_id()),
                });
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                bids.insert""", """                    order_id: order.order_id(),
                    owner: order.owner(),
                    owner_slot,
                    client_order_id: NonZeroU64::new(order.client_order_id()),
                });
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                bids.insert"""))
bug('m-bid-post-lot', 'C07', (MA, "coin_qty_remaining.min(native_pc_qty_remaining / pc_lot_size / price.get());", "coin_qty_remaining.min(native_pc_qty_locked.get() / pc_lot_size / price.get());"))
bug('m-maker-fee-tier', 'C07 C10 C11', (MA, "            let maker_fee_tier = best_offer_ref.fee_tier();", "            let maker_fee_tier = fee_tier;"))
bug('m-referrer-before', 'C10', (MA, "        let referrer_rebate = fees::referrer_rebate(native_taker_fee);", "        let referrer_rebate = fees::referrer_rebate(net_fees_before_referrer_rebate);"), count=2)
bug('m-deposits-netfees', 'C10', (MA, """        self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;

        if !done {
            if let Some(coin_qty_remaining) = NonZeroU64::new(coin_qty_remaining) {""", """        self.market_state.pc_deposits_total -= net_fees;

        if !done {
            if let Some(coin_qty_remaining) = NonZeroU64::new(coin_qty_remaining) {"""))
bug('m-no-out-on-full-fill', 'C11', (MA, "            if best_offer_ref.quantity() == 0 {\n", "            if best_offer_ref.quantity() == 0 && coin_qty_remaining == 0 {\n"))
bug('m-taker-owner-slot', 'C11', (MA, """                    order_id,
                    owner,
                    owner_slot,
                    fee_tier,
                    client_order_id: NonZeroU64::new(client_order_id),
                });
                event_q
                    .push_back(taker_fill)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
            }
        }

        let net_fees_before_referrer_rebate = native_taker_fee - accum_maker_rebates;
        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
        let net_fees = net_fees_before_referrer_rebate - referrer_rebate;

        self.market_state.referrer_rebates_accrued += referrer_rebate;
        self.market_state.pc_fees_accrued += net_fees;
        self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;

        if""", """                    order_id,
                    owner,
                    owner_slot,
                    fee_tier,
                    client_order_id: None,
                });
                event_q
                    .push_back(taker_fill)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
            }
        }

        let net_fees_before_referrer_rebate = native_taker_fee - accum_maker_rebates;
        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
        let net_fees = net_fees_before_referrer_rebate - referrer_rebate;

        self.market_state.referrer_rebates_accrued += referrer_rebate;
        self.market_state.pc_fees_accrued += net_fees;
        self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;

        if"""))
bug('m-limit-not-dec', 'C25', (MA, "            *limit -= 1;\n            match remaining_order {", "            if remaining_order.is_none() {\n                *limit -= 1;\n            }\n            match remaining_order {"))
bug('m-limit-zero-still-match', 'C25 C08', (MA, "                post_only = true;\n", "                post_only = side == Side::Bid;\n"))
bug('m-ignore-queue-full', 'C11', (MA, """            event_q
                .push_back(maker_fill)
                .map_err(|_| DexErrorCode::EventQueueFull)?;

            best_bid""", """            let _ = event_q.push_back(maker_fill);

            best_bid"""))
bug('m-bbo-min', 'C09', (MA, "            Side::Bid => self.bids.find_max(),", "            Side::Bid => self.bids.find_min(),"))
bug('m-cancel-noowner', 'C13', (MA, """        check_assert_eq!(leaf_node.owner(), open_orders_address)
            .or(Err(DexErrorCode::OrderNotYours))?;
""", ""))
bug('m-cancel-side', 'C13', (MA, "        check_assert_eq!(Some(side), open_orders.slot_side(open_orders_slot))?;\n", ""))
bug('m-cancel-unlock', 'C13', (MA, """                native_qty_unlocked = leaf_node.quantity() * self.market_state.coin_lot_size;
                open_orders.unlock_coin(native_qty_unlocked);""", """                native_qty_unlocked = leaf_node.quantity() * self.market_state.coin_lot_size;
                open_orders.unlock_pc(native_qty_unlocked);"""))
bug('m-cancel-release', 'C13', (MA, """            .push_back(Event::new(EventView::Out {
                side,
                release_funds: false,""", """            .push_back(Event::new(EventView::Out {
                side,
                release_funds: true,"""))
bug('m-remove-all-first', 'C13', (MA, """            .filter_map(|order_to_remove| self.asks.remove_by_key(*order_to_remove))
            .collect();""", """            .skip(bids_removed.len() / 64)
            .filter_map(|order_to_remove| self.asks.remove_by_key(*order_to_remove))
            .collect();"""))
bug('m-self-trade-owner', 'C08', (MA, "            let order_would_self_trade = owner == best_offer_ref.owner();", "            let order_would_self_trade = owner == best_offer_ref.owner() && owner_slot != best_offer_ref.owner_slot();"))
bug('m-bid-no-remove-fee', 'C07 C10', (MA, "        let max_pc_qty = fee_tier.remove_taker_fee(native_pc_qty_locked.get()) / pc_lot_size;", "        let max_pc_qty = native_pc_qty_locked.get() / pc_lot_size;"))
bug('m-selftrade-bid-remaining', 'C07', (MA, """                        None => {
                            native_qty_unlocked = native_pc_qty_locked.get();
                            native_qty_still_locked = 0;""", """                        None => {
                            native_qty_unlocked = native_taker_pc_unlocked;
                            native_qty_still_locked = 0;"""))
bug('m-taker-fee-cond', 'C07 C11', (MA, "            if native_taker_pc_qty > 0 && !is_send_take {", "            if native_taker_fee > 0 && !is_send_take {"))
bug('m-price-extract', 'C08', (MA, "    (order_id >> 64) as u64", "    (order_id >> 64) as u32 as u64"))

# ------------------------------------------------------------------ matching: refactorings
ok('r-m-helper-fees', (MA, """        let net_fees_before_referrer_rebate = native_taker_fee - accum_maker_rebates;
        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
        let net_fees = net_fees_before_referrer_rebate - referrer_rebate;

        self.market_state.referrer_rebates_accrued += referrer_rebate;
        self.market_state.pc_fees_accrued += net_fees;
        self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;
""", """        self.book_fees(native_taker_fee, accum_maker_rebates);
"""), (MA, "pub(crate) struct RequestProceeds {", """impl<'ob> OrderBookState<'ob> {
    fn book_fees(&mut self, native_taker_fee: u64, accum_maker_rebates: u64) {
        let before = native_taker_fee - accum_maker_rebates;
        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
        let net_fees = before - referrer_rebate;
        self.market_state.pc_deposits_total -= before;
        self.market_state.pc_fees_accrued += net_fees;
        self.market_state.referrer_rebates_accrued += referrer_rebate;
    }
}

pub(crate) struct RequestProceeds {"""), count=None)
ok('r-m-helper-push', (MA, """                event_q
                    .push_back(provide_out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
""", """                push_event(event_q, provide_out)?;
"""), (MA, "pub(crate) struct RequestProceeds {", """fn push_event(event_q: &mut EventQueue, event: Event) -> DexResult {
    match event_q.push_back(event) {
        Ok(()) => Ok(()),
        Err(_) => Err(DexErrorCode::EventQueueFull.into()),
    }
}

pub(crate) struct RequestProceeds {"""), count=None)
ok('r-m-if-instead-of-match', (MA, """            let best_bid_h = match self.find_bbo(Side::Bid) {
                None => {
                    crossed = false;
                    break true;
                }
                Some(h) => h,
            };
""", """            let best_bid_h = if let Some(h) = self.find_bbo(Side::Bid) {
                h
            } else {
                crossed = false;
                break true;
            };
"""))
ok('r-m-reorder-updates', (MA, """            best_bid_ref.set_quantity(best_bid_ref.quantity() - trade_qty);
            unfilled_qty -= trade_qty;
            accum_fill_price += trade_qty * trade_price.get();
""", """            accum_fill_price += trade_price.get() * trade_qty;
            unfilled_qty = unfilled_qty - trade_qty;
            let new_qty = bid_size - trade_qty;
            best_bid_ref.set_quantity(new_qty);
"""))
ok('r-m-min-if', (MA, "            let trade_qty = bid_size.min(unfilled_qty);", "            let trade_qty = if bid_size < unfilled_qty { bid_size } else { unfilled_qty };"))
ok('r-m-min-stdcmp', (MA, "            let trade_qty = bid_size.min(unfilled_qty);", "            let trade_qty = std::cmp::min(unfilled_qty, bid_size);"))
ok('r-m-while', (MA, """        loop {
            if *limit == 0 {
                // Stop matching and release funds if we're out of cycles
                post_only = true;
                // Remove this block of code as it can lead to undefined behavior where
                // an ImmediateOrCancel order is allowed to place orders on the book
                // post_allowed = true;
            }
""", """        loop {
            let out_of_cycles = *limit == 0;
            post_only = post_only || out_of_cycles;
"""), (MA, """            if *limit == 0 {
                return Ok(remaining_order);
            }
            *limit -= 1;
            match remaining_order {
                Some(remaining_order) => {
                    max_coin_qty = remaining_order.coin_qty_remaining;
                    native_pc_qty_locked = remaining_order.native_pc_qty_remaining;
                }
                None => return Ok(None),
            };
""", """            if out_of_cycles {
                return Ok(remaining_order);
            }
            *limit -= 1;
            let rest = match remaining_order {
                None => return Ok(None),
                Some(rest) => rest,
            };
            native_pc_qty_locked = rest.native_pc_qty_remaining;
            max_coin_qty = rest.coin_qty_remaining;
"""))
ok('r-m-crossed-match', (MA, """            crossed = limit_price
                .map(|limit_price| limit_price >= trade_price)
                .unwrap_or(true);
""", """            crossed = match limit_price {
                Some(p) => p >= trade_price,
                None => true,
            };
"""))
ok('r-m-crossed-mapor', (MA, """            crossed = limit_price
                .map(|limit_price| limit_price >= trade_price)
                .unwrap_or(true);
""", """            crossed = limit_price.map_or(true, |limit_price| limit_price.get() >= trade_price.get());
"""))
ok('r-m-post-flip', (MA, """            let insert_result = offers.insert_leaf(&new_order);
            if let Err(SlabTreeError::OutOfSpace) = insert_result {""", """            let insert_result = offers.insert_leaf(&new_order);
            let book_full = matches!(insert_result, Err(SlabTreeError::OutOfSpace));
            if book_full {"""))
ok('r-m-mkout', (MA, """            to_release.unlock_coin(unfilled_qty);
            let out = Event::new(EventView::Out {
                side: Side::Ask,
                release_funds: false,
                native_qty_unlocked: unfilled_qty * coin_lot_size,
                native_qty_still_locked: 0,
                order_id,
                owner,
                owner_slot,
                client_order_id: NonZeroU64::new(client_order_id),
            });
            event_q
                .push_back(out)
                .map_err(|_| DexErrorCode::EventQueueFull)?;
""", """            let view = EventView::Out {
                side: Side::Ask,
                release_funds: false,
                native_qty_unlocked: coin_lot_size * unfilled_qty,
                native_qty_still_locked: 0,
                order_id,
                owner,
                owner_slot,
                client_order_id: if client_order_id == 0 { None } else { NonZeroU64::new(client_order_id) },
            };
            if event_q.push_back(Event::new(view)).is_err() {
                return Err(DexErrorCode::EventQueueFull.into());
            }
            to_release.unlock_coin(unfilled_qty);
"""))
ok('r-m-noop-stmt', (MA, "        let is_send_take = system_program::ID.to_aligned_bytes() == owner;", "        let _probe = 1u64.wrapping_add(2);\n        let is_send_take = system_program::ID.to_aligned_bytes() == owner;"), count=2)
ok('r-m-remaining-func', (MA, """        if !done {
            if let Some(coin_qty_remaining) = NonZeroU64::new(coin_qty_remaining) {
                if let Some(native_pc_qty_remaining) = NonZeroU64::new(native_pc_qty_remaining) {
                    return Ok(Some(OrderRemaining {
                        coin_qty_remaining,
                        native_pc_qty_remaining: Some(native_pc_qty_remaining),
                    }));
                }
            }
        }
""", """        if !done && coin_qty_remaining > 0 && native_pc_qty_remaining > 0 {
            return Ok(Some(OrderRemaining {
                coin_qty_remaining: NonZeroU64::new(coin_qty_remaining).unwrap(),
                native_pc_qty_remaining: NonZeroU64::new(native_pc_qty_remaining),
            }));
        }
"""))
ok('r-m-selftrade-closure', (MA, """                let order_remaining = (|| {
                    Some(OrderRemaining {
                        coin_qty_remaining: NonZeroU64::new(
                            coin_qty_remaining - cancelled_take_qty,
                        )?,
                        native_pc_qty_remaining: Some(NonZeroU64::new(
                            native_taker_pc_still_locked,
                        )?),
                    })
                })();
""", """                let coin_left = NonZeroU64::new(coin_qty_remaining - cancelled_take_qty);
                let pc_left = NonZeroU64::new(native_taker_pc_still_locked);
                let order_remaining = match (coin_left, pc_left) {
                    (Some(coin_qty_remaining), Some(_)) => Some(OrderRemaining {
                        coin_qty_remaining,
                        native_pc_qty_remaining: pc_left,
                    }),
                    _ => None,
                };
"""))
ok('r-m-cancel-match-expr', (MA, """        let native_qty_unlocked;
        match side {
            Side::Bid => {
                native_qty_unlocked =
                    leaf_node.quantity() * leaf_node.price().get() * self.market_state.pc_lot_size;
                open_orders.unlock_pc(native_qty_unlocked);
            }
            Side::Ask => {
                native_qty_unlocked = leaf_node.quantity() * self.market_state.coin_lot_size;
                open_orders.unlock_coin(native_qty_unlocked);
            }
        }
""", """        let native_qty_unlocked = locked_native(&leaf_node, side, self.market_state);
        if side == Side::Bid {
            open_orders.unlock_pc(native_qty_unlocked);
        } else {
            open_orders.unlock_coin(native_qty_unlocked);
        }
"""), (MA, "pub(crate) struct RequestProceeds {", """fn locked_native(leaf: &LeafNode, side: Side, market: &MarketState) -> u64 {
    match side {
        Side::Ask => leaf.quantity() * market.coin_lot_size,
        Side::Bid => leaf.price().get() * leaf.quantity() * market.pc_lot_size,
    }
}

pub(crate) struct RequestProceeds {"""), count=None)
ok('r-m-removeall-loop', (MA, """        let asks_removed: Vec<LeafNode> = asks_matching_open_orders
            .iter()
            .filter_map(|order_to_remove| self.asks.remove_by_key(*order_to_remove))
            .collect();
""", """        let mut asks_removed: Vec<LeafNode> = Vec::new();
        for order_to_remove in asks_matching_open_orders.iter() {
            if let Some(leaf) = self.asks.remove_by_key(*order_to_remove) {
                asks_removed.push(leaf);
            }
        }
"""))

# ------------------------------------------------------------------ state.rs: bugs
bug('s-load-orders-market', 'C03', (ST, """        check_assert_eq!(identity(open_orders.market), identity(self.own_address))
            .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        if let Some(owner)""", """        if owner_account.is_some() {
            check_assert_eq!(identity(open_orders.market), identity(self.own_address))
                .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        }
        if let Some(owner)"""))
bug('s-oo-authority-none', 'C02', (ST, """            if oo_authority != self.open_orders_authority() {""", """            if oo_authority.is_some() && oo_authority != self.open_orders_authority() {"""))
bug('s-unlock-assert', 'C05 C13', (ST, "        assert!(self.native_coin_free <= self.native_coin_total);\n", ""))
bug('s-remove-keep-side', 'C14', (ST, "        self.is_bid_bits &= !slot_mask;\n\n        Ok(())", "        Ok(())"))
bug('s-remove-keep-cid', 'C14', (ST, "        self.client_order_ids[slot as usize] = 0;\n", ""))
bug('s-remove-mask', 'C14', (ST, "        self.free_slot_bits |= slot_mask;", "        self.free_slot_bits |= slot_mask | (slot_mask >> 64);"))
bug('s-add-side', 'C14', (ST, """            Side::Ask => {
                self.is_bid_bits &= !slot_mask;
            }
        };""", """            Side::Ask => {}
        };"""))
bug('s-seq-shift', 'C09', (ST, "            Side::Bid => !seq_num,", "            Side::Bid => seq_num ^ (u64::MAX >> 1),"))
bug('s-sendtake-min-order', 'C06', (ST, "            Side::Bid if coin_credit < instruction.min_coin_qty => true,", "            Side::Bid if coin_credit + 1 < instruction.min_coin_qty => true,"))
bug('s-sendtake-limitorder', 'C06', (ST, "            order_type: OrderType::ImmediateOrCancel,", "            order_type: OrderType::Limit,"))
bug('s-sendtake-balance', 'C06', (ST, """            let balance_after = deposit_vault.balance()?;
            let balance_change = balance_after.checked_sub(balance_before);
            check_assert_eq!(Some(deposit_amount), balance_change)?;
        }

        let nonce""", """            let balance_after = deposit_vault.balance()?;
            check_assert!(balance_after >= balance_before)?;
        }

        let nonce"""))
bug('s-sendtake-nodeposit-total', 'C06', (ST, """                market_state.coin_deposits_total += deposit_amount;
""", """                market_state.coin_deposits_total += coin_debit;
"""))
bug('s-prune-side', 'C13', (ST, """                ask,
                Side::Ask,""", """                ask,
                Side::Bid,"""))
bug('s-close-lamports', 'C16', (ST, "        **open_orders_acc.lamports.borrow_mut() = 0;\n", "        **open_orders_acc.lamports.borrow_mut() = dest_starting_lamports.min(1);\n"))
bug('s-close-flag', 'C16', (ST, "        open_orders.account_flags = AccountFlag::Closed as u64;", "        open_orders.account_flags = 0;"))
bug('s-settle-total', 'C04', (ST, "            .checked_sub(native_coin_amount)\n            .unwrap();\n        open_orders.native_pc_total", "            .saturating_sub(native_coin_amount);\n        open_orders.native_pc_total"))
bug('s-settle-free-order', 'C04', (ST, """        open_orders.native_coin_free = 0;
        open_orders.native_pc_free = 0;

        open_orders.native_coin_total""", """        open_orders.native_coin_free = 0;
        if native_coin_amount == 0 {
            open_orders.native_pc_free = 0;
        }

        open_orders.native_coin_total"""))
bug('s-settle-referrer-zero', 'C04 C10', (ST, "        market.referrer_rebates_accrued -= open_orders.referrer_rebates_accrued;\n", ""))
bug('s-cancel-cid-any', 'C13', (ST, "            .find(|entry| client_order_id == entry.0)", "            .find(|entry| client_order_id <= entry.0)"))
bug('s-cancels-swallow', 'C13', (ST, """                        if code == DexErrorCode::OrderNotFound {
                            continue;""", """                        if code == DexErrorCode::OrderNotFound || code == DexErrorCode::EventQueueFull {
                            continue;"""))
bug('s-consume-noslotcheck', 'C12', (ST, """            check_assert_eq!(
                open_orders.orders[event.owner_slot as usize],
                event.order_id
            )?;
""", ""))
bug('s-consume-taker-move', 'C12', (ST, "                        Side::Ask if maker => {\n                            open_orders.native_coin_total -= native_qty_paid;", "                        Side::Ask if maker || native_fee_or_rebate == 0 => {\n                            open_orders.native_coin_total -= native_qty_paid;"))
bug('s-consume-rebate-maker', 'C12', (ST, "                    if !maker {\n", "                    if !maker || side == Side::Ask {\n"))
bug('s-consume-skip-missing', 'C12', (ST, "                Err(_) => break,\n", "                Err(_) => {\n                    event_q\n                        .pop_front()\n                        .map_err(|()| DexErrorCode::ConsumeEventsQueueFailure)?;\n                    continue;\n                }\n"))
bug('s-consume-fullyout', 'C12 C14', (ST, "                    let fully_out = native_qty_still_locked == 0;", "                    let fully_out = native_qty_still_locked == 0 || !release_funds;"))
bug('s-consume-double-release', 'C12', (ST, """                            if release_funds {
                                open_orders.native_pc_free += native_qty_unlocked;
                            }""", """                            open_orders.native_pc_free += native_qty_unlocked;"""))
bug('s-consume-pop-twice', 'C12', (ST, """                    if fully_out {
                        open_orders.remove_order(owner_slot)?;
                    }""", """                    if fully_out {
                        open_orders.remove_order(owner_slot)?;
                    } else if side == Side::Bid && native_qty_unlocked == 0 {
                        let _ = event_q.pop_front();
                    }"""))
bug('s-neworder-lock-free', 'C05', (ST, "                let free_qty_to_lock = lock_qty_native.min(open_orders_mut.native_coin_free);", "                let free_qty_to_lock = lock_qty_native.min(open_orders_mut.native_coin_total);"))
bug('s-neworder-vault', 'C05', (ST, """                deposit_amount = lock_qty_native.get() - free_qty_to_lock;
                deposit_vault = pc_vault.token_account();""", """                deposit_amount = lock_qty_native.get() - free_qty_to_lock;
                deposit_vault = if free_qty_to_lock > 0 { coin_vault.token_account() } else { pc_vault.token_account() };"""))
bug('s-neworder-balance', 'C05', (ST, """            let balance_after = deposit_vault.balance()?;
            let balance_change = balance_after.checked_sub(balance_before);
            check_assert_eq!(Some(deposit_amount), balance_change)?;
        }

        Ok(())
    }

    fn process_replace""", """            let balance_after = deposit_vault.balance()?;
            check_assert!(balance_after > balance_before)?;
        }

        Ok(())
    }

    fn process_replace"""))
bug('s-neworder-unlock-credit', 'C05', (ST, "            open_orders_mut.unlock_coin(native_coin_credit);\n            open_orders_mut.unlock_coin(native_coin_unlocked);", "            open_orders_mut.unlock_coin(native_coin_credit);\n            open_orders_mut.unlock_coin(native_coin_unlocked.max(native_coin_credit));"))
bug('s-neworder-ts', 'C25', (ST, "            if cur_ts > instruction.max_ts {", "            if cur_ts > instruction.max_ts && instruction.max_ts > 0 {"))
bug('s-neworder-unfilled', 'C07 C05', (ST, "        check_assert!(unfilled_portion.is_none())?;\n", ""))
bug('s-disable-xor', 'C15', (ST, "market.account_flags = market.account_flags | (AccountFlag::Disabled as u64);", "market.account_flags = market.account_flags ^ (AccountFlag::Disabled as u64);"))
bug('s-sweep-keep', 'C10', (ST, "        market.pc_fees_accrued = 0;\n", "        market.pc_fees_accrued = token_amount % 10;\n"))
bug('s-seqnum', 'C09', (ST, "        self.header.next_seq_num += 1;", "        self.header.next_seq_num += (self.header.next_seq_num < u64::MAX) as u64 & 1;"))

# ------------------------------------------------------------------ state.rs: refactorings
ok('r-s-consume-linear', (ST, """            let owner_index: Result<usize, usize> = open_orders_accounts
                .binary_search_by_key(&owner, |account_info| account_info.key.to_aligned_bytes());
            let mut open_orders: RefMut<OpenOrders> = match owner_index {
                Err(_) => break,
                Ok(i) => market""", """            let owner_index = open_orders_accounts
                .iter()
                .position(|account_info| account_info.key.to_aligned_bytes() == owner);
            let mut open_orders: RefMut<OpenOrders> = match owner_index {
                None => break,
                Some(i) => market"""))
ok('r-s-consume-search-by', (ST, """            let owner_index: Result<usize, usize> = open_orders_accounts
                .binary_search_by_key(&owner, |account_info| account_info.key.to_aligned_bytes());
""", """            let owner_index: Result<usize, usize> = open_orders_accounts
                .binary_search_by(|account_info| account_info.key.to_aligned_bytes().cmp(&owner));
"""))
ok('r-s-consume-while', (ST, """        for _i in 0u16..limit {
            let event = match event_q.peek_front() {
                None => break,
                Some(e) => e,
            };
""", """        let mut remaining = limit;
        while remaining > 0 {
            remaining -= 1;
            let event = match event_q.peek_front() {
                Some(e) => e,
                None => break,
            };
"""))
ok('r-s-consume-helper', (ST, """                    match side {
                        Side::Bid if maker => {
                            open_orders.native_pc_total -= native_qty_paid;
                            open_orders.native_coin_total += native_qty_received;
                            open_orders.native_coin_free += native_qty_received;
                            open_orders.native_pc_free += native_fee_or_rebate;
                        }
                        Side::Ask if maker => {
                            open_orders.native_coin_total -= native_qty_paid;
                            open_orders.native_pc_total += native_qty_received;
                            open_orders.native_pc_free += native_qty_received;
                        }
                        _ => (),
                    };
                    if !maker {
                        let referrer_rebate = fees::referrer_rebate(native_fee_or_rebate);
                        open_orders.referrer_rebates_accrued += referrer_rebate;
                    }
""", """                    if maker {
                        open_orders.apply_maker_fill(
                            side,
                            native_qty_paid,
                            native_qty_received,
                            native_fee_or_rebate,
                        );
                    } else {
                        open_orders.referrer_rebates_accrued +=
                            fees::referrer_rebate(native_fee_or_rebate);
                    }
"""), (ST, "    fn credit_locked_coin(&mut self, native_coin_amount: u64) {", """    fn apply_maker_fill(&mut self, side: Side, paid: u64, received: u64, rebate: u64) {
        match side {
            Side::Bid => {
                self.native_coin_free += received;
                self.native_coin_total += received;
                self.native_pc_free += rebate;
                self.native_pc_total -= paid;
            }
            Side::Ask => {
                self.native_pc_free += received;
                self.native_pc_total += received;
                self.native_coin_total -= paid;
            }
        }
    }

    fn credit_locked_coin(&mut self, native_coin_amount: u64) {"""))
ok('r-s-settle-order', (ST, """        for &(token_amount, wallet_account, vault) in token_infos.iter() {
            send_from_vault(
                token_amount,
                wallet_account,
                vault,
                spl_token_program,
                vault_signer,
                &vault_signer_seeds,
            )?;
        }
""", """        for i in 0..token_infos.len() {
            let (token_amount, wallet_account, vault) = token_infos[i];
            send_from_vault(
                token_amount,
                wallet_account,
                vault,
                spl_token_program,
                vault_signer,
                &vault_signer_seeds,
            )?;
        }
"""))
ok('r-s-settle-unroll', (ST, """        for &(token_amount, wallet_account, vault) in token_infos.iter() {
            send_from_vault(
                token_amount,
                wallet_account,
                vault,
                spl_token_program,
                vault_signer,
                &vault_signer_seeds,
            )?;
        }
""", """        let pay = |info: &(u64, account_parser::TokenAccount, account_parser::TokenAccount)| {
            send_from_vault(
                info.0,
                info.1,
                info.2,
                spl_token_program,
                vault_signer,
                &vault_signer_seeds,
            )
        };
        pay(&token_infos[0])?;
        pay(&token_infos[1])?;
"""))
ok('r-s-settle-referrer-if', (ST, """        match referrer {
            Some(referrer_pc_wallet) if open_orders.referrer_rebates_accrued > 0 => {
                send_from_vault(
                    open_orders.referrer_rebates_accrued,
                    referrer_pc_wallet.token_account(),
                    pc_vault.token_account(),
                    spl_token_program,
                    vault_signer,
                    &vault_signer_seeds,
                )?;
            }
            _ => {
                market.pc_fees_accrued += open_orders.referrer_rebates_accrued;
            }
        };
        market.referrer_rebates_accrued -= open_orders.referrer_rebates_accrued;
        open_orders.referrer_rebates_accrued = 0;
""", """        let rebate = std::mem::replace(&mut open_orders.referrer_rebates_accrued, 0);
        market.referrer_rebates_accrued -= rebate;
        if let (Some(referrer_pc_wallet), true) = (referrer, rebate > 0) {
            send_from_vault(
                rebate,
                referrer_pc_wallet.token_account(),
                pc_vault.token_account(),
                spl_token_program,
                vault_signer,
                &vault_signer_seeds,
            )?;
        } else {
            market.pc_fees_accrued += rebate;
        }
"""))
ok('r-s-slotmask-helper', (ST, "        let slot_mask = 1u128 << slot;\n", "        let slot_mask = slot_bit(slot as u32);\n"), (ST, "impl OpenOrders {\n", "fn slot_bit(slot: u32) -> u128 {\n    1u128 << slot\n}\n\nimpl OpenOrders {\n"), count=None)
ok('r-s-slotside-nested', (ST, """        if self.free_slot_bits & slot_mask != 0 {
            None
        } else if self.is_bid_bits & slot_mask != 0 {
            Some(Side::Bid)
        } else {
            Some(Side::Ask)
        }""", """        if self.slot_is_free(slot) {
            return None;
        }
        let is_bid = (self.is_bid_bits >> slot) & 1 == 1;
        Some(if is_bid { Side::Bid } else { Side::Ask })"""))
ok('r-s-neworder-checked', (ST, """                let free_qty_to_lock = lock_qty_native.min(open_orders_mut.native_coin_free);
                deposit_amount = lock_qty_native - free_qty_to_lock;
""", """                deposit_amount = lock_qty_native.saturating_sub(open_orders_mut.native_coin_free);
                let free_qty_to_lock = lock_qty_native - deposit_amount;
"""))
ok('r-s-neworder-if', (ST, """                let free_qty_to_lock = lock_qty_native.min(open_orders_mut.native_coin_free);
""", """                let free_qty_to_lock = if open_orders_mut.native_coin_free < lock_qty_native {
                    open_orders_mut.native_coin_free
                } else {
                    lock_qty_native
                };
"""))
ok('r-s-deposit-helper', (ST, """        if deposit_amount != 0 {
            let balance_before = deposit_vault.balance()?;
            let deposit_instruction = spl_token::instruction::transfer(
                &spl_token::ID,
                payer.inner().key,
                deposit_vault.inner().key,
                owner.inner().key,
                &[],
                deposit_amount,
            )
            .unwrap();
            invoke_spl_token(
                &deposit_instruction,
                &[
                    payer.inner().clone(),
                    deposit_vault.inner().clone(),
                    owner.inner().clone(),
                    spl_token_program.inner().clone(),
                ],
                &[],
            )
            .map_err(|err| match err {
                ProgramError::Custom(i) => match TokenError::from_u32(i) {
                    Some(TokenError::InsufficientFunds) => DexErrorCode::InsufficientFunds,
                    _ => DexErrorCode::TransferFailed,
                },
                _ => DexErrorCode::TransferFailed,
            })?;
            let balance_after = deposit_vault.balance()?;
            let balance_change = balance_after.checked_sub(balance_before);
            check_assert_eq!(Some(deposit_amount), balance_change)?;
        }

        Ok(())
    }

    fn process_replace""", """        Self::deposit(deposit_amount, payer, deposit_vault, owner, spl_token_program)
    }

    #[cfg(feature = "program")]
    fn deposit(
        deposit_amount: u64,
        payer: account_parser::TokenAccount,
        deposit_vault: account_parser::TokenAccount,
        owner: account_parser::SignerAccount,
        spl_token_program: account_parser::SplTokenProgram,
    ) -> DexResult {
        if deposit_amount == 0 {
            return Ok(());
        }
        let balance_before = deposit_vault.balance()?;
        let accounts = [
            payer.inner().clone(),
            deposit_vault.inner().clone(),
            owner.inner().clone(),
            spl_token_program.inner().clone(),
        ];
        let deposit_instruction = spl_token::instruction::transfer(
            &spl_token::ID,
            accounts[0].key,
            accounts[1].key,
            accounts[2].key,
            &[],
            deposit_amount,
        )
        .unwrap();
        if let Err(err) = invoke_spl_token(&deposit_instruction, &accounts, &[]) {
            let code = match err {
                ProgramError::Custom(i) => match TokenError::from_u32(i) {
                    Some(TokenError::InsufficientFunds) => DexErrorCode::InsufficientFunds,
                    _ => DexErrorCode::TransferFailed,
                },
                _ => DexErrorCode::TransferFailed,
            };
            return Err(code.into());
        }
        let balance_after = deposit_vault.balance()?;
        if balance_after < balance_before || balance_after - balance_before != deposit_amount {
            check_assert!(false)?;
        }
        Ok(())
    }

    fn process_replace"""))
ok('r-s-cancel-iterloop', (ST, """        let (_, order_id, side) = open_orders
            .orders_with_client_ids()
            .find(|entry| client_order_id == entry.0)
            .ok_or(DexErrorCode::ClientIdNotFound)?;
""", """        let mut found = None;
        for (id, order_id, side) in open_orders.orders_with_client_ids() {
            if id == client_order_id {
                found = Some((order_id, side));
                break;
            }
        }
        let (order_id, side) = match found {
            Some(x) => x,
            None => return Err(DexErrorCode::ClientIdNotFound.into()),
        };
"""))
ok('r-s-cancels-filter', (ST, """        let mut orders = Vec::new();
        for (client_order_id, order_id, side) in open_orders.orders_with_client_ids() {
            if client_order_ids.contains(&client_order_id) {
                orders.push((order_id, side));
            }
        }
""", """        let orders: Vec<(u128, Side)> = open_orders
            .orders_with_client_ids()
            .filter(|entry| client_order_ids.contains(&entry.0))
            .map(|(_, order_id, side)| (order_id, side))
            .collect();
"""))
ok('r-s-cancels-any', (ST, "            if client_order_ids.contains(&client_order_id) {", "            if client_order_ids.iter().any(|id| *id == client_order_id) {"))
ok('r-s-cancels-result', (ST, """                match err {
                    DexError::ErrorCode(code) => {
                        if code == DexErrorCode::OrderNotFound {
                            continue;
                        }
                        return Err(err);
                    }
                    _ => return Err(err)
                }
""", """                if let DexError::ErrorCode(DexErrorCode::OrderNotFound) = err {
                    continue;
                }
                return Err(err);
"""))
ok('r-s-prune-chain', (ST, """        for bid in bids_removed {
            let order_id = open_orders.orders[bid.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                bid,
                Side::Bid,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }

        for ask in asks_removed {
            let order_id = open_orders.orders[ask.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                ask,
                Side::Ask,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }
""", """        let mut cancel = |leaf: crate::critbit::LeafNode, side: Side| -> DexResult {
            let order_id = open_orders.orders[leaf.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                leaf,
                side,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )
        };
        for leaf in bids_removed {
            cancel(leaf, Side::Bid)?;
        }
        for leaf in asks_removed {
            cancel(leaf, Side::Ask)?;
        }
"""))
ok('r-s-sendtake-early', (ST, """        let abort = match instruction.side {
            Side::Bid if coin_credit < instruction.min_coin_qty => true,
            Side::Ask if native_pc_credit < instruction.min_native_pc_qty => true,
            _ => false,
        };

        if abort {""", """        let (got, wanted) = match instruction.side {
            Side::Bid => (coin_credit, instruction.min_coin_qty),
            Side::Ask => (native_pc_credit, instruction.min_native_pc_qty),
        };
        let enough = got >= wanted;

        if !enough {"""))
ok('r-s-sendtake-tuple', (ST, """        // Amount that user deposits into the program
        let deposit_amount;
        // Amount that user receives after the exchange 
        let withdraw_amount;

        // Token accounts for transfers
        let deposit_vault;
        let withdraw_vault;
        let deposit_source;
        let withdraw_destination;

        match instruction.side {
            Side::Bid => {
                deposit_amount = native_pc_debit;
                withdraw_amount = coin_credit.checked_mul(coin_lot_size).unwrap();
                deposit_vault = pc_vault.token_account();
                deposit_source = pc_wallet.token_account();
                withdraw_destination = coin_wallet.token_account();
                withdraw_vault = coin_vault.token_account();
""", """        let (deposit_amount, withdraw_amount, deposit_vault, withdraw_vault, deposit_source, withdraw_destination);

        match instruction.side {
            Side::Bid => {
                withdraw_vault = coin_vault.token_account();
                deposit_vault = pc_vault.token_account();
                withdraw_destination = coin_wallet.token_account();
                deposit_source = pc_wallet.token_account();
                withdraw_amount = coin_lot_size.checked_mul(coin_credit).unwrap();
                deposit_amount = native_pc_debit;
"""))
ok('r-s-loadorders-early', (ST, """        if let Some(owner) = owner_account {
            check_assert_eq!(&identity(open_orders.owner), &owner.key.to_aligned_bytes())
                .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        }

        Ok(open_orders)""", """        match owner_account {
            None => Ok(open_orders),
            Some(owner) if owner.key.to_aligned_bytes() == identity(open_orders.owner) => Ok(open_orders),
            Some(_) => Err(DexErrorCode::WrongOrdersAccount.into()),
        }"""))
ok('r-s-close-mem', (ST, """        let dest_starting_lamports = dest_acc.lamports();
        **dest_acc.lamports.borrow_mut() = dest_starting_lamports
            .checked_add(open_orders_acc.lamports())
            .unwrap();
        **open_orders_acc.lamports.borrow_mut() = 0;
""", """        let amount = open_orders_acc.lamports();
        let total = dest_acc.lamports().checked_add(amount).unwrap();
        **open_orders_acc.lamports.borrow_mut() -= amount;
        **dest_acc.lamports.borrow_mut() = total;
"""))
ok('r-s-disable-or', (ST, "market.account_flags = market.account_flags | (AccountFlag::Disabled as u64);", "market.account_flags |= AccountFlag::Disabled as u64;"))
ok('r-s-sweep-take', (ST, """        let token_amount = market.pc_fees_accrued;
        market.pc_fees_accrued = 0;
""", """        let token_amount = std::mem::take(&mut market.pc_fees_accrued);
"""))
ok('r-s-genid', (ST, "        self.header.next_seq_num += 1;", "        self.header.next_seq_num = seq_num + 1;"))

# ---------------------------------------------------------------- instruction codec
IN = 'dex/src/instruction.rs'
bug('x-sendtake-swap', 'C18', (IN, "    pub min_coin_qty: u64,\n    pub min_native_pc_qty: u64,\n", "    pub min_native_pc_qty: u64,\n    pub min_coin_qty: u64,\n"),
    (IN, "            &min_coin_qty_arr,\n            &min_native_pc_qty_arr,\n", "            &min_native_pc_qty_arr,\n            &min_coin_qty_arr,\n"))
bug('x-v3-default-ts', 'C18', (IN, "[data, &i64::MAX.to_le_bytes()].concat()", "[data, &0i64.to_le_bytes()].concat()"))
bug('x-ids-len', 'C18', (IN, "len % 8 == 0 && len <= 8 * 8", "len % 8 == 0 && len <= 9 * 8"))
bug('x-ids-len-short', 'C18', (IN, "len % 8 == 0 && len <= 8 * 8", "len % 8 == 0 && len < 8 * 8"))
bug('x-ids-any', 'C18', (IN, "(18, len) if len % 8 == 0 && len <= 8 * 8", "(18, len) if len <= 8 * 8"))
bug('x-replace-count', 'C18', (IN, """                    != (data.len() as u64 - 8) / 54
""", """                    > (data.len() as u64 - 8) / 54
"""))
bug('x-version', 'C18', (IN, """        if version != 0 {
            return None;
        }
""", """        if version > 1 {
            return None;
        }
"""))
bug('x-oid-trunc', 'C18', (IN, "        let order_id = u128::from_le_bytes(oid_arr);\n        Some(CancelOrderInstructionV2", "        let order_id = u128::from_le_bytes(oid_arr) & (u128::MAX >> 1);\n        Some(CancelOrderInstructionV2"))
bug('x-prune-tag', 'C18', (IN, "            (16, 2) => {", "            (17, 2) => {"), (IN, """            (17, 2) => {
                let limit = array_ref![data, 0, 2];
                MarketInstruction::ConsumeEventsPermissioned""", """            (16, 2) => {
                let limit = array_ref![data, 0, 2];
                MarketInstruction::ConsumeEventsPermissioned"""), count=None)
bug('x-limit-zero', 'C18', (IN, """        let limit = u16::from_le_bytes(limit_arr);

        Some(SendTakeInstruction {""", """        let limit = u16::from_le_bytes(limit_arr);
        if limit == 0 {
            return None;
        }

        Some(SendTakeInstruction {"""))
bug('x-maxlen', 'C18', (IN, "versioned_bytes.len() > 5 + 8 + 54 * 8", "versioned_bytes.len() > 5 + 8 + 54 * 7"))
bug('x-stb-codes', 'C18', (IN, "    DecrementTake = 0,\n    CancelProvide = 1,\n", "    CancelProvide = 0,\n    DecrementTake = 1,\n"))
bug('x-side-trunc', 'C18', (IN, """        let (&side_arr, &oid_arr) = array_refs![data, 4, 16];
        let side = Side::try_from_primitive(u32::from_le_bytes(side_arr).try_into().ok()?).ok()?;
        let order_id = u128::from_le_bytes(oid_arr);
        Some(CancelOrderInstructionV2""", """        let (&side_arr, &oid_arr) = array_refs![data, 4, 16];
        let side = Side::try_from_primitive(side_arr[0]).ok()?;
        let order_id = u128::from_le_bytes(oid_arr);
        Some(CancelOrderInstructionV2"""))
ok('r-x-helper', (IN, """impl SendTakeInstruction {
    fn unpack(""", """fn side_of(b: [u8; 4]) -> Option<Side> {
    match u32::from_le_bytes(b) {
        0 => Some(Side::Bid),
        1 => Some(Side::Ask),
        _ => None,
    }
}

impl SendTakeInstruction {
    fn unpack("""), (IN, "        let side = Side::try_from_primitive(u32::from_le_bytes(side_arr).try_into().ok()?).ok()?;\n", "        let side = side_of(side_arr)?;\n"), count=None)
ok('r-x-loop', (IN, """                let new_orders = data[8..]
                    .chunks_exact(54)
                    .map(|chunk| {
                        let chunk_arr = array_ref![chunk, 0, 54];
                        NewOrderInstructionV3::unpack(chunk_arr)
                    })
                    .collect::<Option<Vec<_>>>()?;
""", """                let mut new_orders = Vec::with_capacity(8);
                for chunk in data[8..].chunks_exact(54) {
                    new_orders.push(NewOrderInstructionV3::unpack(array_ref![chunk, 0, 54])?);
                }
"""))
ok('r-x-limit', (IN, """            (2, 2) => {
                let limit = array_ref![data, 0, 2];
                MarketInstruction::MatchOrders(u16::from_le_bytes(*limit))
            }
""", """            (2, 2) => MarketInstruction::MatchOrders(u16::from_le_bytes([data[0], data[1]])),
"""), (IN, """            (12, 8) => {
                let client_id = array_ref![data, 0, 8];
                MarketInstruction::CancelOrderByClientIdV2(u64::from_le_bytes(*client_id))
            }
""", """            (12, 8) => {
                let mut b = [0u8; 8];
                b.copy_from_slice(data);
                MarketInstruction::CancelOrderByClientIdV2(u64::from_le_bytes(b))
            }
"""))
ok('r-x-v3', (IN, """                let extended_data = match len {
                    46 => Some([data, &i64::MAX.to_le_bytes()].concat()),
                    54 => Some(data.to_vec()),
                    _ => None,
                }?;
                let data_arr = array_ref![extended_data, 0, 54];
                NewOrderInstructionV3::unpack(data_arr)?
""", """                let mut data_arr = [0u8; 54];
                data_arr[..len].copy_from_slice(data);
                if len == 46 {
                    data_arr[46..].copy_from_slice(&i64::MAX.to_le_bytes());
                }
                NewOrderInstructionV3::unpack(&data_arr)?
"""))
ok('r-x-ids', (IN, """                for (chunk, client_id) in data.chunks_exact(8).zip(client_ids.iter_mut()) {
                    *client_id = u64::from_le_bytes(chunk.try_into().unwrap());
                }
""", """                for (i, chunk) in data.chunks_exact(8).enumerate() {
                    client_ids[i] = u64::from_le_bytes(chunk.try_into().unwrap());
                }
"""))

# ---------------------------------------------------------------- builders
bug('y-settle-order', 'C19', (IN, """        AccountMeta::new(*coin_wallet, false),
        AccountMeta::new(*pc_wallet, false),
        AccountMeta::new_readonly(*vault_signer, false),
        AccountMeta::new_readonly(*spl_token_program_id, false),
    ];
    if let Some(key) = referrer_pc_wallet {""", """        AccountMeta::new(*pc_wallet, false),
        AccountMeta::new(*coin_wallet, false),
        AccountMeta::new_readonly(*vault_signer, false),
        AccountMeta::new_readonly(*spl_token_program_id, false),
    ];
    if let Some(key) = referrer_pc_wallet {"""))
bug('y-settle-referrer-ro', 'C19', (IN, """    if let Some(key) = referrer_pc_wallet {
        accounts.push(AccountMeta::new(*key, false))""", """    if let Some(key) = referrer_pc_wallet {
        accounts.push(AccountMeta::new_readonly(*key, false))"""))
bug('y-init-oo-auth', 'C19', (IN, "accounts.push(AccountMeta::new_readonly(*market_authority, true));", "accounts.push(AccountMeta::new_readonly(*market_authority, false));"))
bug('y-init-market-prune', 'C19', (IN, """        if let Some(prune_auth) = prune_authority_pk {
            let authority = AccountMeta::new_readonly(*prune_auth, false);
            accounts.push(authority);
            if let Some""", """        if let Some(prune_auth) = prune_authority_pk {
            let authority = AccountMeta::new_readonly(*prune_auth, false);
            accounts.insert(10, authority);
            if let Some"""))
bug('y-sendtake-mins', 'C19', (IN, """        max_native_pc_qty_including_fees,
        min_coin_qty,
        min_native_pc_qty,
        limit,
    })
    .pack();""", """        max_native_pc_qty_including_fees,
        min_coin_qty: min_native_pc_qty,
        min_native_pc_qty: min_coin_qty,
        limit,
    })
    .pack();"""))
bug('y-consume-order', 'C19', (IN, """        AccountMeta::new(*market, false),
        AccountMeta::new(*event_queue, false),
        AccountMeta::new_readonly(*consume_events_authority, true),""", """        AccountMeta::new(*event_queue, false),
        AccountMeta::new(*market, false),
        AccountMeta::new_readonly(*consume_events_authority, true),"""))
ok('r-y-extend', (IN, """    accounts.append(&mut vec![
        AccountMeta::new(*market, false),
        AccountMeta::new(*event_queue, false),
        AccountMeta::new_readonly(*consume_events_authority, true),
    ]);
""", """    accounts.extend(vec![
        AccountMeta::new(*market, false),
        AccountMeta::new(*event_queue, false),
        AccountMeta::new_readonly(*consume_events_authority, true),
    ]);
"""), (IN, """    let mut accounts: Vec<AccountMeta> = open_orders_accounts
        .iter()
        .map(|key| AccountMeta::new(**key, false))
        .collect();
    accounts.append(&mut vec![
        AccountMeta::new(*market, false),
        AccountMeta::new(*event_queue, false),
        AccountMeta::new(*coin_fee""", """    let mut accounts: Vec<AccountMeta> = Vec::with_capacity(open_orders_accounts.len() + 4);
    for key in open_orders_accounts {
        accounts.push(AccountMeta::new(*key, false));
    }
    accounts.append(&mut vec![
        AccountMeta::new(*market, false),
        AccountMeta::new(*event_queue, false),
        AccountMeta::new(*coin_fee"""))
ok('r-y-helper', (IN, """pub fn disable_market(""", """fn cancel_accounts(
    market: &Pubkey,
    market_bids: &Pubkey,
    market_asks: &Pubkey,
    open_orders_account: &Pubkey,
    open_orders_account_owner: &Pubkey,
    event_queue: &Pubkey,
) -> Vec<AccountMeta> {
    vec![
        AccountMeta::new(*market, false),
        AccountMeta::new(*market_bids, false),
        AccountMeta::new(*market_asks, false),
        AccountMeta::new(*open_orders_account, false),
        AccountMeta::new_readonly(*open_orders_account_owner, true),
        AccountMeta::new(*event_queue, false),
    ]
}

pub fn disable_market("""), (IN, """    let accounts: Vec<AccountMeta> = vec![
        AccountMeta::new(*market, false),
        AccountMeta::new(*market_bids, false),
        AccountMeta::new(*market_asks, false),
        AccountMeta::new(*open_orders_account, false),
        AccountMeta::new_readonly(*open_orders_account_owner, true),
        AccountMeta::new(*event_queue, false),
    ];
""", """    let accounts = cancel_accounts(
        market,
        market_bids,
        market_asks,
        open_orders_account,
        open_orders_account_owner,
        event_queue,
    );
"""), (IN, """    if let Some(market_authority) = market_authority {
        accounts.push(AccountMeta::new_readonly(*market_authority, true));
    }
""", """    accounts.extend(market_authority.map(|k| AccountMeta::new_readonly(*k, true)));
"""), count=None)

# ------------------------------------------------------------------ request terms
bug('q-stb-const', 'C08 C20', (ST, "            self_trade_behavior: instruction.self_trade_behavior,\n            owner: open_orders_address,", "            self_trade_behavior: if instruction.limit == 0 { SelfTradeBehavior::DecrementTake } else { instruction.self_trade_behavior },\n            owner: open_orders_address,"))
bug('q-client-drop', 'C20', (ST, "            client_order_id: NonZeroU64::new(instruction.client_order_id),\n        };\n        let mut limit", "            client_order_id: NonZeroU64::new(instruction.client_order_id as u32 as u64),\n        };\n        let mut limit"))
bug('q-postonly-limit', 'C08 C20', (ST, "            order_type: instruction.order_type,\n            order_id,\n            fee_tier,", "            order_type: match instruction.order_type { OrderType::PostOnly if instruction.limit == 1 => OrderType::Limit, t => t },\n            order_id,\n            fee_tier,"))
ok('r-q-match', (ST, "            order_type: instruction.order_type,\n            order_id,\n            fee_tier,", "            order_type: match instruction.order_type { OrderType::PostOnly => OrderType::PostOnly, OrderType::Limit => OrderType::Limit, t => t },\n            order_id,\n            fee_tier,"))

# ------------------------------------------------------------------ ring queue
bug('z-push-slot', 'C21', (ST, "let slot = ((self.header.head() + self.header.count()) as usize) % self.buf.len();", "let slot = ((self.header.head() + self.header.count()) as usize) % (self.buf.len() - 1);"))
bug('z-push-clamp', 'C21', (ST, "let slot = ((self.header.head() + self.header.count()) as usize) % self.buf.len();", "let slot = ((self.header.head() + self.header.count()) as usize).min(self.buf.len() - 1);"))
bug('z-full-off', 'C21', (ST, "        self.header.count() as usize == self.buf.len()", "        self.header.count() as usize + 1 >= self.buf.len()"))
bug('z-full-never', 'C21', (ST, "        self.header.count() as usize == self.buf.len()", "        self.header.count() as usize > self.buf.len()"))
ok('r-z-pop-head', (ST, "        self.header.set_head((head + 1) % self.buf.len() as u64);", "        self.header.set_head(if count == 1 { 0 } else { (head + 1) % self.buf.len() as u64 });"))
bug('z-pop-wrap', 'C21', (ST, "        self.header.set_head((head + 1) % self.buf.len() as u64);", "        let next = head + 1;\n        self.header.set_head(if next > self.buf.len() as u64 { 0 } else { next });"))
bug('z-revert-seq', 'C21', (ST, "        self.header.decr_event_id(len_diff);", "        self.header.decr_event_id(desired_len);"))
bug('z-iter', 'C21', (ST, "                [(self.queue.header.head() + self.index) as usize % self.queue.buf.len()];", "                [(self.queue.header.head() + self.index) as usize & (self.queue.buf.len() - 1)];"))
ok('r-z-sethead', (ST, """    fn set_count(&mut self, value: u64) {
        self.count = value;
    }
    fn incr_event_id(&mut self) {
        self.seq_num += 1;""", """    fn set_count(&mut self, value: u64) {
        self.count = value;
        if value == 0 {
            self.head = 0;
        }
    }
    fn incr_event_id(&mut self) {
        self.seq_num += 1;"""))
ok('r-z-push-if', (ST, "let slot = ((self.header.head() + self.header.count()) as usize) % self.buf.len();", "let cap = self.buf.len() as u64;\n        let end = self.header.head() + self.header.count();\n        let slot = if end >= cap { end - cap } else { end } as usize;"))
ok('r-z-pop-if', (ST, "        self.header.set_head((head + 1) % self.buf.len() as u64);", "        let next = head + 1;\n        self.header.set_head(if next == self.buf.len() as u64 { 0 } else { next });"))
ok('r-z-full-ge', (ST, "        self.header.count() as usize == self.buf.len()", "        self.header.count() as usize >= self.buf.len()"))
ok('r-z-helper', (ST, """    #[inline]
    pub fn push_back(&mut self, value: H::Item)""", """    #[inline]
    fn physical(&self, offset: u64) -> usize {
        ((self.header.head() + offset) % self.buf.len() as u64) as usize
    }

    #[inline]
    pub fn push_back(&mut self, value: H::Item)"""), (ST, "let slot = ((self.header.head() + self.header.count()) as usize) % self.buf.len();", "let slot = self.physical(self.len());"), (ST, "        let value = self.buf[self.header.head() as usize];", "        let value = self.buf[self.physical(0)];"), (ST, """        if self.empty() {
            return None;
        }
        Some(&self.buf[self.header.head() as usize])""", """        match self.len() {
            0 => None,
            _ => self.buf.get(self.physical(0)),
        }"""))

# ------------------------------------------------------------------ order tree
bug('t-free-last', 'C22', (CB, "tag: if header.free_list_len == 0 {", "tag: if header.free_list_len <= 1 {"))
bug('t-free-next', 'C22', (CB, "            next: header.free_list_head,\n            _padding", "            next: header.free_list_head.min(key),\n            _padding"))
bug('t-insert-bump', 'C22', (CB, "            let key = header.bump_index as u32;\n            header.bump_index += 1;", "            let key = header.bump_index as u32;\n            header.bump_index = header.bump_index.max(header.leaf_count) + 1;"))
bug('t-insert-full', 'C22', (CB, "            if header.bump_index as usize == nodes.len() {", "            if header.bump_index as usize + 1 == nodes.len() {"))
bug('t-remove-len', 'C22', (CB, "        header.free_list_len += 1;\n        header.free_list_head = key;", "        header.free_list_head = key;\n        if key as u64 + 1 == header.bump_index {\n            header.bump_index -= 1;\n            return Some(val);\n        }\n        header.free_list_len += 1;"))
bug('t-leak-newleaf', 'C22', (CB, "                    self.remove(new_leaf_handle).unwrap();\n", ""))
bug('t-split-prefix', 'C22', (CB, "let keep_old_root = shared_prefix_len >= inner.prefix_len;", "let keep_old_root = shared_prefix_len + 1 >= inner.prefix_len;"))
bug('t-walk', 'C22', (CB, "        let crit_bit_mask = (1u128 << 127) >> self.prefix_len;", "        let crit_bit_mask = (1u128 << 127) >> (self.prefix_len & 63);"))
bug('t-other-child', 'C22', (CB, "children().unwrap()[!crit_bit as usize];", "children().unwrap()[(search_key & 1 == 0) as usize];"))
bug('t-parent-stale', 'C22', (CB, "                    parent_h = child_h;\n                    child_h = grandchild_h;", "                    if grandchild_crit_bit {\n                        parent_h = child_h;\n                    }\n                    child_h = grandchild_h;"))
bug('t-replace-count', 'C22', (CB, "                    *self.get_mut(root).unwrap() = *new_leaf.as_ref();\n", "                    *self.get_mut(root).unwrap() = *new_leaf.as_ref();\n                    self.header_mut().leaf_count += 1;\n"))
bug('t-leafcount', 'C22', (CB, "        self.header_mut().leaf_count -= 1;\n        Some(cast", "        if !crit_bit {\n            self.header_mut().leaf_count -= 1;\n        }\n        Some(cast"))
bug('t-replace-samepx', 'C22', (CB, "            if root_key == new_leaf.key {", "            if root_key >> 64 == new_leaf.key >> 64 && root_key as u32 == new_leaf.key as u32 {"))
bug('t-forkkey', 'C22', (CB, "                key: new_leaf.key,\n                children", "                key: new_leaf.key >> 64 << 64,\n                children"))
bug('t-minmax', 'C22 C09', (CB, "root = children[if find_max { 1 } else { 0 }];", "root = children[if find_max && self.header().leaf_count != 3 { 1 } else { 0 }];"))
bug('t-remove-max', 'C22 C09', (CB, "        self.remove_by_key(self.get(self.find_max()?)?.key()?)", "        self.remove_by_key(self.get(self.find_min()?)?.key()?)"))
ok('r-t-walk', (CB, """        let crit_bit_mask = (1u128 << 127) >> self.prefix_len;
        let crit_bit = (search_key & crit_bit_mask) != 0;
        (self.children[crit_bit as usize], crit_bit)""", """        let crit_bit = (search_key >> (127 - self.prefix_len)) & 1 != 0;
        if crit_bit {
            (self.children[1], true)
        } else {
            (self.children[0], false)
        }"""))
ok('r-t-find', (CB, """        let mut root: NodeHandle = self.root()?;
        loop {
            let root_contents = self.get(root).unwrap();
            match root_contents.case().unwrap() {
                NodeRef::Inner(&InnerNode { children, .. }) => {
                    root = children[if find_max { 1 } else { 0 }];
                    continue;
                }
                _ => return Some(root),
            }
        }""", """        let side = find_max as usize;
        let mut handle: NodeHandle = self.root()?;
        while let Some(children) = self.get(handle).unwrap().children() {
            handle = children[side];
        }
        Some(handle)"""))
ok('r-t-fork', (CB, """                children: [0; 2],
                _padding: Zeroable::zeroed(),
            };

            new_root.children[new_leaf_crit_bit as usize] = new_leaf_handle;
            new_root.children[old_root_crit_bit as usize] = moved_root_handle;""", """                children: if new_leaf_crit_bit {
                    [moved_root_handle, new_leaf_handle]
                } else {
                    [new_leaf_handle, moved_root_handle]
                },
                _padding: Zeroable::zeroed(),
            };
            let _ = old_root_crit_bit;"""))
ok('r-t-remove', (CB, """        let mut parent_h = self.root()?;
        let mut child_h;
        let mut crit_bit;
        match self.get(parent_h).unwrap().case().unwrap() {
            NodeRef::Leaf(&leaf) if leaf.key == search_key => {
                let header = self.header_mut();
                assert_eq!(identity(header.leaf_count), 1);
                header.root_node = 0;
                header.leaf_count = 0;
                let _old_root = self.remove(parent_h).unwrap();
                return Some(leaf);
            }
            NodeRef::Leaf(_) => return None,
            NodeRef::Inner(inner) => {
                let (ch, cb) = inner.walk_down(search_key);
                child_h = ch;
                crit_bit = cb;
            }
        }
        loop {
            match self.get(child_h).unwrap().case().unwrap() {
                NodeRef::Inner(inner) => {
                    let (grandchild_h, grandchild_crit_bit) = inner.walk_down(search_key);
                    parent_h = child_h;
                    child_h = grandchild_h;
                    crit_bit = grandchild_crit_bit;
                    continue;
                }
                NodeRef::Leaf(&leaf) => {
                    if leaf.key != search_key {
                        return None;
                    }

                    break;
                }
            }
        }
""", """        let mut child_h = self.root()?;
        let mut above: Option<(NodeHandle, bool)> = None;
        let leaf = loop {
            match self.get(child_h).unwrap().case().unwrap() {
                NodeRef::Inner(inner) => {
                    let (next_h, bit) = inner.walk_down(search_key);
                    above = Some((child_h, bit));
                    child_h = next_h;
                }
                NodeRef::Leaf(&leaf) => break leaf,
            }
        };
        if leaf.key != search_key {
            return None;
        }
        let (parent_h, crit_bit) = match above {
            Some(p) => p,
            None => {
                let header = self.header_mut();
                assert_eq!(identity(header.leaf_count), 1);
                header.root_node = 0;
                header.leaf_count = 0;
                let _old_root = self.remove(child_h).unwrap();
                return Some(leaf);
            }
        };
"""))
ok('r-t-split-helper', (CB, """            let crit_bit_mask: u128 = (1u128 << 127) >> shared_prefix_len;
            let new_leaf_crit_bit = (crit_bit_mask & new_leaf.key) != 0;
            let old_root_crit_bit = !new_leaf_crit_bit;
""", """            let new_leaf_crit_bit = Self::bit_at(new_leaf.key, shared_prefix_len);
            let old_root_crit_bit = Self::bit_at(!new_leaf.key, shared_prefix_len);
"""), (CB, """    #[inline]
    pub fn find_min(&self)""", """    fn bit_at(key: u128, position: u32) -> bool {
        key & ((1u128 << 127) >> position) != 0
    }

    #[inline]
    pub fn find_min(&self)"""))
ok('r-t-insert-match', (CB, """            let moved_root_handle = match self.insert(&root_contents) {
                Ok(h) => h,
                Err(()) => {
                    self.remove(new_leaf_handle).unwrap();
                    return Err(SlabTreeError::OutOfSpace);
                }
            };
""", """            let moved = self.insert(&root_contents);
            if moved.is_err() {
                self.remove(new_leaf_handle).unwrap();
            }
            let moved_root_handle = moved.map_err(|()| SlabTreeError::OutOfSpace)?;
"""))
ok('r-t-alloc', (CB, """        if header.free_list_len == 0 {
            if header.bump_index as usize == nodes.len() {
                return Err(());
            }

            if header.bump_index == std::u32::MAX as u64 {
                return Err(());
            }
            let key = header.bump_index as u32;
            header.bump_index += 1;

            nodes[key as usize] = *val;
            return Ok(key);
        }
""", """        if header.free_list_len == 0 {
            let next = header.bump_index;
            if next as usize >= nodes.len() || next >= std::u32::MAX as u64 {
                return Err(());
            }
            nodes[next as usize] = *val;
            header.bump_index = next + 1;
            return Ok(next as u32);
        }
"""), (CB, """        *free_node_ref = FreeNode {
            tag: if header.free_list_len == 0 {
                NodeTag::LastFreeNode.into()
            } else {
                NodeTag::FreeNode.into()
            },
            next: header.free_list_head,""", """        let tag = match header.free_list_len {
            0 => NodeTag::LastFreeNode,
            _ => NodeTag::FreeNode,
        };
        *free_node_ref = FreeNode {
            tag: tag.into(),
            next: header.free_list_head,"""))
bug('t-search-half', 'C22', (CB, """                    nodes_to_search.push(inner.children[0]);
                    nodes_to_search.push(inner.children[1]);""", """                    nodes_to_search.push(inner.children[1]);
                    nodes_to_search.push(inner.children[1]);"""))
bug('t-search-first', 'C22', (CB, """                    found.push(leaf.key)
""", """                    found.push(leaf.key);
                    if *limit == 0x8000 { break; }
"""))
bug('t-search-double', 'C22', (CB, """                    nodes_to_search.push(inner.children[0]);
                    nodes_to_search.push(inner.children[1]);""", """                    *limit = limit.saturating_sub(1);
                    nodes_to_search.push(inner.children[0]);
                    nodes_to_search.push(inner.children[1]);"""))
ok('r-t-search', (CB, """        while !nodes_to_search.is_empty() && *limit > 0 {
            *limit -= 1;

            current_node = self.get(nodes_to_search.pop().unwrap());

            // Node not found.
            if current_node.is_none() {
                break;
            }

            match current_node.unwrap().case().unwrap() {""", """        while *limit != 0 {
            let handle = match nodes_to_search.pop() {
                Some(handle) => handle,
                None => break,
            };
            *limit -= 1;
            current_node = self.get(handle);
            let node = match current_node {
                Some(node) => node,
                None => break,
            };

            match node.case().unwrap() {"""))
FE = 'dex/src/fees.rs'
bug('v-threshold', 'C23', (FE, "() if srm_held >= one_srm * 10_000 =>", "() if srm_held > one_srm * 10_000 =>"))
bug('v-msrm-zero', 'C23', (FE, "() if msrm_held >= 1 => FeeTier::MSRM,", "() if msrm_held > 1 => FeeTier::MSRM,"))
bug('v-stable-drop', 'C23', (FE, "            || market == &stable_markets::ust_usdt::ID\n", ""))
bug('v-stable-id', 'C23', (FE, "2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62", "2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD63"))
bug('v-rate', 'C23', (FE, "SRM5 => fee_tenth_of_bps(34),", "SRM5 => fee_tenth_of_bps(32),"))
bug('v-round', 'C23', (FE, "exact_fee.floor() + ((exact_fee.frac_part() != 0) as u64)", "exact_fee.floor() + ((exact_fee.frac_part() > u64::MAX / 2) as u64)"))
bug('v-remove', 'C23', (FE, ".div(U64F64::ONE.add(rate))", ".div(U64F64(U64F64::ONE.add(rate).0 - 1))"))
bug('v-rebate', 'C23', (FE, "rebate_tenth_of_bps(0)", "rebate_tenth_of_bps(3)"))
bug('v-referrer', 'C23', (FE, "    amount / 5\n", "    (amount + 4) / 5\n"))
bug('v-owner', 'C23', ('dex/src/state.rs', "        check_assert_eq!(owner, expected_owner)?;\n        if mint == &srm_token::ID.to_aligned_bytes() {", "        if balance == 0 {\n            check_assert_eq!(owner, expected_owner)?;\n        }\n        if mint == &srm_token::ID.to_aligned_bytes() {"))
bug('v-swap', 'C23', ('dex/src/state.rs', """                &market_addr,
                0,
                balance,""", """                &market_addr,
                balance,
                (balance > 0) as u64,"""))
bug('v-mint', 'C23', ('dex/src/state.rs', "if mint == &msrm_token::ID.to_aligned_bytes() {", "if mint[0] == msrm_token::ID.to_aligned_bytes()[0] {"))
bug('v-signer', 'C23', ('dex/src/state.rs', "market.load_fee_tier(&owner.inner().key.to_aligned_bytes(), srm_or_msrm_account)?;", "market.load_fee_tier(&payer_acc.key.to_aligned_bytes(), srm_or_msrm_account)?;"))
ok('r-v-table', (FE, """        match () {
            () if msrm_held >= 1 => FeeTier::MSRM,
            () if srm_held >= one_srm * 1_000_000 => FeeTier::SRM6,
            () if srm_held >= one_srm * 100_000 => FeeTier::SRM5,
            () if srm_held >= one_srm * 10_000 => FeeTier::SRM4,
            () if srm_held >= one_srm * 1_000 => FeeTier::SRM3,
            () if srm_held >= one_srm * 100 => FeeTier::SRM2,
            () => FeeTier::Base,
        }""", """        if msrm_held != 0 {
            return FeeTier::MSRM;
        }
        let levels = [
            (1_000_000, FeeTier::SRM6),
            (100_000, FeeTier::SRM5),
            (10_000, FeeTier::SRM4),
            (1_000, FeeTier::SRM3),
            (100, FeeTier::SRM2),
        ];
        for (srm, tier) in levels.iter() {
            if srm_held >= one_srm * srm {
                return *tier;
            }
        }
        FeeTier::Base"""))
ok('r-v-contains', (FE, """        if market == &stable_markets::usdt_usdc::ID
            || market == &stable_markets::msol_sol::ID
            || market == &stable_markets::ust_usdc::ID
            || market == &stable_markets::ust_usdt::ID
            || market == &stable_markets::stsol_sol::ID
            || market == &stable_markets::usdh_usdc::ID
        {""", """        let stable = [
            stable_markets::usdt_usdc::ID,
            stable_markets::msol_sol::ID,
            stable_markets::ust_usdc::ID,
            stable_markets::ust_usdt::ID,
            stable_markets::stsol_sol::ID,
            stable_markets::usdh_usdc::ID,
        ];
        if stable.contains(market) {"""), (FE, """        match () {
            () if msrm_held >= 1 => FeeTier::MSRM,
            () if srm_held >= one_srm * 1_000_000 => FeeTier::SRM6,
            () if srm_held >= one_srm * 100_000 => FeeTier::SRM5,""", """        let srm = srm_held / one_srm;
        match () {
            () if msrm_held >= 1 => FeeTier::MSRM,
            () if srm >= 1_000_000 => FeeTier::SRM6,
            () if srm_held >= one_srm * 100_000 => FeeTier::SRM5,"""))
ok('r-v-ceil', (FE, "exact_fee.floor() + ((exact_fee.frac_part() != 0) as u64)", "if exact_fee.frac_part() == 0 {\n            exact_fee.floor()\n        } else {\n            exact_fee.floor() + 1\n        }"))
ok('r-v-ceil2', (FE, "exact_fee.floor() + ((exact_fee.frac_part() != 0) as u64)", "((exact_fee.0 + u64::MAX as u128) >> 64) as u64"))
ok('r-v-const', (FE, """        match self {
            Base => fee_tenth_of_bps(40),
            SRM2 => fee_tenth_of_bps(39),""", """        if let Stable = self {
            return fee_tenth_of_bps(10);
        }
        const RATES: [u64; 7] = [40, 39, 38, 36, 34, 32, 30];
        if let Base = self {
            return fee_tenth_of_bps(RATES[self as u8 as usize]);
        }
        match self {
            Base => fee_tenth_of_bps(40),
            SRM2 => fee_tenth_of_bps(39),"""))
ok('r-v-tier', ('dex/src/state.rs', """        if mint == &srm_token::ID.to_aligned_bytes() {
            return Ok(FeeTier::from_srm_and_msrm_balances(
                &market_addr,
                balance,
                0,
            ));
        }

        if mint == &msrm_token::ID.to_aligned_bytes() {
            return Ok(FeeTier::from_srm_and_msrm_balances(
                &market_addr,
                0,
                balance,
            ));
        }

        Ok(FeeTier::from_srm_and_msrm_balances(&market_addr, 0, 0))""", """        let (srm, msrm) = match *mint {
            m if m == srm_token::ID.to_aligned_bytes() => (balance, 0),
            m if m == msrm_token::ID.to_aligned_bytes() => (0, balance),
            _ => (0, 0),
        };
        Ok(FeeTier::from_srm_and_msrm_balances(&market_addr, srm, msrm))"""))
ok('r-v-bytes', ('dex/src/state.rs', """        let mut aligned_data: [u64; 9] = Zeroable::zeroed();
        bytes_of_mut(&mut aligned_data).copy_from_slice(&data[..72]);
        let (mint, owner, &[balance]) = array_refs![&aligned_data, 4, 4, 1];

        check_assert_eq!(owner, expected_owner)?;
        if mint == &srm_token::ID.to_aligned_bytes() {""", """        let mint = &Pubkey::new(&data[..32]).to_aligned_bytes();
        let owner = &Pubkey::new(&data[32..64]).to_aligned_bytes();
        let balance = u64::from_le_bytes(*array_ref![data, 64, 8]);

        check_assert_eq!(owner, expected_owner)?;
        if mint == &srm_token::ID.to_aligned_bytes() {"""))
bug('w-swap', 'C24', ('dex/src/state.rs', "    pub native_coin_free: u64,\n    pub native_coin_total: u64,\n\n    pub native_pc_free: u64,\n    pub native_pc_total: u64,\n", "    pub native_coin_total: u64,\n    pub native_coin_free: u64,\n\n    pub native_pc_free: u64,\n    pub native_pc_total: u64,\n"))
bug('w-tail', 'C24', ('dex/src/state.rs', "    check_assert_eq!(tail, ACCOUNT_TAIL_PADDING)?;\n", "    check_assert_eq!(tail[..6], ACCOUNT_TAIL_PADDING[..6])?;\n"))
bug('w-head', 'C24', ('dex/src/state.rs', "    check_assert_eq!(head, ACCOUNT_HEAD_PADDING)?;\n", "    let _ = head;\n"))
bug('w-slab', 'C24', (CB, "bytes.len().checked_sub(SLAB_HEADER_LEN).unwrap();", "bytes.len().wrapping_sub(SLAB_HEADER_LEN);"))
bug('w-slop', 'C24', (CB, "let slop = len_without_header % size_of::<AnyNode>();", "let slop = len_without_header % (2 * size_of::<AnyNode>());"))
bug('w-seq', 'C24', ('dex/src/state.rs', "    head: u64,\n    count: u64,\n    seq_num: u64,", "    count: u64,\n    head: u64,\n    seq_num: u64,"))
ok('r-w-strip', ('dex/src/state.rs', """    check_assert!(data.len() >= 12)?;
    let (head, data, tail) = mut_array_refs![data, 5; ..; 7];
    check_assert_eq!(head, ACCOUNT_HEAD_PADDING)?;
    check_assert_eq!(tail, ACCOUNT_TAIL_PADDING)?;
    Ok(""", """    check_assert!(data.len() >= 12)?;
    let (head, rest) = data.split_at_mut(ACCOUNT_HEAD_PADDING.len());
    let tail_at = rest.len() - ACCOUNT_TAIL_PADDING.len();
    let (data, tail) = rest.split_at_mut(tail_at);
    check_assert!(head == &ACCOUNT_HEAD_PADDING[..])?;
    check_assert!(tail == &ACCOUNT_TAIL_PADDING[..])?;
    Ok("""))
ok('r-w-slab', (CB, """        let len_without_header = bytes.len().checked_sub(SLAB_HEADER_LEN).unwrap();
        let slop = len_without_header % size_of::<AnyNode>();
        let truncated_len = bytes.len() - slop;
        let bytes = &mut bytes[..truncated_len];""", """        assert!(bytes.len() >= SLAB_HEADER_LEN);
        let slop = (bytes.len() - SLAB_HEADER_LEN) % size_of::<AnyNode>();
        let keep = bytes.len() - slop;
        let (bytes, _slop) = bytes.split_at_mut(keep);"""))

# ------------------------------------------------------------------ parsers and loaders: refactorings
ok('r-a-flags-contains', (ST, """            if flags != required_flags
                && flags != required_crank_flags
                && flags != disabled_flags
                && flags != disabled_crank_flags
            {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }""", """            let accepted = [
                required_flags,
                required_crank_flags,
                disabled_flags,
                disabled_crank_flags,
            ];
            if !accepted.contains(&flags) {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }"""))
ok('r-a-flags-norm', (ST, """        if allow_disabled {
            let disabled_flags = required_flags | AccountFlag::Disabled;
            if flags != required_flags && flags != disabled_flags {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }
        } else {
            if flags != required_flags {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }
        }
        Ok(())
    }

    pub fn load_bids_mut""", """        let disabled_flags = required_flags | AccountFlag::Disabled;
        let ok = flags == required_flags || (allow_disabled && flags == disabled_flags);
        if ok {
            Ok(())
        } else {
            Err(DexErrorCode::InvalidMarketFlags.into())
        }
    }

    pub fn load_bids_mut"""))
ok('r-a-book-helper', (ST, """    pub fn load_bids_mut<'a>(&self, bids: &'a AccountInfo) -> DexResult<RefMut<'a, Slab>> {
        check_assert_eq!(&bids.key.to_aligned_bytes(), &identity(self.bids))
            .map_err(|_| DexErrorCode::WrongBidsAccount)?;
        let (header, buf) = strip_header::<OrderBookStateHeader, u8>(bids, false)?;
        let flags = BitFlags::from_bits(header.account_flags).unwrap();
        check_assert_eq!(&flags, &(AccountFlag::Initialized | AccountFlag::Bids))?;
        Ok(RefMut::map(buf, Slab::new))
    }

    pub fn load_asks_mut<'a>(&self, asks: &'a AccountInfo) -> DexResult<RefMut<'a, Slab>> {
        check_assert_eq!(&asks.key.to_aligned_bytes(), &identity(self.asks))
            .map_err(|_| DexErrorCode::WrongAsksAccount)?;
        let (header, buf) = strip_header::<OrderBookStateHeader, u8>(asks, false)?;
        let flags = BitFlags::from_bits(header.account_flags).unwrap();
        check_assert_eq!(&flags, &(AccountFlag::Initialized | AccountFlag::Asks))?;
        Ok(RefMut::map(buf, Slab::new))
    }
""", """    pub fn load_bids_mut<'a>(&self, bids: &'a AccountInfo) -> DexResult<RefMut<'a, Slab>> {
        check_assert_eq!(&bids.key.to_aligned_bytes(), &identity(self.bids))
            .map_err(|_| DexErrorCode::WrongBidsAccount)?;
        Self::load_book_side_mut(bids, AccountFlag::Bids)
    }

    pub fn load_asks_mut<'a>(&self, asks: &'a AccountInfo) -> DexResult<RefMut<'a, Slab>> {
        check_assert_eq!(&asks.key.to_aligned_bytes(), &identity(self.asks))
            .map_err(|_| DexErrorCode::WrongAsksAccount)?;
        Self::load_book_side_mut(asks, AccountFlag::Asks)
    }

    fn load_book_side_mut<'a>(
        account: &'a AccountInfo,
        side_flag: AccountFlag,
    ) -> DexResult<RefMut<'a, Slab>> {
        let (header, buf) = strip_header::<OrderBookStateHeader, u8>(account, false)?;
        let flags = BitFlags::from_bits(header.account_flags).unwrap();
        check_assert_eq!(&flags, &(AccountFlag::Initialized | side_flag))?;
        Ok(RefMut::map(buf, Slab::new))
    }
"""))
ok('r-a-vault-helper', (ST, """        if identity(self.coin_vault) != vault.inner().key.to_aligned_bytes() {
            Err(DexErrorCode::WrongCoinVault)?
        }
        Ok(())
    }
""", """        let expected = identity(self.coin_vault);
        let actual = vault.inner().key.to_aligned_bytes();
        let same = expected
            .iter()
            .zip(actual.iter())
            .all(|(want, got)| want == got);
        if same {
            Ok(())
        } else {
            Err(DexErrorCode::WrongCoinVault.into())
        }
    }
"""))
ok('r-a-payer-match', (ST, """            match instruction.side {
                Side::Bid => market.check_pc_payer(payer).or(check_unreachable!())?,
                Side::Ask => market.check_coin_payer(payer).or(check_unreachable!())?,
            };
""", """            let payer_check = if instruction.side == Side::Bid {
                market.check_pc_payer(payer)
            } else {
                market.check_coin_payer(payer)
            };
            payer_check.or(check_unreachable!())?;
"""))
ok('r-a-authority-iflet', (ST, """        match &self {
            Market::V1(_) => None,
            Market::V2(state) => {
                let flags = BitFlags::from_bits(state.inner.account_flags).unwrap();
                if flags.intersects(AccountFlag::CrankAuthorityRequired) {
                    Some(&state.consume_events_authority)
                } else {
                    None
                }
            }
        }""", """        if let Market::V2(state) = self {
            let flags = BitFlags::from_bits(state.inner.account_flags).unwrap();
            let required = flags.contains(AccountFlag::CrankAuthorityRequired);
            return if required {
                Some(&state.consume_events_authority)
            } else {
                None
            };
        }
        None"""))
ok('r-a-loadorders-helper', (ST, """        if open_orders.account_flags == 0 {
            let oo_authority = open_orders_authority.map(|a| a.inner().key);
            if oo_authority != self.open_orders_authority() {
                return Err(DexErrorCode::InvalidOpenOrdersAuthority.into());
            }

            let rent = rent.ok_or(DexErrorCode::RentNotProvided)?;
            let owner_account = owner_account.ok_or(DexErrorCode::OwnerAccountNotProvided)?;
            if !rent.is_exempt(open_orders_lamports, open_orders_data_len) {
                return Err(DexErrorCode::OrdersNotRentExempt)?;
            }
            open_orders.init(
                &identity(self.own_address),
                &owner_account.key.to_aligned_bytes(),
            )?;
        }
""", """        if open_orders.account_flags == 0 {
            let rent = rent.ok_or(DexErrorCode::RentNotProvided)?;
            let exempt = rent.is_exempt(open_orders_lamports, open_orders_data_len);
            self.init_fresh_orders(&mut open_orders, owner_account, exempt, open_orders_authority)?;
        }
"""), (ST, """    pub fn load_orders_mut(
        &self,""", """    fn init_fresh_orders(
        &self,
        open_orders: &mut OpenOrders,
        owner_account: Option<&AccountInfo>,
        rent_exempt: bool,
        open_orders_authority: Option<account_parser::SignerAccount>,
    ) -> DexResult {
        let given = match open_orders_authority {
            Some(ref a) => Some(a.inner().key),
            None => None,
        };
        match (given, self.open_orders_authority()) {
            (None, None) => (),
            (Some(a), Some(b)) if a == b => (),
            _ => return Err(DexErrorCode::InvalidOpenOrdersAuthority.into()),
        }
        let owner = match owner_account {
            Some(owner) => owner,
            None => return Err(DexErrorCode::OwnerAccountNotProvided.into()),
        };
        if !rent_exempt {
            return Err(DexErrorCode::OrdersNotRentExempt.into());
        }
        open_orders.init(&identity(self.own_address), &owner.key.to_aligned_bytes())
    }

    pub fn load_orders_mut(
        &self,"""))
ok('r-a-feetier-match', (ST, """        check_assert_eq!(owner, expected_owner)?;
        if mint == &srm_token::ID.to_aligned_bytes() {
            return Ok(FeeTier::from_srm_and_msrm_balances(
                &market_addr,
                balance,
                0,
            ));
        }

        if mint == &msrm_token::ID.to_aligned_bytes() {
            return Ok(FeeTier::from_srm_and_msrm_balances(
                &market_addr,
                0,
                balance,
            ));
        }

        Ok(FeeTier::from_srm_and_msrm_balances(&market_addr, 0, 0))""", """        check_assert_eq!(owner, expected_owner)?;
        let is_srm = mint == &srm_token::ID.to_aligned_bytes();
        let is_msrm = mint == &msrm_token::ID.to_aligned_bytes();
        let (srm_held, msrm_held) = match (is_srm, is_msrm) {
            (true, _) => (balance, 0),
            (false, true) => (0, balance),
            (false, false) => (0, 0),
        };
        Ok(FeeTier::from_srm_and_msrm_balances(
            &market_addr,
            srm_held,
            msrm_held,
        ))"""))
ok('r-a-init-loop', (ST, """            for i in 0..=1 {
                let vault = TokenAccount::new(&unchecked_vaults[i])?;
                let mint = TokenMint::new(&unchecked_mints[i])?;

                // check that the vaults are owned by the market's withdrawal authority key
                let vault_data = vault.0.try_borrow_data()?;
                let vault_owner = array_ref![vault_data, 0x20, 0x20];
                check_assert_eq!(vault_owner, &vault_owner_key_bytes)?;

                // check that the vault has no delegate
                let delegate_tag = array_ref![vault_data, 0x48, 0x4];
                check_assert_eq!(*delegate_tag, [0u8; 4])?;

                // check that the vault has no close authority
                let close_authority_tag = array_ref![vault_data, 0x81, 0x4];
                check_assert_eq!(*close_authority_tag, [0u8; 4])?;

                checked_vaults[i] = Some(TokenAccountAndMint::new(vault, mint)?);
            }
            let [coin_vault_and_mint, pc_vault_and_mint] = match checked_vaults {
                [Some(cvm), Some(pvm)] => [cvm, pvm],
                _ => check_unreachable!()?,
            };
""", """            let check_vault = |vault_acc: &'a AccountInfo<'b>, mint_acc: &'a AccountInfo<'b>| {
                let vault = TokenAccount::new(vault_acc)?;
                let mint = TokenMint::new(mint_acc)?;
                {
                    let vault_data = vault.0.try_borrow_data()?;
                    check_assert_eq!(&vault_data[0x20..0x40], &vault_owner_key_bytes[..])?;
                    check_assert_eq!(u32::from_le_bytes(*array_ref![vault_data, 0x48, 4]), 0u32)?;
                    check_assert_eq!(u32::from_le_bytes(*array_ref![vault_data, 0x81, 4]), 0u32)?;
                }
                TokenAccountAndMint::new(vault, mint)
            };
            let coin_vault_and_mint: DexResult<TokenAccountAndMint<'a, 'b>> =
                check_vault(&unchecked_vaults[0], &unchecked_mints[0]);
            let coin_vault_and_mint = coin_vault_and_mint?;
            let pc_vault_and_mint = check_vault(&unchecked_vaults[1], &unchecked_mints[1])?;
"""), (ST, "            let mut checked_vaults = [None, None];\n            for account in unchecked_serum", "            for account in unchecked_serum"))
ok('r-a-init-rent', (ST, """                let end_idx = accounts.len() - remaining_accounts.len() - 1;
                for account in &accounts[1..end_idx] {
                    let data_len = account.data_len();
                    let lamports = account.lamports();
                    check_assert!(rent.is_exempt(lamports, data_len))?;
                }
""", """                let must_be_exempt = unchecked_serum_dex_accounts[1..]
                    .iter()
                    .chain(unchecked_vaults.iter())
                    .chain(unchecked_mints.iter());
                for account in must_be_exempt {
                    let exempt = rent.is_exempt(account.lamports(), account.data_len());
                    check_assert!(exempt)?;
                }
"""))
ok('r-a-init-zero', (ST, """                let (padding5, header, _, padding7) = array_refs![&data, 5, 8; .. ; 7];
                check_assert_eq!(*padding5, [0u8; 5])?;
                check_assert_eq!(*header, [0u8; 8])?;
                check_assert_eq!(*padding7, [0u8; 7])?;
""", """                let tail_start = data.len() - 7;
                check_assert!(data[..13].iter().all(|b| *b == 0))?;
                check_assert!(data[tail_start..].iter().all(|b| *b == 0))?;
"""))
ok('r-a-sendtake-slices', (ST, """            let (fixed_accounts, fee_discount_account): (
                &'a [AccountInfo<'b>; MIN_ACCOUNTS],
                &'a [AccountInfo<'b>],
            ) = array_refs![accounts, MIN_ACCOUNTS; .. ;];
            let &[
                ref market_acc,
                ref req_q_acc,
                ref event_q_acc,
                ref bids_acc,
                ref asks_acc,
                ref coin_wallet_acc,
                ref pc_wallet_acc,
                ref signer_acc,
                ref coin_vault_acc,
                ref pc_vault_acc,
                ref spl_token_program_acc,
                ref vault_signer_acc,
            ]: &'a [AccountInfo<'b>; MIN_ACCOUNTS] = fixed_accounts;
            let srm_or_msrm_account = match fee_discount_account {
                &[] => None,
                &[ref account] => Some(TokenAccount::new(account)?),
                _ => check_unreachable!()?,
            };
""", """            let market_acc = &accounts[0];
            let req_q_acc = &accounts[1];
            let event_q_acc = &accounts[2];
            let bids_acc = &accounts[3];
            let asks_acc = &accounts[4];
            let coin_wallet_acc = &accounts[5];
            let pc_wallet_acc = &accounts[6];
            let signer_acc = &accounts[7];
            let coin_vault_acc = &accounts[8];
            let pc_vault_acc = &accounts[9];
            let spl_token_program_acc = &accounts[10];
            let vault_signer_acc = &accounts[11];
            let srm_or_msrm_account = accounts
                .get(MIN_ACCOUNTS)
                .map(TokenAccount::new)
                .transpose()?;
"""))
ok('r-a-consume-split', (ST, """            check_assert!(accounts.len() >= 4)?;
            #[rustfmt::skip]
            let (
                &[],
                open_orders_accounts,
                &[
                    ref market_acc,
                    ref event_q_acc,
                    ref consume_events_auth,
                ]
            ) = array_refs![accounts, 0; .. ; 3];
            let market = Market::load(market_acc, program_id, true)?;
            check_assert!(consume_events_auth.is_signer)?;
            check_assert_eq!(
                Some(consume_events_auth.key),
                market.consume_events_authority()
            )?;
""", """            check_assert!(accounts.len() >= 4)?;
            let (open_orders_accounts, tail) = accounts.split_at(accounts.len() - 3);
            let (market_acc, event_q_acc, consume_events_auth) = (&tail[0], &tail[1], &tail[2]);
            let market = Market::load(market_acc, program_id, true)?;
            check_assert!(consume_events_auth.is_signer)?;
            match market.consume_events_authority() {
                Some(expected) if expected == consume_events_auth.key => (),
                _ => check_assert!(false)?,
            }
"""))
ok('r-a-replace-accounts', (ST, """            let cancel_accounts = [0, 4, 5, 1, 7, 3]
                .iter()
                .map(|i| accounts[*i].clone())
                .collect::<Vec<_>>();
            let mut client_order_ids = [0; 8];
            for (instruction, client_order_id) in
                instructions.iter().zip(client_order_ids.iter_mut())
            {
                *client_order_id = instruction.client_order_id;
            }
""", """            let cancel_accounts = vec![
                accounts[0].clone(),
                accounts[4].clone(),
                accounts[5].clone(),
                accounts[1].clone(),
                accounts[7].clone(),
                accounts[3].clone(),
            ];
            let mut client_order_ids = [0; 8];
            for (i, instruction) in instructions.iter().take(8).enumerate() {
                client_order_ids[i] = instruction.client_order_id;
            }
"""))
ok('r-a-balance', (ST, """            let data = self.inner().try_borrow_data()?;
            Ok(u64::from_le_bytes(*array_ref![data, 64, 8]))""", """            let data = self.inner().try_borrow_data()?;
            let mut amount = [0u8; 8];
            amount.copy_from_slice(&data[64..72]);
            Ok(u64::from_le_bytes(amount))"""))
ok('r-a-vaultsigner', (ST, """            let vault_signer_key =
                gen_vault_signer_key(market.vault_signer_nonce, &market.pubkey(), program_id)?;
            Ok(check_assert_eq!(&vault_signer_key, account.key)?)
""", """            let nonce = market.vault_signer_nonce;
            let market_key = market.pubkey();
            let expected = gen_vault_signer_key(nonce, &market_key, program_id)?;
            if expected != *account.key {
                return Err(assertion_error!().into());
            }
            Ok(())
"""))

# ------------------------------------------------------------------ process functions: more refactorings
DEP = """        if deposit_amount != 0 {
            let balance_before = deposit_vault.balance()?;
            let deposit_instruction = spl_token::instruction::transfer(
                &spl_token::ID,
                %(src)s.inner().key,
                deposit_vault.inner().key,
                %(own)s.inner().key,
                &[],
                deposit_amount,
            )
            .unwrap();
            invoke_spl_token(
                &deposit_instruction,
                &[
                    %(src)s.inner().clone(),
                    deposit_vault.inner().clone(),
                    %(own)s.inner().clone(),
                    spl_token_program.inner().clone(),
                ],
                &[],
            )
            .map_err(|err| match err {
                ProgramError::Custom(i) => match TokenError::from_u32(i) {
                    Some(TokenError::InsufficientFunds) => DexErrorCode::InsufficientFunds,
                    _ => DexErrorCode::TransferFailed,
                },
                _ => DexErrorCode::TransferFailed,
            })?;
            let balance_after = deposit_vault.balance()?;
            let balance_change = balance_after.checked_sub(balance_before);
            check_assert_eq!(Some(deposit_amount), balance_change)?;
        }
"""
DEPFN = """#[cfg(feature = "program")]
fn deposit_to_vault<'a, 'b: 'a>(
    amount: u64,
    source: account_parser::TokenAccount<'a, 'b>,
    vault: account_parser::TokenAccount<'a, 'b>,
    authority: account_parser::SignerAccount<'a, 'b>,
    spl_token_program: account_parser::SplTokenProgram<'a, 'b>,
) -> DexResult {
    if amount == 0 {
        return Ok(());
    }
    let balance_before = vault.balance()?;
    let transfer = spl_token::instruction::transfer(
        &spl_token::ID,
        source.inner().key,
        vault.inner().key,
        authority.inner().key,
        &[],
        amount,
    )
    .unwrap();
    let infos = [
        source.inner().clone(),
        vault.inner().clone(),
        authority.inner().clone(),
        spl_token_program.inner().clone(),
    ];
    if let Err(err) = invoke_spl_token(&transfer, &infos, &[]) {
        let code = match err {
            ProgramError::Custom(i) => match TokenError::from_u32(i) {
                Some(TokenError::InsufficientFunds) => DexErrorCode::InsufficientFunds,
                _ => DexErrorCode::TransferFailed,
            },
            _ => DexErrorCode::TransferFailed,
        };
        return Err(code.into());
    }
    let balance_after = vault.balance()?;
    check_assert_eq!(balance_after.checked_sub(balance_before), Some(amount))?;
    Ok(())
}

#[cfg(feature = "program")]
fn send_from_vault<'a, 'b: 'a>("""
ok('r-p-deposit-shared', (ST, DEP % dict(src='payer', own='owner'), "        deposit_to_vault(deposit_amount, payer, deposit_vault, owner, spl_token_program)?;\n"),
   (ST, DEP % dict(src='deposit_source', own='signer'), "        deposit_to_vault(\n            deposit_amount,\n            deposit_source,\n            deposit_vault,\n            signer,\n            spl_token_program,\n        )?;\n"),
   (ST, "#[cfg(feature = \"program\")]\nfn send_from_vault<'a, 'b: 'a>(", DEPFN))
ok('r-p-prune-chain', (ST, """        for bid in bids_removed {
            let order_id = open_orders.orders[bid.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                bid,
                Side::Bid,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }

        for ask in asks_removed {
            let order_id = open_orders.orders[ask.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                ask,
                Side::Ask,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }
""", """        let removed = bids_removed
            .into_iter()
            .map(|leaf| (Side::Bid, leaf))
            .chain(asks_removed.into_iter().map(|leaf| (Side::Ask, leaf)));
        for (side, leaf) in removed {
            let order_id = open_orders.orders[leaf.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                leaf,
                side,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }
"""))
ok('r-p-settle-helper', (ST, """        let native_coin_amount = open_orders.native_coin_free;
        let native_pc_amount = open_orders.native_pc_free;

        market.coin_deposits_total -= native_coin_amount;
        market.pc_deposits_total -= native_pc_amount;

        open_orders.native_coin_free = 0;
        open_orders.native_pc_free = 0;

        open_orders.native_coin_total = open_orders
            .native_coin_total
            .checked_sub(native_coin_amount)
            .unwrap();
        open_orders.native_pc_total = open_orders
            .native_pc_total
            .checked_sub(native_pc_amount)
            .unwrap();
""", """        let (native_coin_amount, native_pc_amount) = open_orders.take_free_funds();

        market.pc_deposits_total -= native_pc_amount;
        market.coin_deposits_total -= native_coin_amount;
"""), (ST, """    fn lock_free_coin(&mut self, native_coin_amount: u64) {""", """    fn take_free_funds(&mut self) -> (u64, u64) {
        let coin = self.native_coin_free;
        let pc = self.native_pc_free;
        self.native_coin_total = self.native_coin_total.checked_sub(coin).unwrap();
        self.native_pc_total = self.native_pc_total.checked_sub(pc).unwrap();
        self.native_coin_free = 0;
        self.native_pc_free = 0;
        (coin, pc)
    }

    fn lock_free_coin(&mut self, native_coin_amount: u64) {"""))
ok('r-p-settle-referrer', (ST, """        match referrer {
            Some(referrer_pc_wallet) if open_orders.referrer_rebates_accrued > 0 => {
                send_from_vault(
                    open_orders.referrer_rebates_accrued,
                    referrer_pc_wallet.token_account(),
                    pc_vault.token_account(),
                    spl_token_program,
                    vault_signer,
                    &vault_signer_seeds,
                )?;
            }
            _ => {
                market.pc_fees_accrued += open_orders.referrer_rebates_accrued;
            }
        };
        market.referrer_rebates_accrued -= open_orders.referrer_rebates_accrued;
        open_orders.referrer_rebates_accrued = 0;
""", """        let rebate = open_orders.referrer_rebates_accrued;
        open_orders.referrer_rebates_accrued = 0;
        market.referrer_rebates_accrued -= rebate;
        if let Some(referrer_pc_wallet) = referrer {
            if rebate != 0 {
                send_from_vault(
                    rebate,
                    referrer_pc_wallet.token_account(),
                    pc_vault.token_account(),
                    spl_token_program,
                    vault_signer,
                    &vault_signer_seeds,
                )?;
            }
        } else {
            market.pc_fees_accrued += rebate;
        }
"""))
ok('r-p-neworder-credit', (ST, """            open_orders_mut.credit_locked_coin(native_coin_credit);
            open_orders_mut.unlock_coin(native_coin_credit);
            open_orders_mut.unlock_coin(native_coin_unlocked);

            open_orders_mut.credit_locked_pc(native_pc_credit);
            open_orders_mut.unlock_pc(native_pc_credit);
            open_orders_mut.unlock_pc(native_pc_unlocked);
""", """            open_orders_mut.credit_locked_coin(native_coin_credit);
            open_orders_mut.unlock_coin(native_coin_credit.checked_add(native_coin_unlocked).unwrap());

            open_orders_mut.credit_locked_pc(native_pc_credit);
            open_orders_mut.unlock_pc(native_pc_credit.checked_add(native_pc_unlocked).unwrap());
"""))
ok('r-p-neworder-lock', (ST, """                let free_qty_to_lock = lock_qty_native.get().min(open_orders_mut.native_pc_free);
                deposit_amount = lock_qty_native.get() - free_qty_to_lock;
                deposit_vault = pc_vault.token_account();""", """                deposit_amount = lock_qty_native
                    .get()
                    .saturating_sub(open_orders_mut.native_pc_free);
                let free_qty_to_lock = lock_qty_native.get() - deposit_amount;
                deposit_vault = pc_vault.token_account();"""))
ok('r-p-neworder-totals', (ST, """            open_orders_mut.native_coin_total = open_orders_mut
                .native_coin_total
                .checked_sub(native_coin_debit)
                .unwrap();
            open_orders_mut.native_pc_total = open_orders_mut
                .native_pc_total
                .checked_sub(native_pc_debit)
                .unwrap();
            check_assert!(open_orders_mut.native_coin_free <= open_orders_mut.native_coin_total)?;
            check_assert!(open_orders_mut.native_pc_free <= open_orders_mut.native_pc_total)?;
""", """            let debit = |total: u64, amount: u64| -> u64 { total.checked_sub(amount).unwrap() };
            open_orders_mut.native_coin_total =
                debit(open_orders_mut.native_coin_total, native_coin_debit);
            open_orders_mut.native_pc_total =
                debit(open_orders_mut.native_pc_total, native_pc_debit);
            let coin_ok = open_orders_mut.native_coin_total >= open_orders_mut.native_coin_free;
            let pc_ok = open_orders_mut.native_pc_total >= open_orders_mut.native_pc_free;
            check_assert!(coin_ok && pc_ok)?;
"""))
ok('r-p-neworder-ts', (ST, """        if instruction.max_ts < i64::MAX {
            // Dynamic sysvars don't work in unit tests.
            #[cfg(any(test, feature = "fuzz"))]
            let cur_ts = 1_650_000_000;
            #[cfg(not(any(test, feature = "fuzz")))]
            let cur_ts = Clock::get()?.unix_timestamp;
            if cur_ts > instruction.max_ts {
                return Err(DexErrorCode::OrderMaxTimestampExceeded.into());
            }
        }
""", """        let expires = instruction.max_ts != i64::MAX;
        if expires {
            // Dynamic sysvars don't work in unit tests.
            #[cfg(any(test, feature = "fuzz"))]
            let cur_ts = 1_650_000_000;
            #[cfg(not(any(test, feature = "fuzz")))]
            let cur_ts = Clock::get()?.unix_timestamp;
            let still_valid = cur_ts <= instruction.max_ts;
            if !still_valid {
                return Err(DexErrorCode::OrderMaxTimestampExceeded.into());
            }
        }
"""))
ok('r-p-consume-maker', (ST, """                    match side {
                        Side::Bid if maker => {
                            open_orders.native_pc_total -= native_qty_paid;
                            open_orders.native_coin_total += native_qty_received;
                            open_orders.native_coin_free += native_qty_received;
                            open_orders.native_pc_free += native_fee_or_rebate;
                        }
                        Side::Ask if maker => {
                            open_orders.native_coin_total -= native_qty_paid;
                            open_orders.native_pc_total += native_qty_received;
                            open_orders.native_pc_free += native_qty_received;
                        }
                        _ => (),
                    };
                    if !maker {
                        let referrer_rebate = fees::referrer_rebate(native_fee_or_rebate);
                        open_orders.referrer_rebates_accrued += referrer_rebate;
                    }
""", """                    if maker {
                        if side == Side::Bid {
                            open_orders.native_pc_total -= native_qty_paid;
                            open_orders.native_pc_free += native_fee_or_rebate;
                            open_orders.native_coin_free += native_qty_received;
                            open_orders.native_coin_total += native_qty_received;
                        } else {
                            open_orders.native_coin_total -= native_qty_paid;
                            open_orders.native_pc_free += native_qty_received;
                            open_orders.native_pc_total += native_qty_received;
                        }
                    } else {
                        open_orders.referrer_rebates_accrued +=
                            fees::referrer_rebate(native_fee_or_rebate);
                    }
"""))
ok('r-p-consume-fns', (ST, """            event_q
                .pop_front()
                .map_err(|()| DexErrorCode::ConsumeEventsQueueFailure)?;
        }
        Ok(())
    }
""", """            if event_q.pop_front().is_err() {
                return Err(DexErrorCode::ConsumeEventsQueueFailure.into());
            }
        }
        Ok(())
    }
"""), (ST, """        for _i in 0u16..limit {
            let event = match event_q.peek_front() {
                None => break,
                Some(e) => e,
            };
""", """        let mut remaining = limit;
        while remaining > 0 {
            remaining -= 1;
            let event = match event_q.peek_front() {
                Some(event) => *event,
                None => break,
            };
            let event = &event;
"""))
ok('r-p-consume-owner', (ST, """            let owner_index: Result<usize, usize> = open_orders_accounts
                .binary_search_by_key(&owner, |account_info| account_info.key.to_aligned_bytes());
            let mut open_orders: RefMut<OpenOrders> = match owner_index {
                Err(_) => break,
                Ok(i) => market.load_orders_mut(
                    &open_orders_accounts[i],
                    None,
                    program_id,
                    None,
                    None,
                )?,
            };
""", """            let account = match find_orders_account(open_orders_accounts, &owner) {
                Some(account) => account,
                None => return Ok(()),
            };
            let mut open_orders: RefMut<OpenOrders> =
                market.load_orders_mut(account, None, program_id, None, None)?;
"""), (ST, """fn remove_slop<T: Pod>(""", """fn find_orders_account<'a, 'b>(
    accounts: &'a [AccountInfo<'b>],
    owner: &[u64; 4],
) -> Option<&'a AccountInfo<'b>> {
    accounts
        .binary_search_by_key(owner, |info| info.key.to_aligned_bytes())
        .ok()
        .map(|index| &accounts[index])
}

fn remove_slop<T: Pod>("""))
ok('r-p-cancels-early', (ST, """        let mut orders = Vec::new();
        for (client_order_id, order_id, side) in open_orders.orders_with_client_ids() {
            if client_order_ids.contains(&client_order_id) {
                orders.push((order_id, side));
            }
        }
""", """        let orders: Vec<(u128, Side)> = open_orders
            .orders_with_client_ids()
            .filter(|(client_order_id, _, _)| client_order_ids.contains(client_order_id))
            .map(|(_, order_id, side)| (order_id, side))
            .collect();
"""), (ST, """                match err {
                    DexError::ErrorCode(code) => {
                        if code == DexErrorCode::OrderNotFound {
                            continue;
                        }
                        return Err(err);
                    }
                    _ => return Err(err)
                }
            }""", """                let benign = matches!(err, DexError::ErrorCode(DexErrorCode::OrderNotFound));
                if !benign {
                    return Err(err);
                }
            }"""))
ok('r-p-replace-try', (ST, """        for instruction in instructions {
            account_parser::NewOrderV3Args::with_parsed_args(
                program_id,
                instruction,
                accounts,
                Self::process_new_order_v3,
            )?;
        }

        Ok(())
    }
""", """        instructions.iter().try_for_each(|instruction| {
            account_parser::NewOrderV3Args::with_parsed_args(
                program_id,
                instruction,
                accounts,
                Self::process_new_order_v3,
            )
        })
    }
"""))
ok('r-p-init-ob', (ST, """        for (flag, account) in &[(AccountFlag::Bids, bids), (AccountFlag::Asks, asks)] {
            let mut ob_data = account.try_borrow_mut_data().unwrap();
            let ob_view = init_account_padding(&mut ob_data)?;
            const OB_HEADER_WORDS: usize = size_of::<OrderBookStateHeader>() / size_of::<u64>();
            check_assert!(ob_view.len() > OB_HEADER_WORDS)?;
            let (hdr_array, slab_words) = mut_array_refs![ob_view, OB_HEADER_WORDS; .. ;];
            let ob_hdr: &mut OrderBookStateHeader =
                try_cast_mut(hdr_array).or(check_unreachable!())?;
            *ob_hdr = OrderBookStateHeader {
                account_flags: (AccountFlag::Initialized | *flag).bits(),
            };
            let slab = Slab::new(cast_slice_mut(slab_words));
            slab.assert_minimum_capacity(100)?;
        }
""", """        init_book_side(asks, AccountFlag::Asks)?;
        init_book_side(bids, AccountFlag::Bids)?;
"""), (ST, """fn remove_slop<T: Pod>(""", """fn init_book_side(account: &AccountInfo, flag: AccountFlag) -> DexResult {
    let mut ob_data = account.try_borrow_mut_data().unwrap();
    let ob_view = init_account_padding(&mut ob_data)?;
    const OB_HEADER_WORDS: usize = size_of::<OrderBookStateHeader>() / size_of::<u64>();
    check_assert!(ob_view.len() > OB_HEADER_WORDS)?;
    let (hdr_array, slab_words) = mut_array_refs![ob_view, OB_HEADER_WORDS; .. ;];
    let ob_hdr: &mut OrderBookStateHeader = try_cast_mut(hdr_array).or(check_unreachable!())?;
    ob_hdr.account_flags = (AccountFlag::Initialized | flag).bits();
    let slab = Slab::new(cast_slice_mut(slab_words));
    slab.assert_minimum_capacity(100)?;
    Ok(())
}

fn remove_slop<T: Pod>("""))
ok('r-p-init-auth', (ST, """        if market_authority.is_some() {
            account_flags |= AccountFlag::Permissioned;
            if consume_events_authority.is_some() {
                account_flags |= AccountFlag::CrankAuthorityRequired;
            }
        }
""", """        account_flags |= match (market_authority, consume_events_authority) {
            (Some(_), Some(_)) => AccountFlag::Permissioned | AccountFlag::CrankAuthorityRequired,
            (Some(_), None) => AccountFlag::Permissioned.into(),
            (None, _) => BitFlags::empty(),
        };
"""), (ST, """                market_hdr.prune_authority =
                    prune_authority.map(|p| *p.key).unwrap_or(Pubkey::default());
""", """                market_hdr.prune_authority = match prune_authority {
                    Some(account) => *account.key,
                    None => Pubkey::default(),
                };
"""))
ok('r-p-sweep-replace', (ST, """        let token_amount = market.pc_fees_accrued;
        market.pc_fees_accrued = 0;

        let nonce = market.vault_signer_nonce;
        let market_pubkey = market.pubkey();
        let vault_signer_seeds = gen_vault_signer_seeds(&nonce, &market_pubkey);
        send_from_vault(
            token_amount,
            fee_receiver.token_account(),
            pc_vault.token_account(),
            spl_token_program,
            vault_signer,
            &vault_signer_seeds,
        )
""", """        let market_pubkey = market.pubkey();
        let nonce = market.vault_signer_nonce;
        let vault_signer_seeds = gen_vault_signer_seeds(&nonce, &market_pubkey);
        let token_amount = market.pc_fees_accrued;
        send_from_vault(
            token_amount,
            fee_receiver.token_account(),
            pc_vault.token_account(),
            spl_token_program,
            vault_signer,
            &vault_signer_seeds,
        )?;
        market.pc_fees_accrued -= token_amount;
        Ok(())
"""))
ok('r-p-sendtake-struct', (ST, """        let native_pc_qty_locked = match instruction.side {
            Side::Bid => {
                let lock_qty_native = instruction.max_native_pc_qty_including_fees;
                Some(lock_qty_native)
            }
            Side::Ask => None,
        };

        let request""", """        let is_bid = matches!(instruction.side, Side::Bid);
        let mut native_pc_qty_locked = None;
        if is_bid {
            native_pc_qty_locked = Some(instruction.max_native_pc_qty_including_fees);
        }

        let request"""), (ST, """        let abort = match instruction.side {
            Side::Bid if coin_credit < instruction.min_coin_qty => true,
            Side::Ask if native_pc_credit < instruction.min_native_pc_qty => true,
            _ => false,
        };

        if abort {""", """        let (received, wanted) = if is_bid {
            (coin_credit, instruction.min_coin_qty)
        } else {
            (native_pc_credit, instruction.min_native_pc_qty)
        };

        if received < wanted {"""))
ok('r-p-sendtake-sub', (ST, """                check_assert!(market_state.coin_deposits_total >= withdraw_amount)?;
                market_state.coin_deposits_total -= withdraw_amount;
            }""", """                let left = market_state.coin_deposits_total.checked_sub(withdraw_amount);
                check_assert!(left.is_some())?;
                market_state.coin_deposits_total = left.unwrap();
            }"""))
ok('r-p-close', (ST, """        let dest_starting_lamports = dest_acc.lamports();
        **dest_acc.lamports.borrow_mut() = dest_starting_lamports
            .checked_add(open_orders_acc.lamports())
            .unwrap();
        **open_orders_acc.lamports.borrow_mut() = 0;

        // Mark the account as closed to prevent it from being used before
        // garbage collection.
        open_orders.account_flags = AccountFlag::Closed as u64;
""", """        open_orders.account_flags = AccountFlag::Closed as u64;

        let amount = open_orders_acc.lamports();
        let new_balance = dest_acc.lamports().checked_add(amount).unwrap();
        {
            let mut dest_lamports = dest_acc.lamports.borrow_mut();
            **dest_lamports = new_balance;
        }
        let mut own_lamports = open_orders_acc.lamports.borrow_mut();
        **own_lamports = 0;
"""))

ok('r-o-iter-loop', (ST, """                if self.bits == 0 {
                    None
                } else {
                    let next = self.bits.trailing_zeros();
                    let mask = 1u128 << next;
                    self.bits &= !mask;
                    Some(next as u8)
                }
            }
        }
        Iter {
            bits: !self.free_slot_bits,
        }
""", """                if self.bits == 0 {
                    return None;
                }
                let next = self.bits.trailing_zeros() as u8;
                self.bits &= self.bits - 1;
                Some(next)
            }
        }
        Iter {
            bits: self.free_slot_bits ^ std::u128::MAX,
        }
"""))
ok('r-o-iter-range', (ST, """        self.iter_filled_slots().filter_map(move |slot| {
            let client_order_id = NonZeroU64::new(self.client_order_ids[slot as usize])?;
            let order_id = self.orders[slot as usize];
            let side = self.slot_side(slot).unwrap();
            Some((client_order_id, order_id, side))
        })
""", """        (0..128u8)
            .filter(move |slot| !self.slot_is_free(*slot))
            .filter_map(move |slot| {
                let order_id = self.orders[slot as usize];
                let side = self.slot_side(slot).unwrap();
                NonZeroU64::new(self.client_order_ids[slot as usize])
                    .map(|client_order_id| (client_order_id, order_id, side))
            })
"""))
ok('r-o-add', (ST, """        if self.free_slot_bits == 0 {
            Err(DexErrorCode::TooManyOpenOrders)?;
        }
        let slot = self.free_slot_bits.trailing_zeros();
        check_assert!(self.slot_is_free(slot as u8))?;
        let slot_mask = 1u128 << slot;
        self.free_slot_bits &= !slot_mask;
        match side {
            Side::Bid => {
                self.is_bid_bits |= slot_mask;
            }
            Side::Ask => {
                self.is_bid_bits &= !slot_mask;
            }
        };
        self.orders[slot as usize] = id;
        Ok(slot as u8)
""", """        let slot = self.free_slot_bits.trailing_zeros() as u8;
        if slot >= 128 {
            return Err(DexErrorCode::TooManyOpenOrders.into());
        }
        let slot_mask = 1u128 << slot;
        let is_bid = side == Side::Bid;
        self.orders[slot as usize] = id;
        self.is_bid_bits = if is_bid {
            self.is_bid_bits | slot_mask
        } else {
            self.is_bid_bits & !slot_mask
        };
        self.free_slot_bits ^= slot_mask;
        Ok(slot)
"""))
ok('r-o-remove', (ST, """        check_assert!(slot < 128)?;
        check_assert!(!self.slot_is_free(slot))?;

        let slot_mask = 1u128 << slot;
        self.orders[slot as usize] = 0;
        self.client_order_ids[slot as usize] = 0;
        self.free_slot_bits |= slot_mask;
        self.is_bid_bits &= !slot_mask;
""", """        check_assert!(slot < 128)?;
        let occupied = self.slot_side(slot).is_some();
        check_assert!(occupied)?;

        let index = usize::from(slot);
        let slot_mask = 1u128 << slot;
        self.is_bid_bits &= !slot_mask;
        self.free_slot_bits = self.free_slot_bits | slot_mask;
        self.client_order_ids[index] = 0;
        self.orders[index] = 0;
"""))
ok('r-o-init', (ST, """        self.native_coin_total = 0;
        self.native_coin_free = 0;
        self.native_pc_total = 0;
        self.native_pc_free = 0;
        self.free_slot_bits = std::u128::MAX;
        Ok(())""", """        self.free_slot_bits = !0u128;
        self.native_coin_free = Default::default();
        self.native_coin_total = Default::default();
        self.native_pc_free = Default::default();
        self.native_pc_total = Default::default();
        Ok(())"""))
ok('r-o-unlock', (ST, """        self.native_pc_free = self.native_pc_free.checked_add(native_pc_amount).unwrap();
        assert!(self.native_pc_free <= self.native_pc_total);""", """        let new_free = self
            .native_pc_free
            .checked_add(native_pc_amount)
            .expect("overflow");
        if new_free > self.native_pc_total {
            panic!("free exceeds total");
        }
        self.native_pc_free = new_free;"""))

# ------------------------------------------------------------------ matching: more refactorings
ok('r-n-label-block', (MA, """        let mut accum_maker_rebates = 0;
        let crossed;
        let done = loop {
            let best_bid_h = match self.find_bbo(Side::Bid) {
                None => {
                    crossed = false;
                    break true;
                }
                Some(h) => h,
            };
""", """        let mut accum_maker_rebates = 0;
        let crossed;
        let done = 'fill: {
            let best_bid_h = match self.find_bbo(Side::Bid) {
                None => {
                    crossed = false;
                    break 'fill true;
                }
                Some(h) => h,
            };
"""), (MA, """            crossed = limit_price <= trade_price;

            if !crossed || post_only {
                break true;
            }

            let bid_size = best_bid_ref.quantity();
            let trade_qty = bid_size.min(unfilled_qty);

            if trade_qty == 0 {
                break true;
            }
""", """            crossed = trade_price >= limit_price;

            if post_only || !crossed {
                break 'fill true;
            }

            let bid_size = best_bid_ref.quantity();
            let trade_qty = unfilled_qty.min(bid_size);

            if trade_qty == 0 {
                break 'fill true;
            }
"""), (MA, """                self.orders_mut(Side::Bid)
                    .remove_by_key(best_bid_id)
                    .unwrap();
            }

            break false;
        };
""", """                self.orders_mut(Side::Bid)
                    .remove_by_key(best_bid_id)
                    .unwrap();
            }

            false
        };
"""))
ok('r-n-book-fees', (MA, """        let net_fees_before_referrer_rebate = native_taker_fee - accum_maker_rebates;
        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
        let net_fees = net_fees_before_referrer_rebate - referrer_rebate;

        self.market_state.referrer_rebates_accrued += referrer_rebate;
        self.market_state.pc_fees_accrued += net_fees;
        self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;


        if !done {""", """        self.book_fees(native_taker_fee, accum_maker_rebates);

        if !done {"""), (MA, """        let net_fees_before_referrer_rebate = native_taker_fee - accum_maker_rebates;
        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
        let net_fees = net_fees_before_referrer_rebate - referrer_rebate;

        self.market_state.referrer_rebates_accrued += referrer_rebate;
        self.market_state.pc_fees_accrued += net_fees;
        self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;

        if !done {""", """        self.book_fees(native_taker_fee, accum_maker_rebates);

        if !done {"""), (MA, """    pub(crate) fn cancel_order_v2(""", """    fn book_fees(&mut self, taker_fee: u64, maker_rebates: u64) {
        let withheld = taker_fee - maker_rebates;
        let referrer_share = fees::referrer_rebate(taker_fee);
        let market = &mut *self.market_state;
        market.pc_deposits_total -= withheld;
        market.pc_fees_accrued += withheld - referrer_share;
        market.referrer_rebates_accrued += referrer_share;
    }

    pub(crate) fn cancel_order_v2("""))
EV = """            let insert_result = offers.insert_leaf(&new_order);
            if let Err(SlabTreeError::OutOfSpace) = insert_result {
                // boot out the least aggressive offer
                msg!("offers full! booting...");
                let order = offers.remove_max().unwrap();
                let out = Event::new(EventView::Out {
                    side: Side::Ask,
                    release_funds: true,
                    native_qty_unlocked: order.quantity() * coin_lot_size,
                    native_qty_still_locked: 0,
                    order_id: order.order_id(),
                    owner: order.owner(),
                    owner_slot: order.owner_slot(),
                    client_order_id: NonZeroU64::new(order.client_order_id()),
                });
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                offers.insert_leaf(&new_order).unwrap();
            } else {
                insert_result.unwrap();
            }
"""
ok('r-n-evict-match', (MA, EV, """            match offers.insert_leaf(&new_order) {
                Ok(_) => (),
                Err(SlabTreeError::OutOfSpace) => {
                    // boot out the least aggressive offer
                    msg!("offers full! booting...");
                    let evicted = offers.remove_max().unwrap();
                    offers.insert_leaf(&new_order).unwrap();
                    let out = Event::new(EventView::Out {
                        side: Side::Ask,
                        release_funds: true,
                        native_qty_unlocked: coin_lot_size * evicted.quantity(),
                        native_qty_still_locked: 0,
                        order_id: evicted.order_id(),
                        owner: evicted.owner(),
                        owner_slot: evicted.owner_slot(),
                        client_order_id: NonZeroU64::new(evicted.client_order_id()),
                    });
                    if event_q.push_back(out).is_err() {
                        return Err(DexErrorCode::EventQueueFull.into());
                    }
                }
                Err(e) => panic!("{:?}", e),
            }
"""))
ok('r-n-evict-helper', (MA, EV, """            let evicted = Self::insert_evicting(offers, &new_order, Side::Ask);
            if let Some(order) = evicted {
                let out = Self::released_out(Side::Ask, &order, order.quantity() * coin_lot_size);
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
            }
"""), (MA, """            let insert_result = bids.insert_leaf(&new_leaf);
            if let Err(SlabTreeError::OutOfSpace) = insert_result {
                // boot out the least aggressive bid
                msg!("bids full! booting...");
                let order = bids.remove_min().unwrap();
                let out = Event::new(EventView::Out {
                    side: Side::Bid,
                    release_funds: true,
                    native_qty_unlocked: order.quantity() * order.price().get() * pc_lot_size,
                    native_qty_still_locked: 0,
                    order_id: order.order_id(),
                    owner: order.owner(),
                    owner_slot: order.owner_slot(),
                    client_order_id: NonZeroU64::new(order.client_order_id()),
                });
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                bids.insert_leaf(&new_leaf).unwrap();
            } else {
                insert_result.unwrap();
            }
""", """            if let Some(order) = Self::insert_evicting(bids, &new_leaf, Side::Bid) {
                let unlocked = order.price().get() * order.quantity() * pc_lot_size;
                let out = Self::released_out(Side::Bid, &order, unlocked);
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
            }
"""), (MA, """    pub(crate) fn cancel_order_v2(""", """    /// Inserts the leaf, booting out the least aggressive order of a full side.
    fn insert_evicting(book: &mut Slab, leaf: &LeafNode, side: Side) -> Option<LeafNode> {
        let insert_result = book.insert_leaf(leaf);
        if let Err(SlabTreeError::OutOfSpace) = insert_result {
            msg!("book full! booting...");
            let evicted = match side {
                Side::Bid => book.remove_min(),
                Side::Ask => book.remove_max(),
            };
            book.insert_leaf(leaf).unwrap();
            Some(evicted.unwrap())
        } else {
            insert_result.unwrap();
            None
        }
    }

    fn released_out(side: Side, order: &LeafNode, native_qty_unlocked: u64) -> Event {
        Event::new(EventView::Out {
            side,
            release_funds: true,
            native_qty_unlocked,
            native_qty_still_locked: 0,
            order_id: order.order_id(),
            owner: order.owner(),
            owner_slot: order.owner_slot(),
            client_order_id: NonZeroU64::new(order.client_order_id()),
        })
    }

    pub(crate) fn cancel_order_v2("""))
ok('r-n-selftrade-fn', (MA, """                let cancelled_provide_qty;
                let cancelled_take_qty;

                match self_trade_behavior {
                    SelfTradeBehavior::DecrementTake => {
                        cancelled_provide_qty = trade_qty;
                        cancelled_take_qty = trade_qty;
                    }
                    SelfTradeBehavior::CancelProvide => {
                        cancelled_provide_qty = best_bid_ref.quantity();
                        cancelled_take_qty = 0;
                    }
                    SelfTradeBehavior::AbortTransaction => {
                        return Err(DexErrorCode::WouldSelfTrade.into())
                    }
                };
""", """                let (cancelled_provide_qty, cancelled_take_qty) =
                    self_trade_cancels(self_trade_behavior, bid_size, trade_qty)?;
"""), (MA, """                let cancelled_take_qty;
                let cancelled_provide_qty;

                match self_trade_behavior {
                    SelfTradeBehavior::CancelProvide => {
                        cancelled_take_qty = 0;
                        cancelled_provide_qty = best_offer_ref.quantity();
                    }
                    SelfTradeBehavior::DecrementTake => {
                        cancelled_take_qty = trade_qty;
                        cancelled_provide_qty = trade_qty;
                    }
                    SelfTradeBehavior::AbortTransaction => {
                        return Err(DexErrorCode::WouldSelfTrade.into())
                    }
                };
""", """                let (cancelled_provide_qty, cancelled_take_qty) =
                    self_trade_cancels(self_trade_behavior, offer_size, trade_qty)?;
"""), (MA, """fn extract_price_from_order_id(""", """/// (quantity cancelled on the book, quantity cancelled of the incoming order)
fn self_trade_cancels(
    behavior: SelfTradeBehavior,
    resting: u64,
    overlap: u64,
) -> DexResult<(u64, u64)> {
    match behavior {
        SelfTradeBehavior::AbortTransaction => Err(DexErrorCode::WouldSelfTrade.into()),
        SelfTradeBehavior::CancelProvide => Ok((resting, 0)),
        SelfTradeBehavior::DecrementTake => Ok((overlap, overlap)),
    }
}

fn extract_price_from_order_id("""))
ok('r-n-remaining-match', (MA, """        if !done {
            if let Some(coin_qty_remaining) = NonZeroU64::new(coin_qty_remaining) {
                if let Some(native_pc_qty_remaining) = NonZeroU64::new(native_pc_qty_remaining) {
                    return Ok(Some(OrderRemaining {
                        coin_qty_remaining,
                        native_pc_qty_remaining: Some(native_pc_qty_remaining),
                    }));
                }
            }
        }
""", """        match (
            done,
            NonZeroU64::new(coin_qty_remaining),
            NonZeroU64::new(native_pc_qty_remaining),
        ) {
            (false, Some(coin_left), Some(pc_left)) => {
                return Ok(Some(OrderRemaining {
                    coin_qty_remaining: coin_left,
                    native_pc_qty_remaining: Some(pc_left),
                }));
            }
            _ => {}
        }
"""))
ok('r-n-cancel-helper', (MA, """        let native_qty_unlocked;
        match side {
            Side::Bid => {
                native_qty_unlocked =
                    leaf_node.quantity() * leaf_node.price().get() * self.market_state.pc_lot_size;
                open_orders.unlock_pc(native_qty_unlocked);
            }
            Side::Ask => {
                native_qty_unlocked = leaf_node.quantity() * self.market_state.coin_lot_size;
                open_orders.unlock_coin(native_qty_unlocked);
            }
        }
""", """        let native_qty_unlocked = self.locked_native_qty(&leaf_node, side);
        let unlock = match side {
            Side::Bid => OpenOrders::unlock_pc,
            Side::Ask => OpenOrders::unlock_coin,
        };
        unlock(open_orders, native_qty_unlocked);
"""), (MA, """    pub(crate) fn cancel_order_v2(""", """    fn locked_native_qty(&self, leaf: &LeafNode, side: Side) -> u64 {
        let lots = leaf.quantity();
        match side {
            Side::Bid => lots * leaf.price().get() * self.market_state.pc_lot_size,
            Side::Ask => lots * self.market_state.coin_lot_size,
        }
    }

    pub(crate) fn cancel_order_v2("""))
ok('r-n-neworder-loop', (MA, """            if *limit == 0 {
                return Ok(remaining_order);
            }
            *limit -= 1;
            match remaining_order {
                Some(remaining_order) => {
                    max_coin_qty = remaining_order.coin_qty_remaining;
                    native_pc_qty_locked = remaining_order.native_pc_qty_remaining;
                }
                None => return Ok(None),
            };
        }""", """            let next_limit = match limit.checked_sub(1) {
                None => return Ok(remaining_order),
                Some(n) => n,
            };
            *limit = next_limit;
            if let Some(rest) = remaining_order {
                native_pc_qty_locked = rest.native_pc_qty_remaining;
                max_coin_qty = rest.coin_qty_remaining;
                continue;
            }
            return Ok(None);
        }"""))
ok('r-n-post-early', (MA, """        let (coin_qty_to_post, pc_qty_to_keep_locked) = match limit_price {
            Some(price) if post_allowed && !crossed => {
                let coin_qty_to_post =
                    coin_qty_remaining.min(native_pc_qty_remaining / pc_lot_size / price.get());
                (coin_qty_to_post, coin_qty_to_post * price.get())
            }
            _ => (0, 0),
        };
""", """        let may_post = post_allowed && !crossed;
        let mut coin_qty_to_post = 0;
        let mut pc_qty_to_keep_locked = 0;
        if let (true, Some(price)) = (may_post, limit_price) {
            let price = price.get();
            let affordable = native_pc_qty_remaining / pc_lot_size / price;
            coin_qty_to_post = if affordable < coin_qty_remaining {
                affordable
            } else {
                coin_qty_remaining
            };
            pc_qty_to_keep_locked = price * coin_qty_to_post;
        }
"""))
ok('r-n-fill-vars', (MA, """            best_offer_ref.set_quantity(best_offer_ref.quantity() - trade_qty);
            coin_qty_remaining -= trade_qty;
            pc_qty_remaining -= trade_qty * trade_price.get();

            if best_offer_ref.quantity() == 0 {""", """            let left_on_book = offer_size - trade_qty;
            best_offer_ref.set_quantity(left_on_book);
            pc_qty_remaining -= trade_price.get() * trade_qty;
            coin_qty_remaining -= trade_qty;

            if left_on_book == 0 {"""))
ok('r-n-remove-handle', (MA, """        let asks_matching_open_orders = self
            .asks
            .find_by(&mut limit, |order| order.owner().eq(&open_orders));
        let bids_matching_open_orders = self
            .bids
            .find_by(&mut limit, |order| order.owner().eq(&open_orders));
        let bids_removed: Vec<LeafNode> = bids_matching_open_orders
            .iter()
            .filter_map(|order_to_remove| self.bids.remove_by_key(*order_to_remove))
            .collect();
        let asks_removed: Vec<LeafNode> = asks_matching_open_orders
            .iter()
            .filter_map(|order_to_remove| self.asks.remove_by_key(*order_to_remove))
            .collect();
        Ok((bids_removed, asks_removed))
""", """        fn remove_owned(book: &mut Slab, owner: &[u64; 4], limit: &mut u16) -> Vec<LeafNode> {
            let keys = book.find_by(limit, |order| order.owner() == *owner);
            let mut removed = Vec::with_capacity(keys.len());
            for key in keys {
                if let Some(leaf) = book.remove_by_key(key) {
                    removed.push(leaf);
                }
            }
            removed
        }
        let asks_removed = remove_owned(self.asks, &open_orders, &mut limit);
        let bids_removed = remove_owned(self.bids, &open_orders, &mut limit);
        Ok((bids_removed, asks_removed))
"""))
ok('r-n-crossed-bool', (MA, """            if native_taker_pc_qty > 0 && !is_send_take {
                let taker_fill""", """            let announce = !is_send_take && native_taker_pc_qty != 0;
            if announce {
                let taker_fill"""), (MA, """        if post_allowed && !crossed && unfilled_qty > 0 {
            check_assert!(!is_send_take)?;""", """        let should_post = !crossed && post_allowed && unfilled_qty != 0;
        if should_post {
            if is_send_take {
                return Err(assertion_error!().into());
            }"""))

# ---- third batch of behaviour-preserving rewrites
ok('r-k-loadorders-reorder', (ST, """        let mut open_orders: RefMut<'a, OpenOrders>;

        let open_orders_data_len = orders_account.data_len();
        let open_orders_lamports = orders_account.lamports();
        let (_, data) = strip_header::<[u8; 0], u8>(orders_account, true)?;
        open_orders = RefMut::map(data, |data| from_bytes_mut(data));

        if open_orders.account_flags == 0 {
            let oo_authority = open_orders_authority.map(|a| a.inner().key);
            if oo_authority != self.open_orders_authority() {
                return Err(DexErrorCode::InvalidOpenOrdersAuthority.into());
            }

            let rent = rent.ok_or(DexErrorCode::RentNotProvided)?;
            let owner_account = owner_account.ok_or(DexErrorCode::OwnerAccountNotProvided)?;
            if !rent.is_exempt(open_orders_lamports, open_orders_data_len) {
                return Err(DexErrorCode::OrdersNotRentExempt)?;
            }
            open_orders.init(
                &identity(self.own_address),
                &owner_account.key.to_aligned_bytes(),
            )?;
        }

        open_orders.check_flags()?;
        check_assert_eq!(identity(open_orders.market), identity(self.own_address))
            .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        if let Some(owner) = owner_account {
            check_assert_eq!(&identity(open_orders.owner), &owner.key.to_aligned_bytes())
                .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        }

        Ok(open_orders)""", """        let market_address = identity(self.own_address);
        let (data_len, lamports) = (orders_account.data_len(), orders_account.lamports());
        let (_, data) = strip_header::<[u8; 0], u8>(orders_account, true)?;
        let mut open_orders: RefMut<'a, OpenOrders> = RefMut::map(data, from_bytes_mut);

        let is_fresh = open_orders.account_flags == 0;
        if is_fresh {
            let provided = match open_orders_authority {
                Some(a) => Some(a.inner().key),
                None => None,
            };
            if provided != self.open_orders_authority() {
                return Err(DexErrorCode::InvalidOpenOrdersAuthority.into());
            }
            let rent = match rent {
                Some(r) => r,
                None => return Err(DexErrorCode::RentNotProvided.into()),
            };
            let new_owner = match owner_account {
                Some(a) => a.key.to_aligned_bytes(),
                None => return Err(DexErrorCode::OwnerAccountNotProvided.into()),
            };
            if lamports < rent.minimum_balance(data_len) {
                return Err(DexErrorCode::OrdersNotRentExempt.into());
            }
            open_orders.init(&market_address, &new_owner)?;
        }

        open_orders.check_flags()?;
        if identity(open_orders.market) != market_address {
            return Err(DexErrorCode::WrongOrdersAccount.into());
        }
        let recorded_owner = identity(open_orders.owner);
        match owner_account {
            Some(owner) if recorded_owner != owner.key.to_aligned_bytes() => {
                Err(DexErrorCode::WrongOrdersAccount.into())
            }
            _ => Ok(open_orders),
        }"""))
ok('r-k-v2-flags', (ST, """        if allow_disabled {
            let disabled_flags = required_flags | AccountFlag::Disabled;
            let disabled_crank_flags = required_crank_flags | AccountFlag::Disabled;
            if flags != required_flags
                && flags != required_crank_flags
                && flags != disabled_flags
                && flags != disabled_crank_flags
            {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }
        } else {
            if flags != required_flags && flags != required_crank_flags {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }
        }

        Ok(())""", """        let allowed = [
            required_flags,
            required_crank_flags,
            required_flags | AccountFlag::Disabled,
            required_crank_flags | AccountFlag::Disabled,
        ];
        let n_allowed = if allow_disabled { 4 } else { 2 };
        if allowed[..n_allowed].contains(&flags) {
            Ok(())
        } else {
            Err(DexErrorCode::InvalidMarketFlags.into())
        }"""))
ok('r-k-v2-flags2', (ST, """        if allow_disabled {
            let disabled_flags = required_flags | AccountFlag::Disabled;
            let disabled_crank_flags = required_crank_flags | AccountFlag::Disabled;
            if flags != required_flags
                && flags != required_crank_flags
                && flags != disabled_flags
                && flags != disabled_crank_flags
            {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }
        } else {
            if flags != required_flags && flags != required_crank_flags {
                return Err(DexErrorCode::InvalidMarketFlags.into());
            }
        }

        Ok(())""", """        let is_allowed = |f: BitFlags<AccountFlag>| f == required_flags || f == required_crank_flags;
        let ok = is_allowed(flags)
            || (allow_disabled
                && flags.contains(AccountFlag::Disabled)
                && is_allowed(flags & !BitFlags::from_flag(AccountFlag::Disabled)));
        if !ok {
            return Err(DexErrorCode::InvalidMarketFlags.into());
        }
        Ok(())"""))
ok('r-k-padding', (ST, """    check_assert!(data.len() >= 12)?;
    let (head, data, tail) = mut_array_refs![data, 5; ..; 7];
    check_assert_eq!(head, ACCOUNT_HEAD_PADDING)?;
    check_assert_eq!(tail, ACCOUNT_TAIL_PADDING)?;
    Ok(try_cast_slice_mut(data).or(check_unreachable!())?)""", """    const HEAD: usize = ACCOUNT_HEAD_PADDING.len();
    const TAIL: usize = ACCOUNT_TAIL_PADDING.len();
    check_assert!(data.len() >= HEAD + TAIL)?;
    let tail_at = data.len() - TAIL;
    let (rest, tail) = data.split_at_mut(tail_at);
    let (head, inner) = rest.split_at_mut(HEAD);
    check_assert!(head[..] == ACCOUNT_HEAD_PADDING[..] && tail[..] == ACCOUNT_TAIL_PADDING[..])?;
    Ok(try_cast_slice_mut(inner).or(check_unreachable!())?)"""))
ok('r-k-stripheader', (ST, """            let u64_data = match strip_account_padding(padded_data, init_allowed) {
                Ok(u64_data) => u64_data,
                Err(e) => {
                    result = Err(e);
                    return dummy_value;
                }
            };

            let data: &mut [u8] = cast_slice_mut(u64_data);
            let (header_bytes, inner_bytes) = data.split_at_mut(size_of::<H>());
            let header: &mut H;
            let inner: &mut [D];

            header = match try_from_bytes_mut(header_bytes) {
                Ok(h) => h,
                Err(_e) => {
                    result = Err(assertion_error!().into());
                    return dummy_value;
                }
            };
            inner = remove_slop_mut(inner_bytes);

            (std::slice::from_mut(header), inner)
""", """            let split = strip_account_padding(padded_data, init_allowed).and_then(|u64_data| {
                let data: &mut [u8] = cast_slice_mut(u64_data);
                let (header_bytes, inner_bytes) = data.split_at_mut(size_of::<H>());
                match try_from_bytes_mut::<H>(header_bytes) {
                    Ok(h) => Ok((std::slice::from_mut(h), remove_slop_mut(inner_bytes))),
                    Err(_e) => Err(assertion_error!().into()),
                }
            });
            match split {
                Ok(parts) => parts,
                Err(e) => {
                    result = Err(e);
                    dummy_value
                }
            }
"""))
ok('r-k-feetier', (ST, """        let mut aligned_data: [u64; 9] = Zeroable::zeroed();
        bytes_of_mut(&mut aligned_data).copy_from_slice(&data[..72]);
        let (mint, owner, &[balance]) = array_refs![&aligned_data, 4, 4, 1];

        check_assert_eq!(owner, expected_owner)?;
        if mint == &srm_token::ID.to_aligned_bytes() {
            return Ok(FeeTier::from_srm_and_msrm_balances(
                &market_addr,
                balance,
                0,
            ));
        }

        if mint == &msrm_token::ID.to_aligned_bytes() {
            return Ok(FeeTier::from_srm_and_msrm_balances(
                &market_addr,
                0,
                balance,
            ));
        }

        Ok(FeeTier::from_srm_and_msrm_balances(&market_addr, 0, 0))""", """        let mut aligned_data: [u64; 9] = Zeroable::zeroed();
        bytes_of_mut(&mut aligned_data).copy_from_slice(&data[..72]);
        let (mint, owner, &[balance]) = array_refs![&aligned_data, 4, 4, 1];

        check_assert_eq!(owner, expected_owner)?;
        let is_srm = *mint == srm_token::ID.to_aligned_bytes();
        let is_msrm = *mint == msrm_token::ID.to_aligned_bytes();
        let (srm, msrm) = match (is_srm, is_msrm) {
            (true, _) => (balance, 0),
            (false, true) => (0, balance),
            (false, false) => (0, 0),
        };
        Ok(FeeTier::from_srm_and_msrm_balances(&market_addr, srm, msrm))"""))
ok('r-k-oo-init', (ST, """        check_assert_eq!(self.account_flags, 0)?;
        self.account_flags = (AccountFlag::Initialized | AccountFlag::OpenOrders).bits();
        self.market = *market;
        self.owner = *owner;
        self.native_coin_total = 0;
        self.native_coin_free = 0;
        self.native_pc_total = 0;
        self.native_pc_free = 0;
        self.free_slot_bits = std::u128::MAX;
        Ok(())""", """        if self.account_flags != 0 {
            return Err(assertion_error!().into());
        }
        let (m, o) = (*market, *owner);
        self.owner = o;
        self.market = m;
        self.native_coin_free = 0;
        self.native_coin_total = 0;
        self.native_pc_free = 0;
        self.native_pc_total = 0;
        self.free_slot_bits = !0;
        self.account_flags = (AccountFlag::OpenOrders | AccountFlag::Initialized).bits();
        Ok(())"""))
ok('r-k-credit', (ST, """        self.native_coin_total = self
            .native_coin_total
            .checked_add(native_coin_amount)
            .unwrap();
    }
""", """        let total = self.native_coin_total;
        self.native_coin_total = match total.checked_add(native_coin_amount) {
            Some(t) => t,
            None => panic!("coin total overflow"),
        };
    }
"""), (ST, """        self.native_pc_free = self.native_pc_free.checked_sub(native_pc_amount).unwrap();
    }
""", """        let free = self.native_pc_free;
        assert!(native_pc_amount <= free);
        self.native_pc_free = free - native_pc_amount;
    }
"""))
ok('r-k-slots', (ST, """        let slot_mask = 1u128 << slot;
        self.free_slot_bits & slot_mask != 0
    }

    #[inline]
    fn iter_filled""", """        (self.free_slot_bits >> slot) & 1 == 1
    }

    #[inline]
    fn iter_filled"""))
ok('r-k-remove-order', (ST, """        check_assert!(slot < 128)?;
        check_assert!(!self.slot_is_free(slot))?;

        let slot_mask = 1u128 << slot;
        self.orders[slot as usize] = 0;
        self.client_order_ids[slot as usize] = 0;
        self.free_slot_bits |= slot_mask;
        self.is_bid_bits &= !slot_mask;

        Ok(())""", """        let index = slot as usize;
        check_assert!(index < 128)?;
        let slot_mask = 1u128 << index;
        if self.free_slot_bits & slot_mask != 0 {
            return Err(assertion_error!().into());
        }
        self.is_bid_bits &= !slot_mask;
        self.free_slot_bits |= slot_mask;
        self.client_order_ids[index] = 0;
        self.orders[index] = 0;
        Ok(())"""))
ok('r-k-orders-cids', (ST, """        self.iter_filled_slots().filter_map(move |slot| {
            let client_order_id = NonZeroU64::new(self.client_order_ids[slot as usize])?;
            let order_id = self.orders[slot as usize];
            let side = self.slot_side(slot).unwrap();
            Some((client_order_id, order_id, side))
        })""", """        self.iter_filled_slots().filter_map(move |slot| {
            let index = usize::from(slot);
            let order_id = self.orders[index];
            match NonZeroU64::new(self.client_order_ids[index]) {
                Some(cid) => self.slot_side(slot).map(|side| (cid, order_id, side)),
                None => None,
            }
        })"""))
ok('r-k-queue', (ST, """        let slot = ((self.header.head() + self.header.count()) as usize) % self.buf.len();
        self.buf[slot] = value;

        let count = self.header.count();
        self.header.set_count(count + 1);

        self.header.incr_event_id();
        Ok(())""", """        let count = self.header.count();
        let capacity = self.buf.len();
        let index = (self.header.head() + count) as usize % capacity;
        self.header.incr_event_id();
        self.header.set_count(count + 1);
        self.buf[index] = value;
        Ok(())"""), (ST, """        check_assert!(desired_len <= self.header.count())?;
        let len_diff = self.header.count() - desired_len;
        self.header.set_count(desired_len);
        self.header.decr_event_id(len_diff);
        Ok(())""", """        match self.header.count().checked_sub(desired_len) {
            Some(dropped) => {
                self.header.decr_event_id(dropped);
                self.header.set_count(desired_len);
                Ok(())
            }
            None => Err(assertion_error!().into()),
        }"""))
ok('r-k-queue-iter', (ST, """        if self.index == self.queue.len() {
            None
        } else {
            let item = &self.queue.buf
                [(self.queue.header.head() + self.index) as usize % self.queue.buf.len()];
            self.index += 1;
            Some(item)
        }""", """        if self.index >= self.queue.len() {
            return None;
        }
        let buf = &self.queue.buf;
        let position = (self.queue.header.head() + self.index) as usize;
        self.index += 1;
        buf.get(position % buf.len())"""), (ST, """        if self.empty() {
            return None;
        }
        Some(&self.buf[self.header.head() as usize])""", """        if !self.empty() {
            self.buf.get(self.header.head() as usize)
        } else {
            None
        }"""))
ok('r-k-event-new', (ST, """                let maker_flag = if maker {
                    BitFlags::from_flag(EventFlag::Maker).bits()
                } else {
                    0
                };
                let event_flags =
                    (EventFlag::from_side(side) | EventFlag::Fill).bits() | maker_flag;
                Event {""", """                let mut flags = EventFlag::from_side(side) | EventFlag::Fill;
                if maker {
                    flags |= EventFlag::Maker;
                }
                let event_flags = flags.bits();
                Event {"""), (ST, """                let release_funds_flag = if release_funds {
                    BitFlags::from_flag(EventFlag::ReleaseFunds).bits()
                } else {
                    0
                };
                let event_flags =
                    (EventFlag::from_side(side) | EventFlag::Out).bits() | release_funds_flag;
                Event {""", """                let mut event_flags = (EventFlag::from_side(side) | EventFlag::Out).bits();
                if release_funds {
                    event_flags |= EventFlag::ReleaseFunds as u8;
                }
                Event {"""))
ok('r-k-event-view', (ST, """        let flags = BitFlags::from_bits(self.event_flags).unwrap();
        let side = EventFlag::flags_to_side(flags);
        let client_order_id = NonZeroU64::new(self.client_order_id);
        if flags.contains(EventFlag::Fill) {
            let allowed_flags = {
                use EventFlag::*;
                Fill | Bid | Maker
            };
            check_assert!(allowed_flags.contains(flags))?;

            return Ok(EventView::Fill {""", """        let flags = BitFlags::<EventFlag>::from_bits(self.event_flags).unwrap();
        let side = match flags.contains(EventFlag::Bid) {
            true => Side::Bid,
            false => Side::Ask,
        };
        let client_order_id = NonZeroU64::new(self.client_order_id);
        let is_fill = flags.contains(EventFlag::Fill);
        if is_fill {
            let disallowed = EventFlag::Out | EventFlag::ReleaseFunds;
            check_assert!(!flags.intersects(disallowed))?;

            return Ok(EventView::Fill {"""))
ok('r-k-request-new', (ST, """                let mut flags = BitFlags::from_flag(RequestFlag::NewOrder);
                if side == Side::Bid {
                    flags.insert(RequestFlag::Bid);
                }
                match order_type {
                    OrderType::PostOnly => flags |= RequestFlag::PostOnly,
                    OrderType::ImmediateOrCancel => flags |= RequestFlag::ImmediateOrCancel,
                    OrderType::Limit => (),
                };
""", """                let side_flag = match side {
                    Side::Bid => BitFlags::from_flag(RequestFlag::Bid),
                    Side::Ask => BitFlags::empty(),
                };
                let type_flag = match order_type {
                    OrderType::PostOnly => BitFlags::from_flag(RequestFlag::PostOnly),
                    OrderType::ImmediateOrCancel => {
                        BitFlags::from_flag(RequestFlag::ImmediateOrCancel)
                    }
                    OrderType::Limit => BitFlags::empty(),
                };
                let flags = side_flag | type_flag | RequestFlag::NewOrder;
"""))
ok('r-k-loadbook', (ST, """        let (header, buf) = strip_header::<OrderBookStateHeader, u8>(bids, false)?;
        let flags = BitFlags::from_bits(header.account_flags).unwrap();
        check_assert_eq!(&flags, &(AccountFlag::Initialized | AccountFlag::Bids))?;
        Ok(RefMut::map(buf, Slab::new))""", """        Self::load_slab(bids, AccountFlag::Bids)"""), (ST, """        let (header, buf) = strip_header::<OrderBookStateHeader, u8>(asks, false)?;
        let flags = BitFlags::from_bits(header.account_flags).unwrap();
        check_assert_eq!(&flags, &(AccountFlag::Initialized | AccountFlag::Asks))?;
        Ok(RefMut::map(buf, Slab::new))
    }
""", """        Self::load_slab(asks, AccountFlag::Asks)
    }

    fn load_slab<'a>(book: &'a AccountInfo, kind: AccountFlag) -> DexResult<RefMut<'a, Slab>> {
        let (header, buf) = strip_header::<OrderBookStateHeader, u8>(book, false)?;
        let expected = (AccountFlag::Initialized | kind).bits();
        let found = identity(header.account_flags);
        if found != expected {
            return Err(assertion_error!().into());
        }
        Ok(RefMut::map(buf, Slab::new))
    }
"""))
ok('r-k-payer', (ST, """        if &payer.inner().try_borrow_data()?[..32] != transmute_to_bytes(&identity(self.coin_mint))
        {
            Err(DexErrorCode::WrongCoinMint)?
        }
        Ok(())""", """        let data = payer.inner().try_borrow_data()?;
        let mint = identity(self.coin_mint);
        let mint_bytes: &[u8] = cast_slice(&mint);
        match data[0..32] == *mint_bytes {
            true => Ok(()),
            false => Err(DexErrorCode::WrongCoinMint.into()),
        }"""))
ok('r-k-enabled', (ST, """        let flags = BitFlags::from_bits(self.account_flags).unwrap();
        if flags.contains(AccountFlag::Disabled) {
            return Err(DexErrorCode::MarketIsDisabled.into());
        }
        Ok(())""", """        let raw = self.account_flags;
        if raw & (AccountFlag::Disabled as u64) == 0 {
            Ok(())
        } else {
            Err(DexErrorCode::MarketIsDisabled.into())
        }"""))

ok('r-l-settle-parser', (ST, """            let spl_token_program = SplTokenProgram::new(spl_token_program_acc)?;
            let market = Market::load(market_acc, program_id, true)?;
            let owner = SignerAccount::new(owner_acc).or(check_unreachable!())?;

            let coin_vault =
                CoinVault::from_account(coin_vault_acc, &market).or(check_unreachable!())?;
            let pc_vault = PcVault::from_account(pc_vault_acc, &market).or(check_unreachable!())?;
            let coin_wallet =
                CoinWallet::from_account(coin_wallet_acc, &market).or(check_unreachable!())?;
            let pc_wallet =
                PcWallet::from_account(pc_wallet_acc, &market).or(check_unreachable!())?;

            let referrer = match remaining_accounts {
                &[] => None,
                &[ref referrer_acc] => {
                    Some(PcWallet::from_account(referrer_acc, &market).or(check_unreachable!())?)
                }
                _ => check_unreachable!()?,
            };

            let vault_signer = VaultSigner::new(vault_signer_acc, &market, program_id)?;

            let mut open_orders = market.load_orders_mut(
                open_orders_acc,
                Some(owner.inner()),
                program_id,
                None,
                None,
            )?;
""", """            let owner = SignerAccount::new(owner_acc).or(check_unreachable!())?;
            let market = Market::load(market_acc, program_id, true)?;
            let mut open_orders = market.load_orders_mut(
                open_orders_acc,
                Some(owner.inner()),
                program_id,
                None,
                None,
            )?;
            let vault_signer = VaultSigner::new(vault_signer_acc, &market, program_id)?;
            let referrer = remaining_accounts
                .first()
                .map(|acc| PcWallet::from_account(acc, &market))
                .transpose()
                .or(check_unreachable!())?;
            let pc_wallet =
                PcWallet::new(TokenAccount::new(pc_wallet_acc)?, &market).or(check_unreachable!())?;
            let coin_wallet =
                CoinWallet::new(TokenAccount::new(coin_wallet_acc)?, &market).or(check_unreachable!())?;
            let pc_vault = PcVault::from_account(pc_vault_acc, &market).or(check_unreachable!())?;
            let coin_vault =
                CoinVault::from_account(coin_vault_acc, &market).or(check_unreachable!())?;
            let spl_token_program = SplTokenProgram::new(spl_token_program_acc)?;
"""))
ok('r-l-consume-parser', (ST, """            check_assert!(accounts.len() >= 4)?;
            #[rustfmt::skip]
            let (
                &[],
                open_orders_accounts,
                &[
                    ref market_acc,
                    ref event_q_acc,
                    ref consume_events_auth,
                ]
            ) = array_refs![accounts, 0; .. ; 3];
            let market = Market::load(market_acc, program_id, true)?;
            check_assert!(consume_events_auth.is_signer)?;
            check_assert_eq!(
                Some(consume_events_auth.key),
                market.consume_events_authority()
            )?;
""", """            check_assert!(accounts.len() > 3)?;
            let n_open_orders = accounts.len() - 3;
            let (open_orders_accounts, fixed) = accounts.split_at(n_open_orders);
            let market_acc = &fixed[0];
            let event_q_acc = &fixed[1];
            let consume_events_auth = SignerAccount::new(&fixed[2])?;
            let market = Market::load(market_acc, program_id, true)?;
            match market.consume_events_authority() {
                Some(key) if key == consume_events_auth.inner().key => {}
                _ => return Err(assertion_error!().into()),
            }
"""))
ok('r-l-consume-parser2', (ST, """            check_assert!(accounts.len() >= 5)?;
            #[rustfmt::skip]
            let (
                &[],
                open_orders_accounts,
                &[
                    ref market_acc,
                    ref event_q_acc,
                ],
                _
            ) = array_refs![accounts, 0; .. ; 2, 2];
            let market = Market::load(market_acc, program_id, true)?;
            check_assert!(market.consume_events_authority().is_none())?;
""", """            check_assert!(accounts.len() >= 5)?;
            let (rest, _unused) = accounts.split_at(accounts.len() - 2);
            let (open_orders_accounts, fixed) = rest.split_at(rest.len() - 2);
            let (market_acc, event_q_acc) = (&fixed[0], &fixed[1]);
            let market = Market::load(market_acc, program_id, true)?;
            if market.consume_events_authority().is_some() {
                return Err(assertion_error!().into());
            }
"""))
ok('r-l-prune-parser', (ST, """            let _prune_authority = SignerAccount::new(prune_auth_acc)?;
            let mut market = Market::load(market_acc, program_id, false)?;
            check_assert!(market.prune_authority() == Some(prune_auth_acc.key))?;
            let open_orders_address = open_orders_acc.key;
""", """            let mut market = Market::load(market_acc, program_id, false)?;
            let expected = market.prune_authority();
            let open_orders_address = open_orders_acc.key;
            if !prune_auth_acc.is_signer || expected != Some(prune_auth_acc.key) {
                return Err(assertion_error!().into());
            }
"""))
ok('r-l-close-parser', (ST, """            if open_orders.free_slot_bits != std::u128::MAX {
                return Err(DexErrorCode::TooManyOpenOrders.into());
            }
            if open_orders.native_coin_total != 0 {
                solana_program::msg!(
                    "Base currency total must be zero to close the open orders account"
                );
                return Err(DexErrorCode::TooManyOpenOrders.into());
            }
            if open_orders.native_pc_total != 0 {
                solana_program::msg!(
                    "Quote currency total must be zero to close the open orders account"
                );
                return Err(DexErrorCode::TooManyOpenOrders.into());
            }
""", """            let has_orders = open_orders.iter_filled_slots().next().is_some();
            let has_funds =
                open_orders.native_coin_total != 0 || open_orders.native_pc_total != 0;
            if has_funds {
                solana_program::msg!(
                    "Both currency totals must be zero to close the open orders account"
                );
            }
            if has_orders || has_funds {
                return Err(DexErrorCode::TooManyOpenOrders.into());
            }
"""))
ok('r-l-initoo-parser', (ST, """            let oo_authority = (&accounts[4..])
                .first()
                .map(|acc| SignerAccount::new(acc))
                .transpose()?;

            // Dynamic""", """            let oo_authority = match accounts.get(4) {
                Some(acc) => Some(SignerAccount::new(acc)?),
                None => None,
            };

            // Dynamic"""))
ok('r-l-disable-parser', (ST, """            check_assert_eq!(accounts.len(), 2)?;
            let &[ref market_acc, ref signer_acc] = array_ref![accounts, 0, 2];
            let mut market = Market::load(market_acc, program_id, false)?;
            let authorization = SigningDisableAuthority::new(signer_acc)?;
""", """            let (market_acc, signer_acc) = match accounts {
                [m, s] => (m, s),
                _ => return Err(assertion_error!().into()),
            };
            let authorization = SigningDisableAuthority::new(signer_acc)?;
            let mut market = Market::load(market_acc, program_id, false)?;
"""))
ok('r-l-sweep-parser', (ST, """            let market = Market::load(market_acc, program_id, false)?;
            let pc_vault = PcVault::from_account(pc_vault_acc, &market)?;
            let fee_receiver = PcWallet::from_account(pc_wallet_acc, &market)?;
            let vault_signer = VaultSigner::new(vault_signer_acc, &market, program_id)?;
            let spl_token_program = SplTokenProgram::new(spl_token_program)?;
            let authorization = SigningFeeSweeper::new(sweep_authority_acc)?;

            let args = SweepFeesArgs {
                market,
                pc_vault,
                fee_receiver,
                vault_signer,
                spl_token_program,
                authorization,
            };
            f(args)""", """            let authorization = SigningFeeSweeper::new(sweep_authority_acc)?;
            let market = Market::load(market_acc, program_id, false)?;
            f(SweepFeesArgs {
                pc_vault: PcVault::from_account(pc_vault_acc, &market)?,
                fee_receiver: PcWallet::from_account(pc_wallet_acc, &market)?,
                vault_signer: VaultSigner::new(vault_signer_acc, &market, program_id)?,
                spl_token_program: SplTokenProgram::new(spl_token_program)?,
                authorization,
                market,
            })"""))
ok('r-l-cancelids-parser', (ST, """            let client_order_ids = client_order_ids
                .iter()
                .cloned()
                .filter_map(NonZeroU64::new)
                .collect::<Vec<NonZeroU64>>();

            let mut market""", """            let mut ids: Vec<NonZeroU64> = Vec::with_capacity(client_order_ids.len());
            for raw_id in client_order_ids.iter() {
                if let Some(id) = NonZeroU64::new(*raw_id) {
                    ids.push(id);
                }
            }
            let client_order_ids = ids;

            let mut market"""))
ok('r-l-token-wrapper', (ST, """    declare_validated_account_wrapper!(TokenAccount, |account: &AccountInfo| {
        check_assert_eq!(*account.owner, spl_token::ID)?;
        let data = account.try_borrow_data()?;
        check_assert_eq!(data.len(), spl_token::state::Account::LEN)?;

        let is_initialized = data[0x6c];
        check_assert_eq!(is_initialized, 1u8)?;
        Ok(())
    });""", """    fn check_spl_account(account: &AccountInfo, len: usize, state_offset: usize) -> DexResult {
        check_assert_eq!(*account.owner, spl_token::ID)?;
        let data = account.try_borrow_data()?;
        check_assert_eq!(data.len(), len)?;
        check_assert_eq!(data[state_offset], 1u8)?;
        Ok(())
    }

    declare_validated_account_wrapper!(TokenAccount, |account: &AccountInfo| {
        check_spl_account(account, spl_token::state::Account::LEN, 0x6c)
    });"""), (ST, """        check_assert_eq!(*mint.owner, spl_token::ID)?;
        let data = mint.try_borrow_data()?;
        check_assert_eq!(data.len(), spl_token::state::Mint::LEN)?;

        let is_initialized = data[0x2d];
        check_assert_eq!(is_initialized, 1u8)?;
        Ok(())""", """        check_spl_account(mint, spl_token::state::Mint::LEN, 0x2d)"""))
ok('r-l-init-vaults', (ST, """            let mut checked_vaults = [None, None];
            for account""", """            for account"""), (ST, """            for i in 0..=1 {
                let vault = TokenAccount::new(&unchecked_vaults[i])?;
                let mint = TokenMint::new(&unchecked_mints[i])?;
""", """            let check_vault = |i: usize| -> DexResult<TokenAccountAndMint<'a, 'b>> {
                let vault = TokenAccount::new(&unchecked_vaults[i])?;
                let mint = TokenMint::new(&unchecked_mints[i])?;
"""), (ST, """                checked_vaults[i] = Some(TokenAccountAndMint::new(vault, mint)?);
            }
            let [coin_vault_and_mint, pc_vault_and_mint] = match checked_vaults {
                [Some(cvm), Some(pvm)] => [cvm, pvm],
                _ => check_unreachable!()?,
            };
""", """                TokenAccountAndMint::new(vault, mint)
            };
            let coin_vault_and_mint = check_vault(0)?;
            let pc_vault_and_mint = check_vault(1)?;
"""))
ok('r-l-init-rent', (ST, """                let end_idx = accounts.len() - remaining_accounts.len() - 1;
                for account in &accounts[1..end_idx] {
                    let data_len = account.data_len();
                    let lamports = account.lamports();
                    check_assert!(rent.is_exempt(lamports, data_len))?;
                }
""", """                for account in accounts.iter().take(9).skip(1) {
                    if account.lamports() < rent.minimum_balance(account.data_len()) {
                        return Err(assertion_error!().into());
                    }
                }
"""))
ok('r-l-slop', (ST, """    let slop = bytes.len() % size_of::<T>();
    let new_len = bytes.len() - slop;
    cast_slice_mut(&mut bytes[..new_len])""", """    let n_items = bytes.len() / size_of::<T>();
    let (items, _slop) = bytes.split_at_mut(n_items * size_of::<T>());
    cast_slice_mut(items)"""))
ok('r-l-balance', (ST, """            let data = self.inner().try_borrow_data()?;
            Ok(u64::from_le_bytes(*array_ref![data, 64, 8]))""", """            let data = self.inner().try_borrow_data()?;
            let mut amount = [0u8; 8];
            amount.copy_from_slice(&data[64..72]);
            Ok(u64::from_le_bytes(amount))"""))

# ------------------------------------------------------------------ handlers: behaviour-preserving rewrites (h)
ok('r-h-take-tuple', (ST, """        // Amount that user deposits into the program
        let deposit_amount;
        // Amount that user receives after the exchange 
        let withdraw_amount;

        // Token accounts for transfers
        let deposit_vault;
        let withdraw_vault;
        let deposit_source;
        let withdraw_destination;

        match instruction.side {
            Side::Bid => {
                deposit_amount = native_pc_debit;
                withdraw_amount = coin_credit.checked_mul(coin_lot_size).unwrap();
                deposit_vault = pc_vault.token_account();
                deposit_source = pc_wallet.token_account();
                withdraw_destination = coin_wallet.token_account();
                withdraw_vault = coin_vault.token_account();

                market_state.pc_deposits_total += deposit_amount;
                check_assert!(market_state.coin_deposits_total >= withdraw_amount)?;
                market_state.coin_deposits_total -= withdraw_amount;
            }
            Side::Ask => {
                deposit_amount = coin_debit.checked_mul(coin_lot_size).unwrap();
                withdraw_amount = native_pc_credit;
                deposit_vault = coin_vault.token_account();
                deposit_source = coin_wallet.token_account();
                withdraw_destination = pc_wallet.token_account();
                withdraw_vault = pc_vault.token_account();

                market_state.coin_deposits_total += deposit_amount;
                check_assert!(market_state.pc_deposits_total >= withdraw_amount)?;
                market_state.pc_deposits_total -= withdraw_amount;
            }
        };
""", """        let is_bid = instruction.side == Side::Bid;
        let coin_in = coin_debit.checked_mul(coin_lot_size);
        let coin_out = coin_credit.checked_mul(coin_lot_size);
        let (deposit_amount, withdraw_amount) = if is_bid {
            (native_pc_debit, coin_out.unwrap())
        } else {
            (coin_in.unwrap(), native_pc_credit)
        };
        let (coin_side, pc_side) = (
            (coin_wallet.token_account(), coin_vault.token_account()),
            (pc_wallet.token_account(), pc_vault.token_account()),
        );
        let ((deposit_source, deposit_vault), (withdraw_destination, withdraw_vault)) =
            if is_bid { (pc_side, coin_side) } else { (coin_side, pc_side) };
        let (total_in, total_out) = if is_bid {
            (market_state.pc_deposits_total, market_state.coin_deposits_total)
        } else {
            (market_state.coin_deposits_total, market_state.pc_deposits_total)
        };
        check_assert!(!(total_out < withdraw_amount))?;
        let (new_in, new_out) = (total_in + deposit_amount, total_out - withdraw_amount);
        if is_bid {
            market_state.pc_deposits_total = new_in;
            market_state.coin_deposits_total = new_out;
        } else {
            market_state.coin_deposits_total = new_in;
            market_state.pc_deposits_total = new_out;
        }
"""))
ok('r-h-deposit-fn', (ST, """    fn process_prune(args: account_parser::PruneArgs) -> DexResult {""", """    fn pull_deposit<'a, 'b: 'a>(
        amount: u64,
        source: account_parser::TokenAccount<'a, 'b>,
        vault: account_parser::TokenAccount<'a, 'b>,
        authority: &'a AccountInfo<'b>,
        token_program: account_parser::SplTokenProgram<'a, 'b>,
    ) -> DexResult {
        if amount == 0 {
            return Ok(());
        }
        let before = vault.balance()?;
        let ix = spl_token::instruction::transfer(
            &spl_token::ID,
            source.inner().key,
            vault.inner().key,
            authority.key,
            &[],
            amount,
        )
        .unwrap();
        let infos = [
            source.inner().clone(),
            vault.inner().clone(),
            authority.clone(),
            token_program.inner().clone(),
        ];
        if let Err(err) = invoke_spl_token(&ix, &infos, &[]) {
            let code = match err {
                ProgramError::Custom(i)
                    if matches!(TokenError::from_u32(i), Some(TokenError::InsufficientFunds)) =>
                {
                    DexErrorCode::InsufficientFunds
                }
                _ => DexErrorCode::TransferFailed,
            };
            return Err(code.into());
        }
        let moved = vault.balance()?.checked_sub(before);
        check_assert_eq!(moved, Some(amount))?;
        Ok(())
    }

    fn process_prune(args: account_parser::PruneArgs) -> DexResult {"""),
   (ST, """        if deposit_amount != 0 {
            let balance_before = deposit_vault.balance()?;
            let deposit_instruction = spl_token::instruction::transfer(
                &spl_token::ID,
                deposit_source.inner().key,
                deposit_vault.inner().key,
                signer.inner().key,
                &[],
                deposit_amount,
            )
            .unwrap();
            invoke_spl_token(
                &deposit_instruction,
                &[
                    deposit_source.inner().clone(),
                    deposit_vault.inner().clone(),
                    signer.inner().clone(),
                    spl_token_program.inner().clone(),
                ],
                &[],
            )
            .map_err(|err| match err {
                ProgramError::Custom(i) => match TokenError::from_u32(i) {
                    Some(TokenError::InsufficientFunds) => DexErrorCode::InsufficientFunds,
                    _ => DexErrorCode::TransferFailed,
                },
                _ => DexErrorCode::TransferFailed,
            })?;
            let balance_after = deposit_vault.balance()?;
            let balance_change = balance_after.checked_sub(balance_before);
            check_assert_eq!(Some(deposit_amount), balance_change)?;
        }

        let nonce""", """        Self::pull_deposit(
            deposit_amount,
            deposit_source,
            deposit_vault,
            signer.inner(),
            spl_token_program,
        )?;

        let nonce"""),
   (ST, """        if deposit_amount != 0 {
            let balance_before = deposit_vault.balance()?;
            let deposit_instruction = spl_token::instruction::transfer(
                &spl_token::ID,
                payer.inner().key,
                deposit_vault.inner().key,
                owner.inner().key,
                &[],
                deposit_amount,
            )
            .unwrap();
            invoke_spl_token(
                &deposit_instruction,
                &[
                    payer.inner().clone(),
                    deposit_vault.inner().clone(),
                    owner.inner().clone(),
                    spl_token_program.inner().clone(),
                ],
                &[],
            )
            .map_err(|err| match err {
                ProgramError::Custom(i) => match TokenError::from_u32(i) {
                    Some(TokenError::InsufficientFunds) => DexErrorCode::InsufficientFunds,
                    _ => DexErrorCode::TransferFailed,
                },
                _ => DexErrorCode::TransferFailed,
            })?;
            let balance_after = deposit_vault.balance()?;
            let balance_change = balance_after.checked_sub(balance_before);
            check_assert_eq!(Some(deposit_amount), balance_change)?;
        }

        Ok(())""", """        Self::pull_deposit(
            deposit_amount,
            payer,
            deposit_vault,
            owner.inner(),
            spl_token_program,
        )"""))
ok('r-h-take-abort', (ST, """        let abort = match instruction.side {
            Side::Bid if coin_credit < instruction.min_coin_qty => true,
            Side::Ask if native_pc_credit < instruction.min_native_pc_qty => true,
            _ => false,
        };

        if abort {
            solana_program::msg!("Min amount requested not met! Aborting");
            return Err(DexErrorCode::MinAmountNotMet.into());
        };
""", """        let (received, wanted) = match instruction.side {
            Side::Bid => (coin_credit, instruction.min_coin_qty),
            Side::Ask => (native_pc_credit, instruction.min_native_pc_qty),
        };
        received.checked_sub(wanted).ok_or_else(|| {
            solana_program::msg!("Min amount requested not met! Aborting");
            DexErrorCode::MinAmountNotMet
        })?;
"""))
ok('r-h-prune-chain', (ST, """        for bid in bids_removed {
            let order_id = open_orders.orders[bid.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                bid,
                Side::Bid,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }

        for ask in asks_removed {
            let order_id = open_orders.orders[ask.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                ask,
                Side::Ask,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }

        Ok(())""", """        let bids = bids_removed.into_iter().map(|leaf| (Side::Bid, leaf));
        let asks = asks_removed.into_iter().map(|leaf| (Side::Ask, leaf));
        for (side, leaf) in bids.chain(asks) {
            let slot = leaf.owner_slot() as usize;
            let order_id = open_orders.orders[slot];
            order_book_state.cancel_leaf_node(
                leaf,
                side,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }

        Ok(())"""))
ok('r-h-prune-fn', (ST, """        for bid in bids_removed {
            let order_id = open_orders.orders[bid.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                bid,
                Side::Bid,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }

        for ask in asks_removed {
            let order_id = open_orders.orders[ask.owner_slot() as usize];
            order_book_state.cancel_leaf_node(
                ask,
                Side::Ask,
                open_orders,
                open_orders_addr_bytes,
                order_id,
                &mut event_q,
            )?;
        }

        Ok(())""", """        let mut cancel_each = |leaves: Vec<crate::critbit::LeafNode>, side: Side| -> DexResult {
            leaves.into_iter().try_for_each(|leaf| {
                let order_id = open_orders.orders[leaf.owner_slot() as usize];
                order_book_state.cancel_leaf_node(
                    leaf,
                    side,
                    open_orders,
                    open_orders_addr_bytes,
                    order_id,
                    &mut event_q,
                )
            })
        };
        cancel_each(bids_removed, Side::Bid)?;
        cancel_each(asks_removed, Side::Ask)"""))
ok('r-h-close', (ST, """        // Transfer all lamports to the destination.
        let dest_starting_lamports = dest_acc.lamports();
        **dest_acc.lamports.borrow_mut() = dest_starting_lamports
            .checked_add(open_orders_acc.lamports())
            .unwrap();
        **open_orders_acc.lamports.borrow_mut() = 0;

        // Mark the account as closed to prevent it from being used before
        // garbage collection.
        open_orders.account_flags = AccountFlag::Closed as u64;
""", """        open_orders.account_flags = BitFlags::from(AccountFlag::Closed).bits();

        let rent = open_orders_acc.lamports();
        let mut dest_lamports = dest_acc.try_borrow_mut_lamports()?;
        let total = dest_lamports.checked_add(rent).unwrap();
        **dest_lamports = total;
        drop(dest_lamports);
        **open_orders_acc.try_borrow_mut_lamports()? = 0;
"""))
ok('r-h-settle-take', (ST, """        let native_coin_amount = open_orders.native_coin_free;
        let native_pc_amount = open_orders.native_pc_free;

        market.coin_deposits_total -= native_coin_amount;
        market.pc_deposits_total -= native_pc_amount;

        open_orders.native_coin_free = 0;
        open_orders.native_pc_free = 0;

        open_orders.native_coin_total = open_orders
            .native_coin_total
            .checked_sub(native_coin_amount)
            .unwrap();
        open_orders.native_pc_total = open_orders
            .native_pc_total
            .checked_sub(native_pc_amount)
            .unwrap();
""", """        let native_coin_amount = std::mem::replace(&mut { open_orders.native_coin_free }, 0);
        let native_pc_amount = open_orders.native_pc_free;
        open_orders.native_coin_free = 0;
        open_orders.native_pc_free -= native_pc_amount;

        let remaining = |total: u64, taken: u64| total.checked_sub(taken).unwrap();
        open_orders.native_coin_total = remaining(open_orders.native_coin_total, native_coin_amount);
        open_orders.native_pc_total = remaining(open_orders.native_pc_total, native_pc_amount);

        market.coin_deposits_total -= native_coin_amount;
        market.pc_deposits_total -= native_pc_amount;
"""))
ok('r-h-settle-two', (ST, """        for &(token_amount, wallet_account, vault) in token_infos.iter() {
            send_from_vault(
                token_amount,
                wallet_account,
                vault,
                spl_token_program,
                vault_signer,
                &vault_signer_seeds,
            )?;
        }

        match referrer {
            Some(referrer_pc_wallet) if open_orders.referrer_rebates_accrued > 0 => {
                send_from_vault(
                    open_orders.referrer_rebates_accrued,
                    referrer_pc_wallet.token_account(),
                    pc_vault.token_account(),
                    spl_token_program,
                    vault_signer,
                    &vault_signer_seeds,
                )?;
            }
            _ => {
                market.pc_fees_accrued += open_orders.referrer_rebates_accrued;
            }
        };
        market.referrer_rebates_accrued -= open_orders.referrer_rebates_accrued;
        open_orders.referrer_rebates_accrued = 0;

        Ok(())""", """        let send = |amount: u64, to, vault| {
            send_from_vault(
                amount,
                to,
                vault,
                spl_token_program,
                vault_signer,
                &vault_signer_seeds,
            )
        };
        let [(coin_amount, coin_to, coin_from), (pc_amount, pc_to, pc_from)] = token_infos;
        send(coin_amount, coin_to, coin_from)?;
        send(pc_amount, pc_to, pc_from)?;

        let rebates = open_orders.referrer_rebates_accrued;
        if rebates != 0 {
            if let Some(w) = referrer {
                send(rebates, w.token_account(), pc_vault.token_account())?;
            } else {
                market.pc_fees_accrued += rebates;
            }
            market.referrer_rebates_accrued -= rebates;
            open_orders.referrer_rebates_accrued = 0;
        }

        Ok(())"""))
ok('r-h-cancelid-loop', (ST, """        let (_, order_id, side) = open_orders
            .orders_with_client_ids()
            .find(|entry| client_order_id == entry.0)
            .ok_or(DexErrorCode::ClientIdNotFound)?;
        order_book_state.cancel_order_v2(""", """        let mut found = None;
        for (id, order_id, side) in open_orders.orders_with_client_ids() {
            if id == client_order_id {
                found = Some((order_id, side));
                break;
            }
        }
        let (order_id, side) = match found {
            Some(order) => order,
            None => return Err(DexErrorCode::ClientIdNotFound.into()),
        };
        order_book_state.cancel_order_v2("""))
ok('r-h-cancelids-iter', (ST, """        let mut orders = Vec::new();
        for (client_order_id, order_id, side) in open_orders.orders_with_client_ids() {
            if client_order_ids.contains(&client_order_id) {
                orders.push((order_id, side));
            }
        }
""", """        let orders: Vec<(u128, Side)> = open_orders
            .orders_with_client_ids()
            .filter(|(id, _, _)| client_order_ids.iter().any(|wanted| wanted == id))
            .map(|(_, order_id, side)| (order_id, side))
            .collect();
"""), (ST, """                match err {
                    DexError::ErrorCode(code) => {
                        if code == DexErrorCode::OrderNotFound {
                            continue;
                        }
                        return Err(err);
                    }
                    _ => return Err(err)
                }
            }
        }

        Ok(())""", """                if !matches!(err, DexError::ErrorCode(DexErrorCode::OrderNotFound)) {
                    return Err(err);
                }
            }
        }

        Ok(())"""))
ok('r-h-cancelids-match', (ST, """            if let Err(err) = order_book_state.cancel_order_v2(
                side,
                open_orders_address,
                open_orders,
                order_id,
                &mut event_q,
            ) {
                // Cancel returns OrderNotFound when the order isn't in bids or
                // asks. In this case, no Serum state is modified so it is safe
                // to continue. Any other type of error could be accompanied by
                // a partial state change, so we must error. For example, if the
                // event queue is full, we should abort to prevent the cancelled
                // order from being removed from bids/asks.
                match err {
                    DexError::ErrorCode(code) => {
                        if code == DexErrorCode::OrderNotFound {
                            continue;
                        }
                        return Err(err);
                    }
                    _ => return Err(err)
                }
            }
        }

        Ok(())""", """            let outcome = order_book_state.cancel_order_v2(
                side,
                open_orders_address,
                open_orders,
                order_id,
                &mut event_q,
            );
            match outcome {
                Ok(()) | Err(DexError::ErrorCode(DexErrorCode::OrderNotFound)) => (),
                Err(other) => return Err(other),
            }
        }

        Ok(())"""))
ok('r-h-consume-while', (ST, """        for _i in 0u16..limit {
            let event = match event_q.peek_front() {
                None => break,
                Some(e) => e,
            };

            let view = event.as_view()?;
            let owner: [u64; 4] = event.owner;""", """        let mut processed = 0u16;
        while processed < limit {
            processed += 1;
            let event = if let Some(e) = event_q.peek_front() { e } else { return Ok(()) };

            let view = event.as_view()?;
            let owner: [u64; 4] = event.owner;"""),
   (ST, """                Err(_) => break,
                Ok(i) => market.load_orders_mut(""", """                Err(_) => return Ok(()),
                Ok(i) => market.load_orders_mut("""))
ok('r-h-consume-fill', (ST, """                    match side {
                        Side::Bid if maker => {
                            open_orders.native_pc_total -= native_qty_paid;
                            open_orders.native_coin_total += native_qty_received;
                            open_orders.native_coin_free += native_qty_received;
                            open_orders.native_pc_free += native_fee_or_rebate;
                        }
                        Side::Ask if maker => {
                            open_orders.native_coin_total -= native_qty_paid;
                            open_orders.native_pc_total += native_qty_received;
                            open_orders.native_pc_free += native_qty_received;
                        }
                        _ => (),
                    };
                    if !maker {
                        let referrer_rebate = fees::referrer_rebate(native_fee_or_rebate);
                        open_orders.referrer_rebates_accrued += referrer_rebate;
                    }""", """                    let oo: &mut OpenOrders = &mut open_orders;
                    match (maker, side) {
                        (true, Side::Bid) => {
                            let coin_total = oo.native_coin_total + native_qty_received;
                            let coin_free = oo.native_coin_free + native_qty_received;
                            oo.native_pc_total = oo.native_pc_total - native_qty_paid;
                            oo.native_pc_free = oo.native_pc_free + native_fee_or_rebate;
                            oo.native_coin_total = coin_total;
                            oo.native_coin_free = coin_free;
                        }
                        (true, Side::Ask) => {
                            oo.native_coin_total -= native_qty_paid;
                            oo.native_pc_total += native_qty_received;
                            oo.native_pc_free += native_qty_received;
                        }
                        (false, _) => {
                            oo.referrer_rebates_accrued +=
                                fees::referrer_rebate(native_fee_or_rebate);
                        }
                    }"""))
ok('r-h-consume-out', (ST, """                    let fully_out = native_qty_still_locked == 0;

                    match side {
                        Side::Bid => {
                            if release_funds {
                                open_orders.native_pc_free += native_qty_unlocked;
                            }
                            check_assert!(
                                open_orders.native_pc_free <= open_orders.native_pc_total
                            )?;
                        }
                        Side::Ask => {
                            if release_funds {
                                open_orders.native_coin_free += native_qty_unlocked;
                            }
                            check_assert!(
                                open_orders.native_coin_free <= open_orders.native_coin_total
                            )?;
                        }
                    };""", """                    let released = if release_funds { native_qty_unlocked } else { 0 };
                    match side {
                        Side::Bid => open_orders.native_pc_free += released,
                        Side::Ask => open_orders.native_coin_free += released,
                    }
                    let (free, total) = if side == Side::Bid {
                        (open_orders.native_pc_free, open_orders.native_pc_total)
                    } else {
                        (open_orders.native_coin_free, open_orders.native_coin_total)
                    };
                    check_assert!(total >= free)?;"""),
   (ST, """                    if fully_out {
                        open_orders.remove_order(owner_slot)?;
                    }""", """                    if native_qty_still_locked > 0 {
                        // partially out: the slot stays taken
                    } else {
                        open_orders.remove_order(owner_slot)?;
                    }"""))
ok('r-h-consume-handle', (ST, """            check_assert!(event.owner_slot < 128)?;
            check_assert_eq!(&open_orders.slot_side(event.owner_slot), &Some(view.side()))?;
            check_assert_eq!(
                open_orders.orders[event.owner_slot as usize],
                event.order_id
            )?;

            match event.as_view()? {""", """            let (slot, id) = (event.owner_slot, event.order_id);
            check_assert!(usize::from(slot) < 128)?;
            let expected_side = view.side();
            let recorded = { open_orders.orders }[usize::from(slot)];
            check_assert!(recorded == id)?;
            check_assert!(open_orders.slot_side(slot) == Some(expected_side))?;

            match view {"""))
ok('r-h-consume-find', (ST, """            let owner_index: Result<usize, usize> = open_orders_accounts
                .binary_search_by_key(&owner, |account_info| account_info.key.to_aligned_bytes());
            let mut open_orders: RefMut<OpenOrders> = match owner_index {
                Err(_) => break,
                Ok(i) => market.load_orders_mut(
                    &open_orders_accounts[i],
                    None,
                    program_id,
                    None,
                    None,
                )?,
            };
""", """            let account = match open_orders_accounts
                .binary_search_by(|info| info.key.to_aligned_bytes().cmp(&owner))
                .ok()
                .and_then(|i| open_orders_accounts.get(i))
            {
                Some(account) => account,
                None => break,
            };
            let mut open_orders = market.load_orders_mut(account, None, program_id, None, None)?;
"""))

# ------------------------------------------------------------------ codecs, builders, fees, handlers: behaviour-preserving rewrites (j)
ok('r-j-unpack-slices', (IN, """        let (
            &side_arr,
            &price_arr,
            &max_coin_qty_arr,
            &max_native_pc_qty_arr,
            &min_coin_qty_arr,
            &min_native_pc_qty_arr,
            &limit_arr,
        ) = array_refs![data, 4, 8, 8, 8, 8, 8, 2];

        let side = Side::try_from_primitive(u32::from_le_bytes(side_arr).try_into().ok()?).ok()?;
        let limit_price = NonZeroU64::new(u64::from_le_bytes(price_arr))?;
        let max_coin_qty = NonZeroU64::new(u64::from_le_bytes(max_coin_qty_arr))?;
        let max_native_pc_qty_including_fees =
            NonZeroU64::new(u64::from_le_bytes(max_native_pc_qty_arr))?;
        let min_coin_qty = u64::from_le_bytes(min_coin_qty_arr);
        let min_native_pc_qty = u64::from_le_bytes(min_native_pc_qty_arr);
        let limit = u16::from_le_bytes(limit_arr);
""", """        let read = |at: usize| -> u64 { u64::from_le_bytes(data[at..at + 8].try_into().unwrap()) };
        let side = match u32::from_le_bytes(*array_ref![data, 0, 4]) {
            0 => Side::Bid,
            1 => Side::Ask,
            _ => return None,
        };
        let limit_price = NonZeroU64::new(read(4))?;
        let max_coin_qty = NonZeroU64::new(read(12))?;
        let max_native_pc_qty_including_fees = NonZeroU64::new(read(20))?;
        let (min_coin_qty, min_native_pc_qty) = (read(28), read(36));
        let limit = u16::from_le_bytes([data[44], data[45]]);
"""))
ok('r-j-unpack-split', (IN, """        let (
            &side_arr,
            &price_arr,
            &max_coin_qty_arr,
            &max_native_pc_qty_arr,
            &self_trade_behavior_arr,
            &otype_arr,
            &client_order_id_bytes,
            &limit_arr,
            &max_ts,
        ) = array_refs![data, 4, 8, 8, 8, 4, 4, 8, 2, 8];

        let side = Side::try_from_primitive(u32::from_le_bytes(side_arr).try_into().ok()?).ok()?;""", """        fn side_of(word: [u8; 4]) -> Option<Side> {
            let byte: u8 = u32::from_le_bytes(word).try_into().ok()?;
            Side::try_from_primitive(byte).ok()
        }
        let (head, tail) = array_refs![data, 28, 26];
        let (&side_arr, &price_arr, &max_coin_qty_arr, &max_native_pc_qty_arr) =
            array_refs![head, 4, 8, 8, 8];
        let (&self_trade_behavior_arr, &otype_arr, &client_order_id_bytes, &limit_arr, &max_ts) =
            array_refs![tail, 4, 4, 8, 2, 8];

        let side = side_of(side_arr)?;"""))
ok('r-j-unpack-guard', (IN, """        if versioned_bytes.len() < 5 || versioned_bytes.len() > 5 + 8 + 54 * 8 {
            return None;
        }
        let (&[version], &discrim, data) = array_refs![versioned_bytes, 1, 4; ..;];
        if version != 0 {
            return None;
        }
        let discrim = u32::from_le_bytes(discrim);""", """        const MAX_LEN: usize = 5 + 8 + 54 * 8;
        if !(5..=MAX_LEN).contains(&versioned_bytes.len()) {
            return None;
        }
        let (header, data) = versioned_bytes.split_at(5);
        if header[0] != 0u8 {
            return None;
        }
        let discrim = u32::from_le_bytes([header[1], header[2], header[3], header[4]]);"""))
ok('r-j-unpack-v3ext', (IN, """                let extended_data = match len {
                    46 => Some([data, &i64::MAX.to_le_bytes()].concat()),
                    54 => Some(data.to_vec()),
                    _ => None,
                }?;
                let data_arr = array_ref![extended_data, 0, 54];
                NewOrderInstructionV3::unpack(data_arr)?""", """                let mut extended = [0u8; 54];
                extended[46..].copy_from_slice(&i64::MAX.to_le_bytes());
                extended[..len].copy_from_slice(data);
                NewOrderInstructionV3::unpack(&extended)?"""))
ok('r-j-unpack-replace', (IN, """                if u64::from_le_bytes(data[0..8].try_into().unwrap())
                    != (data.len() as u64 - 8) / 54
                {
                    return None;
                }

                let new_orders = data[8..]
                    .chunks_exact(54)
                    .map(|chunk| {
                        let chunk_arr = array_ref![chunk, 0, 54];
                        NewOrderInstructionV3::unpack(chunk_arr)
                    })
                    .collect::<Option<Vec<_>>>()?;
                MarketInstruction::ReplaceOrdersByClientIds(new_orders)""", """                let (count_bytes, orders) = data.split_at(8);
                let count = u64::from_le_bytes(count_bytes.try_into().unwrap());
                if count != (orders.len() / 54) as u64 {
                    return None;
                }

                let mut new_orders = Vec::with_capacity(orders.len() / 54);
                for chunk in orders.chunks_exact(54) {
                    new_orders.push(NewOrderInstructionV3::unpack(chunk.try_into().ok()?)?);
                }
                MarketInstruction::ReplaceOrdersByClientIds(new_orders)"""))
ok('r-j-unpack-ids', (IN, """                let mut client_ids = [0; 8];
                // convert chunks of 8 bytes to client ids
                for (chunk, client_id) in data.chunks_exact(8).zip(client_ids.iter_mut()) {
                    *client_id = u64::from_le_bytes(chunk.try_into().unwrap());
                }
                MarketInstruction::CancelOrdersByClientIds(client_ids)""", """                let mut client_ids = [0u64; 8];
                for (i, chunk) in data.chunks_exact(8).enumerate() {
                    client_ids[i] = u64::from_le_bytes(*array_ref![chunk, 0, 8]);
                }
                MarketInstruction::CancelOrdersByClientIds(client_ids)"""))
ok('r-j-unpack-side', (IN, """                let side = match u32::from_le_bytes(*fields.0) {
                    0 => Side::Bid,
                    1 => Side::Ask,
                    _ => return None,
                };
                let order_id = u128::from_le_bytes(*fields.1);""", """                let side = std::convert::TryInto::<u8>::try_into(u32::from_le_bytes(*fields.0))
                    .ok()
                    .and_then(|b| Side::try_from_primitive(b).ok())?;
                let order_id = u128::from_le_bytes(*fields.1);"""))
ok('r-j-builder-chain', (IN, """    let mut accounts: Vec<AccountMeta> = open_orders_accounts
        .iter()
        .map(|key| AccountMeta::new(**key, false))
        .collect();
    accounts.append(&mut vec![
        AccountMeta::new(*market, false),
        AccountMeta::new(*event_queue, false),
        AccountMeta::new_readonly(*consume_events_authority, true),
    ]);""", """    let mut accounts = Vec::with_capacity(open_orders_accounts.len() + 3);
    for key in open_orders_accounts {
        accounts.push(AccountMeta::new(*key, false));
    }
    accounts.push(AccountMeta::new(*market, false));
    accounts.push(AccountMeta::new(*event_queue, false));
    accounts.push(AccountMeta::new_readonly(*consume_events_authority, true));"""))
ok('r-j-builder-neworder', (IN, """    if let Some(key) = srm_account_referral {
        accounts.push(AccountMeta::new_readonly(*key, false))
    }
    Ok(Instruction {
        program_id: *program_id,
        data,
        accounts,
    })
}

pub fn match_orders(""", """    accounts.extend(srm_account_referral.map(|key| AccountMeta::new_readonly(*key, false)));
    let instruction = Instruction { program_id: *program_id, accounts, data };
    Ok(instruction)
}

pub fn match_orders("""))
ok('r-j-fees-tier', (FE, """        match () {
            () if msrm_held >= 1 => FeeTier::MSRM,
            () if srm_held >= one_srm * 1_000_000 => FeeTier::SRM6,
            () if srm_held >= one_srm * 100_000 => FeeTier::SRM5,
            () if srm_held >= one_srm * 10_000 => FeeTier::SRM4,
            () if srm_held >= one_srm * 1_000 => FeeTier::SRM3,
            () if srm_held >= one_srm * 100 => FeeTier::SRM2,
            () => FeeTier::Base,
        }""", """        if msrm_held > 0 {
            return FeeTier::MSRM;
        }
        let whole_srm = srm_held / one_srm;
        match whole_srm {
            0..=99 => FeeTier::Base,
            100..=999 => FeeTier::SRM2,
            1_000..=9_999 => FeeTier::SRM3,
            10_000..=99_999 => FeeTier::SRM4,
            100_000..=999_999 => FeeTier::SRM5,
            _ => FeeTier::SRM6,
        }"""))
ok('r-j-fees-rate', (FE, """        use FeeTier::*;
        match self {
            Base => fee_tenth_of_bps(40),
            SRM2 => fee_tenth_of_bps(39),
            SRM3 => fee_tenth_of_bps(38),
            SRM4 => fee_tenth_of_bps(36),
            SRM5 => fee_tenth_of_bps(34),
            SRM6 => fee_tenth_of_bps(32),
            MSRM => fee_tenth_of_bps(30),
            Stable => fee_tenth_of_bps(10),
        }""", """        let tenths = match self {
            FeeTier::Base => 40,
            FeeTier::SRM2 => 39,
            FeeTier::SRM3 => 38,
            FeeTier::SRM4 => 36,
            FeeTier::SRM5 => 34,
            FeeTier::SRM6 => 32,
            FeeTier::MSRM => 30,
            FeeTier::Stable => 10,
        };
        fee_tenth_of_bps(tenths)"""))
ok('r-j-fees-loop', (FE, """        match () {
            () if msrm_held >= 1 => FeeTier::MSRM,
            () if srm_held >= one_srm * 1_000_000 => FeeTier::SRM6,
            () if srm_held >= one_srm * 100_000 => FeeTier::SRM5,
            () if srm_held >= one_srm * 10_000 => FeeTier::SRM4,
            () if srm_held >= one_srm * 1_000 => FeeTier::SRM3,
            () if srm_held >= one_srm * 100 => FeeTier::SRM2,
            () => FeeTier::Base,
        }""", """        if msrm_held != 0 {
            return FeeTier::MSRM;
        }
        const TIERS: [(u64, FeeTier); 5] = [
            (1_000_000, FeeTier::SRM6),
            (100_000, FeeTier::SRM5),
            (10_000, FeeTier::SRM4),
            (1_000, FeeTier::SRM3),
            (100, FeeTier::SRM2),
        ];
        for &(srm, tier) in TIERS.iter() {
            if srm_held >= srm * one_srm {
                return tier;
            }
        }
        FeeTier::Base"""))
ok('r-j-fees-taker', (FE, """        let rate = self.taker_rate();
        let exact_fee: U64F64 = rate.mul_u64(pc_qty);
        exact_fee.floor() + ((exact_fee.frac_part() != 0) as u64)""", """        let exact_fee = self.taker_rate().mul_u64(pc_qty);
        let whole = exact_fee.floor();
        if exact_fee.frac_part() == 0 {
            whole
        } else {
            whole + 1
        }"""))
ok('r-j-fees-remove', (FE, """        let rate = self.taker_rate();
        U64F64::from_int(pc_qty_incl_fee)
            .div(U64F64::ONE.add(rate))
            .try_into()
            .unwrap()""", """        let gross = U64F64::from_int(pc_qty_incl_fee);
        let one_plus_rate = self.taker_rate().add(U64F64::ONE);
        let net: u128 = gross.div(one_plus_rate);
        net as u64"""))
ok('r-j-neworder-lockfn', (ST, """                let free_qty_to_lock = lock_qty_native.get().min(open_orders_mut.native_pc_free);
                deposit_amount = lock_qty_native.get() - free_qty_to_lock;
                deposit_vault = pc_vault.token_account();
                if payer.balance()? < deposit_amount {
                    return Err(DexErrorCode::InsufficientFunds.into());
                }
                open_orders_mut.lock_free_pc(free_qty_to_lock);
                open_orders_mut.credit_locked_pc(deposit_amount);""", """                let wanted = lock_qty_native.get();
                let free = open_orders_mut.native_pc_free;
                deposit_amount = wanted.saturating_sub(free);
                let free_qty_to_lock = wanted - deposit_amount;
                deposit_vault = pc_vault.token_account();
                let available = payer.balance()?;
                if deposit_amount > available {
                    Err(DexErrorCode::InsufficientFunds)?
                }
                open_orders_mut.lock_free_pc(free_qty_to_lock);
                open_orders_mut.credit_locked_pc(deposit_amount);"""))
ok('r-j-replace-fold', (ST, """        for instruction in instructions {
            account_parser::NewOrderV3Args::with_parsed_args(
                program_id,
                instruction,
                accounts,
                Self::process_new_order_v3,
            )?;
        }

        Ok(())""", """        instructions.iter().try_for_each(|instruction| {
            account_parser::NewOrderV3Args::with_parsed_args(
                program_id,
                instruction,
                accounts,
                Self::process_new_order_v3,
            )
        })"""))
ok('r-j-init-queues', (ST, """        if eq_buf.len() < 128 {
            Err(DexErrorCode::EventQueueTooSmall)?
        }
        let eq_hdr: &mut EventQueueHeader = try_cast_mut(eq_hdr_array).or(check_unreachable!())?;
        *eq_hdr = EventQueueHeader {
            account_flags: (AccountFlag::Initialized | AccountFlag::EventQueue).bits(),
            head: 0,
            count: 0,
            seq_num: 0,
        };""", """        if !(eq_buf.len() >= 128) {
            return Err(DexErrorCode::EventQueueTooSmall.into());
        }
        let eq_hdr: &mut EventQueueHeader = try_cast_mut(eq_hdr_array).or(check_unreachable!())?;
        eq_hdr.account_flags = AccountFlag::Initialized as u64 | AccountFlag::EventQueue as u64;
        eq_hdr.head = 0;
        eq_hdr.count = 0;
        eq_hdr.seq_num = 0;"""))
ok('r-j-init-market-auth', (ST, """            Some(oo_auth) => {
                let market_hdr: &mut MarketStateV2 =
                    try_from_bytes_mut(cast_slice_mut(market_view)).or(check_unreachable!())?;
                market_hdr.inner = market_state;
                market_hdr.open_orders_authority = *oo_auth.key;
                market_hdr.prune_authority =
                    prune_authority.map(|p| *p.key).unwrap_or(Pubkey::default());

                if let Some(consume_events_authority) = consume_events_authority {
                    market_hdr.consume_events_authority = *consume_events_authority.key;
                }
            }""", """            Some(oo_auth) => {
                let key_or_default =
                    |acc: Option<&AccountInfo>| acc.map_or_else(Pubkey::default, |a| *a.key);
                let market_hdr: &mut MarketStateV2 =
                    try_from_bytes_mut(cast_slice_mut(market_view)).or(check_unreachable!())?;
                market_hdr.consume_events_authority = key_or_default(consume_events_authority);
                market_hdr.prune_authority = key_or_default(prune_authority);
                market_hdr.open_orders_authority = *oo_auth.key;
                market_hdr.inner = market_state;
            }"""))


# ------------------------------------------------------------------ permissioned proxy
PM = 'dex/permissioned/src/middleware.rs'
PP = 'dex/permissioned/src/proxy.rs'
_SIG = """        let market = &ctx.accounts[3];
        let user = &ctx.accounts[1];
        if !user.is_signer {
            return Err(ErrorCode::UnauthorizedUser.into());
        }
"""
bug('pp-close-nosigner', 'C26', (PM, _SIG, _SIG.replace("!user.is_signer", "!user.is_signer && !market.is_signer")), scope='ws')
bug('pp-settle-market', 'C26', (PM, """        let market = &ctx.accounts[0];
        let user = &ctx.accounts[2];""", """        let market = &ctx.accounts[1];
        let user = &ctx.accounts[2];"""), scope='ws')
bug('pp-approve-extra', 'C26', (PM, "Side::Bid => ix.max_native_pc_qty_including_fees.get(),", "Side::Bid => ix.max_native_pc_qty_including_fees.get().max(u32::MAX as u64),"), scope='ws')
bug('pp-no-revoke-ask', 'C26', (PM, "        ctx.post_instructions.push(post_instruction);", "        if ix.side == Side::Bid {\n            ctx.post_instructions.push(post_instruction);\n        }"), scope='ws')
bug('pp-lot-offset', 'C26', (PM, "let coin_lot_idx = 5 + 43 * 8;", "let coin_lot_idx = 5 + 44 * 8;"), scope='ws')
bug('pp-settle-signer-market', 'C26', (PM, "        ctx.accounts[2] = Self::prepare_pda(&ctx.accounts[1]);", "        ctx.accounts[2] = Self::prepare_pda(&ctx.accounts[1]);\n        ctx.accounts[3].is_signer = true;"), scope='ws')
bug('pp-prune-owner', 'C26', (PM, "ctx.accounts[5] = ctx.accounts[4].clone();", "ctx.accounts[5] = Self::prepare_pda(&ctx.accounts[4]);"), scope='ws')
bug('pp-relay-signer-any', 'C27', (PP, "                    is_signer: acc.is_signer,", "                    is_signer: acc.is_signer || acc.is_writable,"), scope='ws')
bug('pp-relay-writable', 'C27', (PP, "                    is_writable: acc.is_writable,", "                    is_writable: acc.is_writable || acc.is_signer,"), scope='ws')
bug('pp-relay-target', 'C27', (PP, "require!(dex.key == &dex::ID, ErrorCode::InvalidTargetProgram);", "require!(dex.key == &dex::ID || dex.executable, ErrorCode::InvalidTargetProgram);"), scope='ws')
bug('pp-relay-data', 'C27', (PP, "data: ix_data.to_vec(),", "data: data.to_vec(),"), scope='ws')
bug('pp-mw-rev', 'C27', (PP, """                for mw in &self.middlewares {
                    mw.settle_funds(&mut ctx)?;""", """                for mw in self.middlewares.iter().rev() {
                    mw.settle_funds(&mut ctx)?;"""), scope='ws')
bug('pp-mw-ignore-err', 'C27', (PP, """                for mw in &self.middlewares {
                    mw.cancel_order_v2(&mut ctx, ix)?;""", """                for mw in &self.middlewares {
                    if mw.cancel_order_v2(&mut ctx, ix).is_err() {
                        break;
                    }"""), scope='ws')
bug('pp-post-first', 'C27', (PP, "        for (ix, acc_infos, seeds) in post_instructions {", "        for (ix, acc_infos, seeds) in post_instructions.into_iter().skip_while(|x| x.2.is_empty() && x.1.is_empty()).take(1) {"), scope='ws')
bug('pp-pre-seeds', 'C27', (PP, "        for (ix, acc_infos, seeds) in pre_instructions {\n            let tmp_signers: Vec<Vec<&[u8]>> = seeds", "        let main_seeds = seeds.clone();\n        for (ix, acc_infos, seeds) in pre_instructions {\n            let all: Vec<_> = seeds.into_iter().chain(main_seeds.iter().cloned()).collect();\n            let tmp_signers: Vec<Vec<&[u8]>> = all"), scope='ws')
bug('pp-cb-skip-err', 'C27', (PP, "            function(program_id, accounts, ix_data.to_vec(), args)?;", "            let _ = function(program_id, accounts, ix_data.to_vec(), args);"), scope='ws')
bug('pp-settle-nine', 'C27', (PP, "ctx.accounts.len() >= 10,", "ctx.accounts.len() >= 9,"), scope='ws')
bug('pp-unknown-relayed', 'C27', (PP, """                for mw in &self.middlewares {
                    mw.fallback(&mut ctx)?;
                }
                return Ok(());""", """                for mw in &self.middlewares {
                    mw.fallback(&mut ctx)?;
                }
                if ix.is_none() {
                    return Ok(());
                }"""), scope='ws')
ok('r-k-sign-helper', (PP, """            let tmp_signers: Vec<Vec<&[u8]>> = seeds
                .iter()
                .map(|seeds| {
                    let seeds: Vec<&[u8]> = seeds.iter().map(|seed| &seed[..]).collect();
                    seeds
                })
                .collect();
            let signers: Vec<&[&[u8]]> = tmp_signers.iter().map(|seeds| &seeds[..]).collect();
            program::invoke_signed(&ix, &acc_infos, &signers)?;""", """            invoke_with_seeds(&ix, &acc_infos, &seeds)?;"""),
   (PP, "impl<'a> MarketProxy<'a> {", """fn invoke_with_seeds(
    ix: &anchor_lang::solana_program::instruction::Instruction,
    infos: &[AccountInfo],
    seeds: &Vec<Vec<Vec<u8>>>,
) -> ProgramResult {
    let mut groups: Vec<Vec<&[u8]>> = Vec::with_capacity(seeds.len());
    for group in seeds.iter() {
        let mut list: Vec<&[u8]> = Vec::with_capacity(group.len());
        for seed in group {
            list.push(seed.as_slice());
        }
        groups.push(list);
    }
    let signers: Vec<&[&[u8]]> = groups.iter().map(|g| g.as_slice()).collect();
    program::invoke_signed(ix, infos, &signers)
}

impl<'a> MarketProxy<'a> {"""), scope='ws', count=0)
ok('r-k-metas-loop', (PP, """            let dex_accounts = accounts
                .iter()
                .map(|acc| AccountMeta {
                    pubkey: *acc.key,
                    is_signer: acc.is_signer,
                    is_writable: acc.is_writable,
                })
                .collect();""", """            let mut dex_accounts = Vec::with_capacity(accounts.len());
            for acc in accounts.iter() {
                dex_accounts.push(if acc.is_writable {
                    AccountMeta::new(*acc.key, acc.is_signer)
                } else {
                    AccountMeta::new_readonly(*acc.key, acc.is_signer)
                });
            }"""), scope='ws')
ok('r-k-for-each', (PP, """                for mw in &self.middlewares {
                    mw.settle_funds(&mut ctx)?;
                }""", """                self.middlewares.iter().try_for_each(|mw| mw.settle_funds(&mut ctx))?;"""),
   (PP, """                for mw in &self.middlewares {
                    mw.close_open_orders(&mut ctx)?;
                }""", """                for i in 0..self.middlewares.len() {
                    self.middlewares[i].close_open_orders(&mut ctx)?;
                }"""),
   (PP, """            _ => {
                for mw in &self.middlewares {
                    mw.fallback(&mut ctx)?;
                }
                return Ok(());
            }""", """            Some(_) | None => {
                return self.middlewares.iter().try_for_each(|mw| mw.fallback(&mut ctx));
            }"""), scope='ws')
ok('r-k-split-first', (PP, """        let dex = &accounts[0];
        require!(dex.key == &dex::ID, ErrorCode::InvalidTargetProgram);
        let acc_infos = (&accounts[1..]).to_vec();""", """        let (dex, rest) = match accounts.split_first() {
            Some(x) => x,
            None => return Err(ProgramError::NotEnoughAccountKeys),
        };
        if *dex.key != dex::ID {
            return Err(ErrorCode::InvalidTargetProgram.into());
        }
        let acc_infos = rest.iter().cloned().collect();"""), (PP, "use anchor_lang::solana_program::pubkey::Pubkey;", "use anchor_lang::solana_program::program_error::ProgramError;\nuse anchor_lang::solana_program::pubkey::Pubkey;"), scope='ws')
ok('r-k-user-helper', (PM, """        if !user.is_signer {
            return Err(ErrorCode::UnauthorizedUser.into());
        }
""", """        require_signer(user)?;
"""), (PM, "/// Logs each request.", """fn require_signer(acc: &AccountInfo) -> ProgramResult {
    match acc.is_signer {
        true => Ok(()),
        false => Err(ErrorCode::UnauthorizedUser.into()),
    }
}

/// Logs each request."""), scope='ws', count=0)
ok('r-k-pda-inline', (PM, """        let mut acc_info = acc_info.clone();
        acc_info.is_signer = true;
        acc_info""", """        AccountInfo {
            is_signer: true,
            ..acc_info.clone()
        }"""), (PM, "ctx.accounts[5] = ctx.accounts[4].clone();", """let open_orders = ctx.accounts[4].clone();
        std::mem::drop(std::mem::replace(&mut ctx.accounts[5], open_orders));"""), (PM, "        ctx.accounts = (&ctx.accounts[2..]).to_vec();", "        ctx.accounts.drain(..2);"), scope='ws')
ok('r-k-approve-helper', (PM, """                    let data = market.try_borrow_data()?;
                    let mut coin_lot_array = [0u8; 8];
                    coin_lot_array.copy_from_slice(&data[coin_lot_idx..coin_lot_idx + 8]);
                    let coin_lot_size = u64::from_le_bytes(coin_lot_array);
                    ix.max_coin_qty.get().checked_mul(coin_lot_size).unwrap()""", """                    let data = market.try_borrow_data()?;
                    let coin_lot_size = u64::from_le_bytes(
                        data[coin_lot_idx..coin_lot_idx + 8].try_into().unwrap(),
                    );
                    coin_lot_size.checked_mul(ix.max_coin_qty.get()).unwrap()"""), (PM, "use std::convert::TryInto;\n" if False else "use serum_dex::matching::Side;", "use serum_dex::matching::Side;\nuse std::convert::TryInto;"), scope='ws')


# ------------------------------------------------------------------ pools
PL = 'pool/src/lib.rs'
PC = 'pool/src/context.rs'
PO = 'pool/src/pool.rs'
bug('po-vault-first-only', 'C28', (PC, """            state.assets.iter().zip(context.pool_vault_accounts.iter())
        {""", """            state.assets.iter().zip(context.pool_vault_accounts.iter()).take(1)
        {"""), scope='ws')
bug('po-vault-auth-none', 'C28', (PC, """                asset_info.mint.as_ref(),
                Some(state.vault_signer.as_ref()),""", """                asset_info.mint.as_ref(),
                None,"""), scope='ws')
bug('po-mint-owner', 'C28', (PC, """fn check_mint_minter(account: &AccountInfo, mint_authority: &Pubkey) -> Result<(), ProgramError> {
    if account.owner != &spl_token::ID {""", """fn check_mint_minter(account: &AccountInfo, mint_authority: &Pubkey) -> Result<(), ProgramError> {
    if account.owner != &spl_token::ID && account.is_writable {"""), scope='ws')
bug('po-mint-authority-none', 'C28', (PC, "    if mint.mint_authority != COption::Some(*mint_authority) {", "    if mint.mint_authority.is_some() && mint.mint_authority != COption::Some(*mint_authority) {"), scope='ws')
bug('po-referrer-unchecked', 'C28', (PC, "        check_token_account(referrer_fee_account, state.pool_token_mint.as_ref(), None)?;\n", ""), scope='ws')
bug('po-params-writable-only', 'C28', (PC, "                check_account_address(account_info, &param_desc.address)?;", "                if param_desc.writable {\n                    check_account_address(account_info, &param_desc.address)?;\n                }"), scope='ws')
bug('po-retbuf-owner', 'C28', (PC, "        if account.owner != program.key {", "        if account.owner != program.key && !program.executable {"), scope='ws')
bug('po-token-program', 'C28', (PC, "            if spl_token_program.key != &spl_token::ID {", "            if spl_token_program.key != &spl_token::ID && !spl_token_program.executable {"), scope='ws')
bug('po-owner-check', 'C28', (PL, "        if account.owner != self.program_id {", "        if account.is_writable && account.owner != self.program_id {"), scope='ws')
bug('po-zero-prefix', 'C28', (PL, "        if data.iter().all(|b| *b == 0) {", "        if data.iter().take(8).all(|b| *b == 0) {"), scope='ws')
bug('po-fee-before-hook', 'C28', (PL, """        P::initialize_pool(&context, &mut state)?;
        if *context.pool_authority.key != context.derive_vault_authority(&state)? {
            msg!("Invalid pool authority");
            return Err(ProgramError::InvalidArgument);
        }
        if state.fee_rate < MIN_FEE_RATE {""", """        let fee_rate = state.fee_rate;
        P::initialize_pool(&context, &mut state)?;
        if *context.pool_authority.key != context.derive_vault_authority(&state)? {
            msg!("Invalid pool authority");
            return Err(ProgramError::InvalidArgument);
        }
        if fee_rate < MIN_FEE_RATE {"""), scope='ws')
bug('po-fee-max', 'C28', (PL, "if state.fee_rate >= FEE_RATE_DENOMINATOR {", "if state.fee_rate > FEE_RATE_DENOMINATOR {"), scope='ws')
bug('po-close-authority', 'C28', (PL, """            && token_account.close_authority.as_ref() != COption::Some(state.vault_signer.as_ref())""", """            && token_account.close_authority.as_ref() == COption::Some(state.vault_signer.as_ref())"""), scope='ws')
bug('po-save-not-swap', 'C28', (PL, "                self.save_state(pool_state)?;", "                if !matches!(action, PoolAction::Swap(_)) {\n                    self.save_state(pool_state)?;\n                }"), scope='ws')
bug('po-basket-swapped', 'C28', (PL, """                    &PoolAction::Redeem(amount) => {
                        P::get_redemption_basket(&context, pool_state, amount)?""", """                    &PoolAction::Redeem(amount) => {
                        P::get_creation_basket(&context, pool_state, amount)?"""), scope='ws')
bug('po-rent-vaults', 'C28', (PL, "        for vault_account in context.pool_vault_accounts {", "        for vault_account in context.pool_vault_accounts.iter().skip(1) {"), scope='ws')
bug('po-round-down-create', 'C29', (PO, "context.get_simple_basket(creation_size, true)", "context.get_simple_basket(creation_size, creation_size > 1)"), scope='ws')
bug('po-round-up-redeem', 'C29', (PO, "context.get_simple_basket(redemption_size, false)", "context.get_simple_basket(redemption_size, true)"), scope='ws')
bug('po-redeem-basket-gross', 'C29', (PO, """        let redemption_size = redemption_size - fees.total_fee();
        let basket = Self::get_redemption_basket(context, state, redemption_size)?;""", """        let basket = Self::get_redemption_basket(context, state, redemption_size)?;
        let redemption_size = redemption_size - fees.total_fee();"""), scope='ws')
bug('po-total-fee', 'C29', (PC, "        self.lqd_fee + self.initializer_fee + self.referrer_fee", "        self.lqd_fee + self.initializer_fee"), scope='ws')
bug('po-exempt-lqd', 'C29', (PC, """                if fee_accounts.referrer_fee_account.key == user_key {
                    fees.referrer_fee = 0;""", """                if fee_accounts.referrer_fee_account.key == user_key {
                    fees.initializer_fee = 0;
                    fees.referrer_fee = 0;"""), scope='ws')
bug('po-ref-half', 'C29', (PC, "let referrer_fee = min(lqd_fee / 2, total_fee - lqd_fee);", "let referrer_fee = min((lqd_fee + 1) / 2, total_fee - lqd_fee);"), scope='ws')
bug('po-fee-floor', 'C29', (PC, """            let total_fee = (((tokens as u128) * (fee_rate as u128) - 1)
                / FEE_RATE_DENOMINATOR as u128
                + 1) as u64;""", """            let total_fee = max(
                ((tokens as u128) * (fee_rate as u128) / FEE_RATE_DENOMINATOR as u128) as u64,
                (tokens - 1) / 10000 + 1,
            );"""), scope='ws')
bug('po-mint-user-zero', 'C29', (PC, """            (fee_accounts.referrer_fee_account, fees.referrer_fee),
            (user_accounts.pool_token_account, remainder),""", """            (fee_accounts.lqd_fee_account, fees.referrer_fee),
            (user_accounts.pool_token_account, remainder),"""), scope='ws')
bug('po-burn-all', 'C29', (PO, "context.burn_tokens_and_collect_fees(redemption_size, fees)?;", "context.burn_tokens_and_collect_fees(redemption_size - (redemption_size > 0) as u64 * (fees.referrer_fee % 2), fees)?;"), scope='ws')
bug('po-seed-auth', 'C29', (PC, """            program::invoke_signed(
                &instruction,
                account_infos,
                &[&[self.pool_account.key.as_ref(), &[state.vault_signer_nonce]]],
            )?;
        }

        Ok(())
    }
}

fn check_account""", """            program::invoke_signed(
                &instruction,
                account_infos,
                &[&[self.pool_authority.key.as_ref(), &[state.vault_signer_nonce]]],
            )?;
        }

        Ok(())
    }
}

fn check_account"""), scope='ws')
ok('r-u-check-helper', (PC, """        if &token_account.owner != authority && token_account.delegate != COption::Some(*authority)
        {
            msg!("Incorrect spl-token account owner");
            return Err(ProgramError::InvalidArgument);
        }""", """        let owned = token_account.owner == *authority;
        let delegated = match token_account.delegate {
            COption::Some(d) => d == *authority,
            COption::None => false,
        };
        if !(owned || delegated) {
            msg!("Incorrect spl-token account owner");
            return Err(ProgramError::InvalidArgument);
        }"""), (PC, """        for (asset_info, account) in state.assets.iter().zip(asset_accounts.iter()) {
            check_token_account(account, asset_info.mint.as_ref(), None)?;
        }""", """        for i in 0..asset_accounts.len() {
            check_token_account(&asset_accounts[i], state.assets[i].mint.as_ref(), None)?;
        }"""), scope='ws')
ok('r-u-ctx-loop', (PC, """        for (asset_info, vault_account) in
            state.assets.iter().zip(context.pool_vault_accounts.iter())
        {
            check_account_address(vault_account, &asset_info.vault_address)?;
            check_token_account(
                vault_account,
                asset_info.mint.as_ref(),
                Some(state.vault_signer.as_ref()),
            )?;
        }""", """        context
            .pool_vault_accounts
            .iter()
            .enumerate()
            .try_for_each(|(i, vault_account)| {
                let asset_info = &state.assets[i];
                check_account_address(vault_account, &asset_info.vault_address)?;
                check_token_account(
                    vault_account,
                    asset_info.mint.as_ref(),
                    Some(state.vault_signer.as_ref()),
                )
            })?;"""), scope='ws')
ok('r-u-match-flat', (PL, """        match (&mut pool_state, &self.request) {
            (None, PoolRequestInner::Initialize(request)) => self.initialize_pool(request)?,
            (None, _) => {
                return Err(ProgramError::UninitializedAccount);
            }
            (Some(_), PoolRequestInner::Initialize(_)) => {
                return Err(ProgramError::AccountAlreadyInitialized);
            }""", """        if let PoolRequestInner::Initialize(request) = &self.request {
            if pool_state.is_some() {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            return self.initialize_pool(request);
        }
        if pool_state.is_none() {
            return Err(ProgramError::UninitializedAccount);
        }
        match (&mut pool_state, &self.request) {
            (None, _) | (_, PoolRequestInner::Initialize(_)) => unreachable!(),"""), (PL, "        if data.iter().all(|b| *b == 0) {", "        if !data.iter().any(|b| *b != 0) {"), scope='ws')
ok('r-u-init', (PL, """        if state.fee_rate < MIN_FEE_RATE {
            msg!("Fee too low");
            return Err(ProgramError::InvalidArgument);
        }
        if state.fee_rate >= FEE_RATE_DENOMINATOR {
            msg!("Fee too high");
            return Err(ProgramError::InvalidArgument);
        }""", """        if !(MIN_FEE_RATE..FEE_RATE_DENOMINATOR).contains(&state.fee_rate) {
            msg!("Fee out of range");
            return Err(ProgramError::InvalidArgument);
        }"""), (PL, """            assets: pool_vaults
                .iter()
                .map(|account| {
                    let acc = TokenAccount::unpack(&account.try_borrow_data()?)?;
                    Ok(AssetInfo {
                        mint: acc.mint.into(),
                        vault_address: account.key.into(),
                    })
                })
                .collect::<PoolResult<Vec<_>>>()?,""", """            assets: {
                let mut assets = Vec::with_capacity(pool_vaults.len());
                for account in pool_vaults {
                    let acc = TokenAccount::unpack(&account.try_borrow_data()?)?;
                    assets.push(AssetInfo {
                        mint: acc.mint.into(),
                        vault_address: account.key.into(),
                    });
                }
                assets
            },"""), scope='ws')
ok('r-u-fees', (PC, """            let total_fee = (((tokens as u128) * (fee_rate as u128) - 1)
                / FEE_RATE_DENOMINATOR as u128
                + 1) as u64;""", """            let denominator = FEE_RATE_DENOMINATOR as u128;
            let total_fee =
                (((tokens as u128) * (fee_rate as u128) + denominator - 1) / denominator) as u64;"""),
   (PC, """            let referrer_fee = min(lqd_fee / 2, total_fee - lqd_fee);""", """            let left = total_fee - lqd_fee;
            let referrer_fee = if lqd_fee / 2 < left { lqd_fee / 2 } else { left };"""), scope='ws')
ok('r-u-mint', (PC, """        for (account, quantity) in &[
            (fee_accounts.lqd_fee_account, fees.lqd_fee),
            (fee_accounts.initializer_fee_account, fees.initializer_fee),
            (fee_accounts.referrer_fee_account, fees.referrer_fee),
            (user_accounts.pool_token_account, remainder),
        ] {
            let account = *account;
            let quantity = *quantity;
            if quantity > 0 {
                let mint_pubkey""", """        let targets = vec![
            (user_accounts.pool_token_account, remainder),
            (fee_accounts.lqd_fee_account, fees.lqd_fee),
            (fee_accounts.initializer_fee_account, fees.initializer_fee),
            (fee_accounts.referrer_fee_account, fees.referrer_fee),
        ];
        for (account, quantity) in targets.into_iter() {
            if quantity != 0 {
                let mint_pubkey"""), (PC, """        let remainder = quantity - fees.total_fee();

        let user""", """        let remainder = quantity
            .checked_sub(fees.total_fee())
            .ok_or(ProgramError::InvalidArgument)?;

        let user"""), scope='ws')
ok('r-u-basket', (PC, """                (*pool_quantity as u128)
                    .checked_mul(pool_tokens_requested as u128)?
                    .checked_add(if round_up {
                        total_pool_tokens.checked_sub(1)?
                    } else {
                        0
                    } as u128)?
                    .checked_div(total_pool_tokens as u128)?
                    .try_into()
                    .ok()""", """                let total = total_pool_tokens as u128;
                let product = (*pool_quantity as u128) * (pool_tokens_requested as u128);
                let mut quantity = product / total;
                if round_up && product % total != 0 {
                    quantity += 1;
                }
                quantity.try_into().ok()"""), scope='ws')
ok('r-u-fees-exempt', (PC, """                if fee_accounts.lqd_fee_account.key == user_key {
                    fees.lqd_fee = 0;
                    fees.initializer_fee = 0;
                    fees.referrer_fee = 0;
                }
                if fee_accounts.initializer_fee_account.key == user_key {""", """                if fee_accounts.lqd_fee_account.key == user_key {
                    return Ok(Fees {
                        lqd_fee: 0,
                        initializer_fee: 0,
                        referrer_fee: 0,
                    });
                }
                if fee_accounts.initializer_fee_account.key == user_key {"""), (PC, """    pub fn transfer_basket_from_user(&self, basket: &Basket) -> Result<(), ProgramError> {""", """    pub fn transfer_basket_from_user(&self, basket: &Basket) -> Result<(), ProgramError> {
        let _ = basket.quantities.len();"""), scope='ws')

# ------------------------------------------------------------------ assert-owner, errors
AOF = 'assert-owner/src/lib.rs'
ER = 'dex/src/error.rs'
LB = 'dex/src/lib.rs'
bug('ao-len-ge', 'C30', (AOF, "instruction_data.len() != 32", "instruction_data.len() < 32"), (AOF, "Pubkey::new(instruction_data)", "Pubkey::new(&instruction_data[..32])"), scope='ws')
bug('ao-key', 'C30', (AOF, "*account.owner", "*account.key"), scope='ws')
bug('ao-program', 'C30', (AOF, "entry(_program_id", "entry(program_id"), (AOF, "if expected_owner != *account.owner {", "if expected_owner != *account.owner && account.owner != program_id {"), scope='ws')
bug('ao-last', 'C30', (AOF, "accounts.get(0)", "accounts.last()"), scope='ws')
bug('ao-empty-ok', 'C30', (AOF, "    if instruction_data.len() != 32 {", "    if account.data_is_empty() {\n        return Ok(());\n    }\n    if instruction_data.len() != 32 {"), scope='ws')
bug('ao-prefix', 'C30', (AOF, "if expected_owner != *account.owner {", "if expected_owner.to_bytes()[..31] != account.owner.to_bytes()[..31] {"), scope='ws')
ok('r-a-slice', (AOF, "    let expected_owner = Pubkey::new(instruction_data);\n    if expected_owner != *account.owner {", "    if account.owner.as_ref() != instruction_data {"), scope='ws')
ok('r-a-bytes', (AOF, "    if expected_owner != *account.owner {", "    if expected_owner.to_bytes() != account.owner.to_bytes() {"), scope='ws')
ok('r-a-first', (AOF, "accounts.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?", "match accounts.first() {\n        Some(a) => a,\n        None => return Err(ProgramError::NotEnoughAccountKeys),\n    }"), scope='ws')
ok('r-a-helper', (AOF, "fn entry(", "fn check_owner(expected: &Pubkey, account: &AccountInfo) -> ProgramResult {\n    if account.owner == expected {\n        Ok(())\n    } else {\n        info!(\"Account owner mismatch\");\n        Err(ProgramError::Custom(0x100))\n    }\n}\n\nfn entry("),
   (AOF, "    if expected_owner != *account.owner {\n        info!(\"Account owner mismatch\");\n        return Err(ProgramError::Custom(0x100));\n    }\n    Ok(())", "    check_owner(&expected_owner, account)"), scope='ws')
ok('r-a-iter', (AOF, "let account = accounts.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?", "let account = solana_program::account_info::next_account_info(&mut accounts.iter())?"), scope='ws')
bug('er-fake', 'C31', (ER, "    FakeErrorSoWeDontChangeNumbers,\n", ""))
bug('er-swap', 'C31', (ER, "    WouldSelfTrade,\n    InvalidOpenOrdersAuthority,", "    InvalidOpenOrdersAuthority,\n    WouldSelfTrade,"))
bug('er-shift', 'C31', (ER, "as u32) << 24)", "as u32) << 16)"))
bug('er-swallow', 'C31', (LB, """    Ok(state::State::process(
        program_id,
        accounts,
        instruction_data,
    )?)""", """    match state::State::process(program_id, accounts, instruction_data) {
        Err(error::DexError::ErrorCode(error::DexErrorCode::RequestQueueEmpty)) => Ok(()),
        r => Ok(r?),
    }"""))
bug('er-code-generic', 'C31', (ER, "            DexError::ErrorCode(c) => ProgramError::Custom(c.into()),", "            DexError::ErrorCode(DexErrorCode::Unknown) => ProgramError::InvalidArgument,\n            DexError::ErrorCode(c) => ProgramError::Custom(c.into()),"))
bug('er-undec', 'C31 C18', (ST, "ok_or(ProgramError::InvalidArgument)?;", "ok_or(ProgramError::InvalidArgument);\n        let instruction = match instruction {\n            Ok(i) => i,\n            Err(_) => return Ok(()),\n        };"))
bug('er-builtin', 'C31', (ER, "            DexError::ProgramError(e) => e,", "            DexError::ProgramError(ProgramError::Custom(c)) => ProgramError::Custom(c & 0xffff),\n            DexError::ProgramError(e) => e,"))
ok('r-e-map', (LB, """    Ok(state::State::process(
        program_id,
        accounts,
        instruction_data,
    )?)""", """    state::State::process(program_id, accounts, instruction_data).map_err(|e| e.into())"""))
ok('r-e-match', (LB, """    Ok(state::State::process(
        program_id,
        accounts,
        instruction_data,
    )?)""", """    match state::State::process(program_id, accounts, instruction_data) {
        Ok(()) => Ok(()),
        Err(e) => Err(e.into()),
    }"""))
ok('r-e-or', (ER, "(err.line as u32) + ((err.file_id as u8 as u32) << 24)", "(u32::from(err.line)) | (u32::from(err.file_id as u8) << 24)"))
ok('r-e-add', (ER, "    MinAmountNotMet,\n", "    MinAmountNotMet,\n    Reserved,\n"))
ok('r-e-iflet', (ER, """        match e {
            DexError::ProgramError(e) => e,
            DexError::ErrorCode(c) => ProgramError::Custom(c.into()),
        }""", """        let code = match e {
            DexError::ProgramError(p) => return p,
            DexError::ErrorCode(c) => c,
        };
        let n: u32 = code.into();
        ProgramError::Custom(n)"""))

# ------------------------------------------------------------------ crank client
CK = 'dex/crank/src/lib.rs'
W = dict(scope='ws')
bug('ck-bids-asks', 'C32', (CK, "        bids: Box::new(Pubkey::new(transmute_one_to_bytes(&identity(\n            market_state.bids,", "        bids: Box::new(Pubkey::new(transmute_one_to_bytes(&identity(\n            market_state.asks,"), **W)
bug('ck-own-addr', 'C32', (CK, """    assert_eq!(
        transmute_to_bytes(&identity(market_state.own_address)),
        market.as_ref()
    );
""", ""), **W)
bug('ck-flags', 'C32', (CK, """                .map_err(|e| e.without_src())?;
            state.check_flags(true)?;
            state
""", """                .map_err(|e| e.without_src())?;
            state
"""), **W)
bug('ck-tail-marker', 'C32', (CK, """    if tail != ACCOUNT_TAIL_PADDING {""", """    if tail[..6] != ACCOUNT_TAIL_PADDING[..6] {"""), **W)
bug('ck-tail-len', 'C32', (CK, "let tail_len = header.count() as usize - head_len;\n    Ok((header, &head_seg[..head_len], &tail_seg[..tail_len]))\n}\n\nfn parse_req_queue", "let tail_len = (header.count() as usize).saturating_sub(events.len() - header.head() as usize).min(tail_seg.len().saturating_sub(1));\n    Ok((header, &head_seg[..head_len], &tail_seg[..tail_len]))\n}\n\nfn parse_req_queue"), **W)
bug('ck-req-hdr', 'C32', (CK, "request.split_at(header.head() as usize)", "request.split_at(header.count() as usize)"), **W)
bug('ck-req-size', 'C32', (CK, "data_words.split_at(size_of::<RequestQueueHeader>() >> 3)", "data_words.split_at((size_of::<RequestQueueHeader>() >> 3) + 1)"), (CK, "transmute_one_pedantic(transmute_to_bytes(header_words)).map_err(|e| e.without_src())?;\n    let request", "transmute_one_pedantic(transmute_to_bytes(&header_words[1..])).map_err(|e| e.without_src())?;\n    let request"), **W)
bug('ck-swap-seg', 'C32', (CK, "    Ok((header, &head_seg[..head_len], &tail_seg[..tail_len]))\n}\n\nfn parse_req_queue", "    Ok((header, &tail_seg[..tail_len], &head_seg[..head_len]))\n}\n\nfn parse_req_queue"), **W)
bug('ck-inner-off', 'C32', (CK, "ACCOUNT_HEAD_PADDING.len()..(data.len() - ACCOUNT_TAIL_PADDING.len())", "ACCOUNT_TAIL_PADDING.len()..(data.len() - ACCOUNT_HEAD_PADDING.len())"), **W)
bug('ck-nonce', 'C32', (CK, "gen_vault_signer_key(market_state.vault_signer_nonce, market, program_id)?", "gen_vault_signer_key(market_state.vault_signer_nonce & 0xff, market, program_id)?"), **W)
bug('ck-place-vaults', 'C33', (CK, "            AccountMeta::new(*state.coin_vault, false),\n            AccountMeta::new(*state.pc_vault, false),\n            AccountMeta::new_readonly(spl_token::ID, false),\n            AccountMeta::new_readonly(solana", "            AccountMeta::new(*state.pc_vault, false),\n            AccountMeta::new(*state.coin_vault, false),\n            AccountMeta::new_readonly(spl_token::ID, false),\n            AccountMeta::new_readonly(solana"), **W)
bug('ck-settle-signer', 'C33', (CK, "AccountMeta::new_readonly(signer.unwrap_or(payer).pubkey(), true)", "AccountMeta::new_readonly(payer.pubkey(), true)"), **W)
bug('ck-settle-nosign', 'C33', (CK, "    if let Some(s) = signer {\n        signers.push(s);\n    }\n", ""), **W)
bug('ck-settle-wallets', 'C33', (CK, "            AccountMeta::new(*coin_wallet, false),\n            AccountMeta::new(*pc_wallet, false),\n            AccountMeta::new_readonly(*state.vault_signer_key", "            AccountMeta::new(*pc_wallet, false),\n            AccountMeta::new(*coin_wallet, false),\n            AccountMeta::new_readonly(*state.vault_signer_key"), **W)
bug('ck-consume-nosort', 'C33', (CK, "    orders_accounts.sort_unstable();\n", ""), **W)
bug('ck-consume-half', 'C33', (CK, "    let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);\n    let mut orders", "    let accounts = seg0.iter().map(|event| event.owner);\n    let mut orders"), **W)
bug('ck-consume-order', 'C33', (CK, "[&state.market, &state.event_q, coin_wallet, pc_wallet]", "[&state.event_q, &state.market, coin_wallet, pc_wallet]"), **W)
bug('ck-consume-ro', 'C33', (CK, "        account_metas.push(AccountMeta::new(pubkey, false));\n    }\n    for pubkey in [&state", "        account_metas.push(AccountMeta::new_readonly(pubkey, false));\n    }\n    for pubkey in [&state"), **W)
bug('ck-oo-size', 'C33', (CK, "    let len = unpadded_len + 12;", "    let len = (unpadded_len + 12) & !7;"), **W)
bug('ck-rent', 'C33', (CK, "client.get_minimum_balance_for_rent_exemption(len)?,\n        len as u64,", "client.get_minimum_balance_for_rent_exemption(unpadded_len)?,\n        len as u64,"), **W)
bug('ck-list-vault', 'C33', (CK, "create_token_account(client, pc_mint, &listing_keys.vault_signer_pk, payer)?", "create_token_account(client, pc_mint, &payer.pubkey(), payer)?"), **W)
bug('ck-list-books', 'C33', (CK, "        bids: Box::new(bids_key.pubkey()),\n        asks: Box::new(asks_key.pubkey()),", "        bids: Box::new(asks_key.pubkey()),\n        asks: Box::new(bids_key.pubkey()),"), **W)
bug('ck-list-nonce', 'C33', (CK, "break (i, pk);", "break (i & 1, pk);"), **W)
bug('ck-cancel-side', 'C33', (CK, "        &state.bids,\n        &state.asks,\n        orders,\n        &owner.pubkey(),\n        &state.event_q,\n        client_order_ids,", "        &state.asks,\n        &state.bids,\n        orders,\n        &owner.pubkey(),\n        &state.event_q,\n        client_order_ids,"), **W)
bug('ck-close-dest', 'C33', (CK, "        orders,\n        &owner.pubkey(),\n        &owner.pubkey(),\n        &state.market,", "        orders,\n        &owner.pubkey(),\n        program_id,\n        &state.market,"), **W)
bug('ck-place-orders-none', 'C33', (CK, "    *orders = Some(orders_pubkey);\n    let _side", "    let _side"), **W)
bug('ck-once-u8', 'C33', (CK, "MarketInstruction::ConsumeEvents(to_consume as u16)", "MarketInstruction::ConsumeEvents(to_consume as u8 as u16)"), **W)
ok('r-ck-metas-helper', (CK, "fn settle_funds(", "fn w(k: &Pubkey) -> AccountMeta {\n    AccountMeta::new(*k, false)\n}\n\nfn settle_funds("), (CK, "            AccountMeta::new(*state.market, false),\n            AccountMeta::new(*orders, false),\n            AccountMeta::new_readonly(signer", "            w(&state.market),\n            w(orders),\n            AccountMeta::new_readonly(signer"), **W)
ok('r-ck-settle-owner', (CK, "    let data = MarketInstruction::SettleFunds.pack();", "    let owner = match signer {\n        Some(s) => s.pubkey(),\n        None => payer.pubkey(),\n    };\n    let data = MarketInstruction::SettleFunds.pack();"), (CK, "signer.unwrap_or(payer).pubkey(), true", "owner, true"), **W)
ok('r-ck-pad-order', (CK, "    let head = &data[..ACCOUNT_HEAD_PADDING.len()];\n", ""), (CK, "    if head != ACCOUNT_HEAD_PADDING {", "    let head = &data[..ACCOUNT_HEAD_PADDING.len()];\n    if head != ACCOUNT_HEAD_PADDING {"), **W)
ok('r-ck-pad-starts', (CK, "    let head = &data[..ACCOUNT_HEAD_PADDING.len()];\n", ""), (CK, "    if head != ACCOUNT_HEAD_PADDING {", "    if !data.starts_with(ACCOUNT_HEAD_PADDING) {"), (CK, "    let tail = &data[data.len() - ACCOUNT_TAIL_PADDING.len()..];\n    if tail != ACCOUNT_TAIL_PADDING {", "    if !data.ends_with(ACCOUNT_TAIL_PADDING) {"), **W)
ok('r-ck-queue-min', (CK, "    let head_len = head_seg.len().min(header.count() as usize);\n    let tail_len = header.count() as usize - head_len;\n    Ok((header, &head_seg[..head_len], &tail_seg[..tail_len]))\n}\n\nfn parse_req_queue", "    let count = header.count() as usize;\n    let head_len = if count < head_seg.len() { count } else { head_seg.len() };\n    let tail_len = count - head_len;\n    Ok((header, &head_seg[..head_len], &tail_seg[..tail_len]))\n}\n\nfn parse_req_queue"), **W)
ok('r-ck-queue-idx', (CK, "    let (tail_seg, head_seg) = events.split_at(header.head() as usize);", "    let head = header.head() as usize;\n    let tail_seg = &events[..head];\n    let head_seg = &events[head..];"), **W)
ok('r-ck-keys-helper', (CK, "fn parse_event_queue(", "fn to_key(words: [u64; 4]) -> Box<Pubkey> {\n    Box::new(Pubkey::new(transmute_one_to_bytes(&words)))\n}\n\nfn parse_event_queue("), (CK, "        bids: Box::new(Pubkey::new(transmute_one_to_bytes(&identity(\n            market_state.bids,\n        )))),", "        bids: to_key(market_state.bids),"), **W)
ok('r-ck-meta-extend', (CK, "    for pubkey in [&state.market, &state.event_q, coin_wallet, pc_wallet].iter() {\n        account_metas.push(AccountMeta::new(**pubkey, false));\n    }", "    account_metas.push(AccountMeta::new(*state.market, false));\n    account_metas.push(AccountMeta::new(*state.event_q, false));\n    account_metas.push(AccountMeta::new(*coin_wallet, false));\n    account_metas.push(AccountMeta::new(*pc_wallet, false));"), **W)
ok('r-ck-meta-map', (CK, """    let mut account_metas = Vec::with_capacity(orders_accounts.len() + 4);
    for pubkey_words in orders_accounts {
        let pubkey = Pubkey::new(transmute_to_bytes(&pubkey_words));
        account_metas.push(AccountMeta::new(pubkey, false));
    }
    for pubkey in [&state""", """    let mut account_metas: Vec<AccountMeta> = orders_accounts
        .iter()
        .map(|words| AccountMeta::new(Pubkey::new(transmute_to_bytes(words)), false))
        .collect();
    for pubkey in [&state"""), **W)
ok('r-ck-place-iflet', (CK, """    let orders_pubkey = match *orders {
        Some(pk) => pk,
        None => {
            let (orders_key, instruction) = create_dex_account(
                client,
                program_id,
                &payer.pubkey(),
                size_of::<serum_dex::state::OpenOrders>(),
            )?;
            orders_keypair = orders_key;
            signers.push(&orders_keypair);
            instructions.push(instruction);
            orders_keypair.pubkey()
        }
    };""", """    let orders_pubkey = if let Some(pk) = orders {
        *pk
    } else {
        let (orders_key, instruction) = create_dex_account(
            client,
            program_id,
            &payer.pubkey(),
            size_of::<serum_dex::state::OpenOrders>(),
        )?;
        orders_keypair = orders_key;
        signers.push(&orders_keypair);
        instructions.push(instruction);
        orders_keypair.pubkey()
    };"""), **W)
ok('r-ck-txn-helper', (CK, "fn create_dex_account(", """fn sign_and_send(client: &RpcClient, ixs: &[Instruction], payer: &Keypair) -> Result<()> {
    let recent_hash = client.get_latest_blockhash()?;
    let txn = Transaction::new_signed_with_payer(ixs, Some(&payer.pubkey()), &[payer], recent_hash);
    let result = simulate_transaction(client, &txn, true, CommitmentConfig::confirmed())?;
    if let Some(e) = result.value.err {
        return Err(format_err!("simulate_transaction error: {:?}", e));
    }
    send_txn(client, &txn, false)?;
    Ok(())
}

fn create_dex_account("""), (CK, """        client_order_ids,
    )?];
    let recent_hash = client.get_latest_blockhash()?;
    let txn = Transaction::new_signed_with_payer(ixs, Some(&owner.pubkey()), &[owner], recent_hash);

    debug_println!("Canceling orders by client order ids instruction ...");
    let result = simulate_transaction(client, &txn, true, CommitmentConfig::confirmed())?;
    debug_println!("{:#?}", result.value.logs);
    if let Some(e) = result.value.err {
        return Err(format_err!("simulate_transaction error: {:?}", e));
    }

    send_txn(client, &txn, false)?;

    Ok(())""", """        client_order_ids,
    )?];
    sign_and_send(client, ixs, owner)"""), **W)
ok('r-ck-list-signers', (CK, "        &asks_key,\n        &req_q_key,\n        &event_q_key,\n    ];", "        &asks_key,\n    ];"), **W)
ok('r-ck-nonce-iter', (CK, """        let mut i = 0;
        loop {
            assert!(i < 100);
            if let Ok(pk) = gen_vault_signer_key(i, &market_key.pubkey(), program_id) {
                break (i, pk);
            }
            i += 1;
        }""", """        let mut i = 0;
        let mut found = None;
        while found.is_none() {
            assert!(i < 100);
            match gen_vault_signer_key(i, &market_key.pubkey(), program_id) {
                Ok(pk) => found = Some((i, pk)),
                Err(_) => i += 1,
            }
        }
        found.unwrap()"""), **W)
ok('r-l-starts', (ST, "    check_assert_eq!(head, ACCOUNT_HEAD_PADDING)?;", "    check_assert!(head.starts_with(ACCOUNT_HEAD_PADDING))?;"))
