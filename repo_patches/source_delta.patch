From d45646b4424f79f6d7219212168f2bcaa243c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:18 +0000
Subject: [PATCH] fix: report the coin still locked by a self-trading ask in
 native units

The taker's Out event of a decrement-take/cancel-provide self-trade on the ask
side gave native_qty_still_locked in lots; every other event, and the bid side,
gives native units.
---
 dex/src/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/src/matching.rs b/dex/src/matching.rs
index 1918dd5..e620677 100644
--- a/dex/src/matching.rs
+++ b/dex/src/matching.rs
@@ -445,7 +445,7 @@ impl<'ob> OrderBookState<'ob> {
                     side: Side::Ask,
                     release_funds: false,
                     native_qty_unlocked: cancelled_take_qty * coin_lot_size,
-                    native_qty_still_locked: unfilled_qty,
+                    native_qty_still_locked: unfilled_qty * coin_lot_size,
                     order_id,
                     owner,
                     owner_slot,
-- 
2.43.0

