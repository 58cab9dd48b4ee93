From b1f0c4416abc00d4e5441beb329a52a554439664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 1/2] fix: refuse limit orders that trade while the market is
 post-only

A limit order that used only deposited funds (PlaceLimitOrderWithFreeFunds), or
a sale whose whole proceeds went to the taker fee, leaves nothing to withdraw,
so the status check after matching was skipped and the order traded on a market
that does not allow crossing.
---
 src/program/processor/new_order.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..b8daeb0 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -380,6 +380,7 @@ fn process_new_order<'a, 'info>(
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
         base_atoms_to_deposit,
+        has_fills,
     ) = {
         let clock = Clock::get()?;
         let mut get_clock_fn = || (clock.slot, clock.unix_timestamp as u64);
@@ -406,12 +407,18 @@ fn process_new_order<'a, 'info>(
             }
         }
 
+        // The withdraw amounts alone do not tell whether the order traded: they are zero for an
+        // order that only uses deposited funds, and for a sale whose proceeds are consumed by fees.
+        let mut has_fills = false;
         let (order_id, matching_engine_response) = market_wrapper
             .inner
             .place_order(
                 trader.key,
                 *order_packet,
-                record_event_fn,
+                &mut |event| {
+                    has_fills |= matches!(event, MarketEvent::Fill { .. });
+                    record_event_fn(event)
+                },
                 &mut get_clock_fn,
             )
             .ok_or(PhoenixError::NewOrderError)?;
@@ -425,13 +432,17 @@ fn process_new_order<'a, 'info>(
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
             matching_engine_response.get_deposit_amount_ask_in_base_lots() * base_lot_size,
+            has_fills,
         )
     };
     let header = market_info.get_header()?;
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if has_fills
+        || quote_atoms_to_withdraw > QuoteAtoms::ZERO
+        || base_atoms_to_withdraw > BaseAtoms::ZERO
+    {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0


From 99755d52e4479ecd69d01c87c186ee96052d94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 2/2] fix: refuse to create a market with a zero tick size or
 no atoms per base unit

A raw_base_units_per_base_unit of 0 or a tick size of 0 passes every
divisibility check, and the market that results trades at a price of
nothing: base lots of zero atoms, or quote amounts of zero for any price.
---
 src/program/processor/initialize.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 1ac157e..cf4e625 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -105,6 +105,17 @@ pub(crate) fn process_initialize_market<'a, 'info>(
         "Taker fee must be less than or equal to 10000 basis points (100%)",
     )?;
 
+    assert_with_msg(
+        raw_base_units_per_base_unit != Some(0),
+        PhoenixError::InvalidLotSize,
+        "A base unit must contain at least one raw base unit",
+    )?;
+    assert_with_msg(
+        tick_size_in_quote_lots_per_base_unit > QuoteLotsPerBaseUnitPerTick::ZERO,
+        ProgramError::InvalidInstructionData,
+        "The tick size must be greater than zero",
+    )?;
+
     let base_atoms_per_base_unit = BaseAtomsPerBaseUnit::new(
         10u64.pow(base_mint.decimals as u32) * raw_base_units_per_base_unit.unwrap_or(1) as u64,
     );
-- 
2.43.0

