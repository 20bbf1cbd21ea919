From 0f54f09ef7c5298e8f1d147a499f1c7e8002386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 01/10] hook: expose service and storage modules under
 cfg(verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bfe9282..651ec83 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,3 +28,10 @@ impl InvariantProgram {
         InvariantService::new(GStdExecContext::new())
     }
 }
+
+// Verification hook: only with RUSTFLAGS="--cfg verif" the otherwise private service and
+// storage modules are visible to the out-of-tree harness. Changes nothing with the flag off.
+#[cfg(verif)]
+pub mod verif {
+    pub use crate::{invariant_service::*, invariant_storage::*};
+}
-- 
2.43.0


From 65a834bd219ef671349f1b2ebf62c3f98a7e18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 02/10] fix: keep swap steps by input amount within their
 target price and amount

---
 calc/math/clamm.rs    | 17 ++++++++++++++---
 sdk/src/wasm/clamm.rs | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..0fca91e 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -36,9 +36,9 @@ pub fn compute_swap_step(
         TokenAmount::new(U256::from(0)),
     );
 
-    if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
+    if by_amount_in {
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
         } else {
@@ -48,12 +48,18 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let sqrt_price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // amount_in is rounded up, so a smaller amount can still be enough to reach the target
+            next_sqrt_price = if x_to_y && sqrt_price_from_input < target_sqrt_price {
+                target_sqrt_price
+            } else {
+                sqrt_price_from_input
+            };
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -112,6 +118,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed what is left of amount after the fee
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..f562f05 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -65,9 +65,9 @@ pub fn compute_swap_step(
         TokenAmount::new(U256::from(0)),
     );
 
-    if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
+    if by_amount_in {
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
         } else {
@@ -77,12 +77,18 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let sqrt_price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // amount_in is rounded up, so a smaller amount can still be enough to reach the target
+            next_sqrt_price = if x_to_y && sqrt_price_from_input < target_sqrt_price {
+                target_sqrt_price
+            } else {
+                sqrt_price_from_input
+            };
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -141,6 +147,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed what is left of amount after the fee
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
-- 
2.43.0


From 3c9257ad6a98a77f0da7e925fa01337a68a104f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 03/10] fix: checked casts of big integers to u8, u16 and u32
 see every limb

---
 calc/decimal/decimal_core/src/uint_casts.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/calc/decimal/decimal_core/src/uint_casts.rs b/calc/decimal/decimal_core/src/uint_casts.rs
index 191dcf7..24a39d5 100644
--- a/calc/decimal/decimal_core/src/uint_casts.rs
+++ b/calc/decimal/decimal_core/src/uint_casts.rs
@@ -250,10 +250,16 @@ pub fn impl_primitive_casts(
         .map(|v| proc_macro2::Ident::new(v, proc_macro2::Span::call_site()))
         .for_each(|primitive| {
             let down_cast_error = alloc::format!("Failed to cast {} to {}", uint, primitive);
+            let overflow_check = if chunk_count >= 2 {
+                let overflow_chunks = overflow_chunks(1..chunk_count, param_name.clone());
+                quote! { (#overflow_chunks) != 0 || }
+            } else {
+                Default::default()
+            };
             expanded.append_all(quote! {
               impl #checked_cast_trait_name <#uint> for #primitive {
                 fn #checked_cast_function_name(#param_name: #uint)-> Result<#primitive, String> {
-                  if #param_name.0[0] > #primitive::MAX as u64 {
+                  if #overflow_check #param_name.0[0] > #primitive::MAX as u64 {
                     return Err(#down_cast_error.to_string());
                   }
 
-- 
2.43.0


From 62dd89b913b0166439a63de0f65878c05aef481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 04/10] fix: an upward swap stopping at a limit on an
 initialised tick crosses it

---
 sdk/src/wasm/collections/tickmap.rs  | 3 ++-
 src/contracts/collections/tickmap.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/collections/tickmap.rs b/sdk/src/wasm/collections/tickmap.rs
index 3841b9e..02c9609 100644
--- a/sdk/src/wasm/collections/tickmap.rs
+++ b/sdk/src/wasm/collections/tickmap.rs
@@ -258,8 +258,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // upwards a tick is passed once its price is reached, so at the limit as well
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index c0cfbae..b8145f6 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -195,8 +195,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // upwards a tick is passed once its price is reached, so at the limit as well
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0


From f06e6774b8b4f68be3a50f3b8deb36244d04390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 05/10] fix: the liquidity tick count includes the last chunk
 of the tick map

---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..74fa58a 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -307,7 +307,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From 01a08f9524110dec3b61ab62aadc60f0107c16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 06/10] fix: an answer that comes after its wait timed out
 still settles the transfer

---
 src/invariant_service.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 84828a8..cab2bd1 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -1189,11 +1189,15 @@ where
         token: ActorId,
         transfer_type: TransferType,
     ) -> Result<(), InvariantError> {
-        if invariant
-            .awaiting_transfers
-            .remove(&(message_id, token))
-            .is_some()
-        {
+        let transfer = (message_id, token);
+
+        if invariant.awaiting_transfers.contains_key(&transfer) {
+            // A reply can still arrive after the wait has timed out, so the transfer
+            // has to stay pending for the reply handler to settle it
+            if !matches!(&message, Err(e) if e.timed_out()) {
+                invariant.awaiting_transfers.remove(&transfer);
+            }
+
             return Err(InvariantError::ReplyHandlingFailed);
         }
 
-- 
2.43.0


From e2fbdc9ea6f7ade39671e507929820aa7a953741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 07/10] fix: round the other token's amount of a liquidity over
 its whole liquidity

---
 sdk/src/wasm/math.rs                    | 43 +++++++++++++------------
 src/contracts/logic/liquidity_result.rs | 43 +++++++++++++------------
 2 files changed, 44 insertions(+), 42 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 98c1011..5efa50e 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -183,16 +183,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
+    let nominator = liquidity.cast::<U512>() * nominator.cast::<U512>();
+    let denominator = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
 
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
+    let x = if rounding_up {
+        (nominator + denominator - 1) / denominator
     } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
+        nominator / denominator
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(x).map_err(|_| err!("Overflow in calculating x"))?,
+    ))
 }
 
 pub fn calculate_y(
@@ -200,18 +202,17 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
+    let nominator = liquidity.cast::<U512>() * sqrt_price_diff.cast::<U512>();
+    let denominator =
+        SqrtPrice::from_integer(1).cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+
+    let y = if rounding_up {
+        (nominator + denominator - 1) / denominator
     } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
+        nominator / denominator
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(y).map_err(|_| err!("Overflow in calculating y"))?,
+    ))
 }
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 985ce59..7f10a01 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -249,16 +249,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
+    let nominator = liquidity.cast::<U512>() * nominator.cast::<U512>();
+    let denominator = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
 
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
+    let x = if rounding_up {
+        (nominator + denominator - 1) / denominator
     } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
+        nominator / denominator
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(x).map_err(|_| err!("Overflow in calculating x"))?,
+    ))
 }
 
 pub fn calculate_y(
@@ -266,20 +268,19 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
+    let nominator = liquidity.cast::<U512>() * sqrt_price_diff.cast::<U512>();
+    let denominator =
+        SqrtPrice::from_integer(1).cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+
+    let y = if rounding_up {
+        (nominator + denominator - 1) / denominator
     } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
+        nominator / denominator
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(y).map_err(|_| err!("Overflow in calculating y"))?,
+    ))
 }
 
 #[cfg(test)]
-- 
2.43.0


From cf5cf92e958a54d15f98c52a2e2fb0ff6d3a57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 08/10] fix: refuse a liquidity by one token at the edge where
 the range holds none of it

---
 sdk/src/wasm/math.rs                    | 4 ++--
 src/contracts/logic/liquidity_result.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 5efa50e..cc886f4 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -58,7 +58,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -133,7 +133,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 7f10a01..f9e1eb7 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(lower_tick))?;
     let upper_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(upper_tick))?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = ok_or_mark_trace!(get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = ok_or_mark_trace!(get_liquidity_by_x_sqrt_price(
             x,
@@ -124,7 +124,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -199,7 +199,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
-- 
2.43.0


From 8ab26b75f19f4f482ebea86d68e712b1105530d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 09/10] fix: answer the amounts that belong to the liquidity of
 both tokens

---
 src/contracts/logic/liquidity_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index f9e1eb7..8cfa54e 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From a6a2e31233a2d88994895ba54227102c8bcdf24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:31 +0000
Subject: [PATCH 10/10] verification hook: record events under cfg(verif)

---
 io/src/lib.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/io/src/lib.rs b/io/src/lib.rs
index 9a3fa78..24cf70f 100644
--- a/io/src/lib.rs
+++ b/io/src/lib.rs
@@ -21,7 +21,8 @@ impl Default for InvariantConfig {
     }
 }
 
-#[derive(Clone, Decode, Encode, Debug, PartialEq, Eq, TypeInfo)]
+#[derive(Clone, Decode, Debug, PartialEq, Eq, TypeInfo)]
+#[cfg_attr(not(verif), derive(Encode))]
 pub enum InvariantEvent {
     PositionCreatedEvent {
         timestamp: u64,
@@ -84,3 +85,28 @@ pub struct QuoteResult {
     pub target_sqrt_price: SqrtPrice,
     pub ticks: Vec<Tick>,
 }
+
+// Verification hook: only with RUSTFLAGS="--cfg verif" an event is recorded when it is encoded, which is what
+// emitting it does first. Off the chain nothing else of it can be observed.
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    use sails_rs::scale_codec::Output;
+
+    pub static mut EVENTS: Vec<InvariantEvent> = Vec::new();
+
+    impl Encode for InvariantEvent {
+        fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
+            #[allow(static_mut_refs)]
+            unsafe {
+                EVENTS.push(self.clone())
+            };
+            dest.push_byte(match self {
+                InvariantEvent::PositionCreatedEvent { .. } => 0,
+                InvariantEvent::PositionRemovedEvent { .. } => 1,
+                InvariantEvent::CrossTickEvent { .. } => 2,
+                InvariantEvent::SwapEvent { .. } => 3,
+            });
+        }
+    }
+}
-- 
2.43.0

