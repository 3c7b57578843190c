From 794d4a1787e8bbeada2bd414c2f6f9eb2c8fb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 01/12] fix: checked downcasts of big uints to u8/u16/u32 must
 look at every chunk

---
 calc/decimal/decimal_core/src/uint_casts.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/calc/decimal/decimal_core/src/uint_casts.rs b/calc/decimal/decimal_core/src/uint_casts.rs
index 191dcf7..d5eb1ac 100644
--- a/calc/decimal/decimal_core/src/uint_casts.rs
+++ b/calc/decimal/decimal_core/src/uint_casts.rs
@@ -250,10 +250,16 @@ pub fn impl_primitive_casts(
         .map(|v| proc_macro2::Ident::new(v, proc_macro2::Span::call_site()))
         .for_each(|primitive| {
             let down_cast_error = alloc::format!("Failed to cast {} to {}", uint, primitive);
+            // the value fits only if every chunk above the first one is empty
+            let upper_chunks = if chunk_count >= 2 {
+                overflow_chunks(1..chunk_count, param_name.clone())
+            } else {
+                quote! { 0 }
+            };
             expanded.append_all(quote! {
               impl #checked_cast_trait_name <#uint> for #primitive {
                 fn #checked_cast_function_name(#param_name: #uint)-> Result<#primitive, String> {
-                  if #param_name.0[0] > #primitive::MAX as u64 {
+                  if #upper_chunks != 0 || #param_name.0[0] > #primitive::MAX as u64 {
                     return Err(#down_cast_error.to_string());
                   }
 
-- 
2.43.0


From d1e511b55e22bd9da043b6c3262454a7c8ec11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 02/12] fix: get_delta_x must round the nominator up when
 rounding the amount up

---
 calc/math/clamm.rs    | 6 +++++-
 sdk/src/wasm/clamm.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..dfaaf16 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -142,7 +142,11 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
+    let nominator = if rounding_up {
+        delta_price.big_mul_to_value_up(liquidity)
+    } else {
+        delta_price.big_mul_to_value(liquidity)
+    };
 
     ok_or_mark_trace!(match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..5da7473 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -172,7 +172,11 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
+    let nominator = if rounding_up {
+        delta_price.big_mul_to_value_up(liquidity)
+    } else {
+        delta_price.big_mul_to_value(liquidity)
+    };
 
     ok_or_mark_trace!(match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
-- 
2.43.0


From 33a2d6d1f55a41420fbe507c697570d1e7bfb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 03/12] fix: compute_swap_step must not carry the price past
 the target when amount_in was rounded up

---
 calc/math/clamm.rs    | 12 +++++++++++-
 sdk/src/wasm/clamm.rs | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index dfaaf16..017aafd 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -48,12 +48,22 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // amount_in is rounded up, so an amount slightly below it may still reach the target;
+            // the price must not be carried past it
+            if (x_to_y && price_from_input <= target_sqrt_price)
+                || (!x_to_y && price_from_input >= target_sqrt_price)
+            {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            } else {
+                next_sqrt_price = price_from_input;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 5da7473..6fd7933 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -77,12 +77,22 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // amount_in is rounded up, so an amount slightly below it may still reach the target;
+            // the price must not be carried past it
+            if (x_to_y && price_from_input <= target_sqrt_price)
+                || (!x_to_y && price_from_input >= target_sqrt_price)
+            {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            } else {
+                next_sqrt_price = price_from_input;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
-- 
2.43.0


From 530d4cddbe09d2b12494f144c5d04a3e42bb8c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 04/12] fix: calculate_sqrt_price must refuse i32::MIN instead
 of overflowing

---
 calc/math/types/sqrt_price.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calc/math/types/sqrt_price.rs b/calc/math/types/sqrt_price.rs
index 6dcb2a1..4d3c325 100644
--- a/calc/math/types/sqrt_price.rs
+++ b/calc/math/types/sqrt_price.rs
@@ -145,7 +145,9 @@ pub fn check_tick_to_sqrt_price_relationship(
 
 pub fn calculate_sqrt_price(tick_index: i32) -> TrackableResult<SqrtPrice> {
     // checking if tick be converted to sqrt_price (overflows if more)
-    let tick = tick_index.abs();
+    let tick = tick_index
+        .checked_abs()
+        .ok_or_else(|| err!("tick over bounds"))?;
 
     if tick > MAX_TICK {
         return Err(err!("tick over bounds"));
-- 
2.43.0


From b1d53f121d97019f9b921badf5de7d6be64d7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 05/12] fix: get_liquidity must report the limiting token's
 given amount, not the unlimited result's

---
 src/contracts/logic/liquidity_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 985ce59..7642d29 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From a2a8f422e4c6cd7c3e928f28a825faa4edb0ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 06/12] fix: liquidity_ticks_count must include the last chunk
 of the tick map

---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..74fa58a 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -307,7 +307,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From 9f8d3e873d00e284c62f7f801d7ed6e9265b673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 07/12] fix: a step down that cannot move the price must not
 undo the tick crossing before it

After a tick was crossed downwards the next step can end at the very same
price (the remaining input is too small to move it). update_tick then set the
current tick from the price, i.e. back to the tick just crossed, although the
tick's liquidity had already been taken out of the pool.
---
 src/contracts/storage/pool.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f8ecacf..0ee531f 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -156,11 +156,19 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing
             ));
 
+            // a step that could not move the price away from a tick crossed downwards
+            // must not bring the pool back above that tick
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return (total_amount, remaining_amount, has_crossed);
         };
 
-- 
2.43.0


From cab92e3bc7898a6b62d6a91cfec3a7ca1d6bc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 08/12] fix: an initialized tick whose price is the price limit
 has to be crossed when it is reached upwards

Such a swap stopped at the price of the tick with the tick as current tick, but
without adding the tick's liquidity to the pool.
---
 src/contracts/collections/tickmap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index c0cfbae..6a61a6b 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -195,8 +195,10 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // a tick reached upwards is part of the pool's range from its price on, so it
+                // has to be crossed even if the price limit is the price of the tick
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0


From b702623c08564e025a8c60db66621fcf2f02c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 09/12] fix: calculate_sqrt_price of the client library must
 refuse i32::MIN instead of overflowing

---
 sdk/src/wasm/types/sqrt_price.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/src/wasm/types/sqrt_price.rs b/sdk/src/wasm/types/sqrt_price.rs
index 5bb9833..5391718 100644
--- a/sdk/src/wasm/types/sqrt_price.rs
+++ b/sdk/src/wasm/types/sqrt_price.rs
@@ -132,7 +132,9 @@ impl SqrtPrice {
 #[wasm_wrapper("_calculateSqrtPrice")]
 pub fn calculate_sqrt_price(tick_index: i32) -> TrackableResult<SqrtPrice> {
     // checking if tick be converted to sqrt_price (overflows if more)
-    let tick = tick_index.abs();
+    let tick = tick_index
+        .checked_abs()
+        .ok_or_else(|| err!("tick over bounds"))?;
 
     if tick > MAX_TICK {
         return Err(err!("tick over bounds"));
-- 
2.43.0


From 1008279df97d5bddbf579bbd150c765aa49da28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 10/12] fix: a simulated step down that cannot move the price
 must not undo the tick crossing before it

---
 sdk/src/wasm/storage/pool.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sdk/src/wasm/storage/pool.rs b/sdk/src/wasm/storage/pool.rs
index d081737..8db7f1d 100644
--- a/sdk/src/wasm/storage/pool.rs
+++ b/sdk/src/wasm/storage/pool.rs
@@ -50,11 +50,19 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             )) as i64;
 
+            // a step that could not move the price away from a tick crossed downwards
+            // must not bring the pool back above that tick
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-- 
2.43.0


From 64528ad61dc22c837bbdda690d254dcd26ea321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 11/12] fix: a simulated swap must cross an initialized tick
 reached upwards at the price limit

---
 sdk/src/wasm/collections/tickmap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/src/wasm/collections/tickmap.rs b/sdk/src/wasm/collections/tickmap.rs
index 3841b9e..065d536 100644
--- a/sdk/src/wasm/collections/tickmap.rs
+++ b/sdk/src/wasm/collections/tickmap.rs
@@ -258,8 +258,10 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // a tick reached upwards is part of the pool's range from its price on, so it
+                // has to be crossed even if the price limit is the price of the tick
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0


From 54d9a0046c04b604f653ce43e4ec62e4385ca47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 12/12] fix: removing a pool key leaves no hole in the list of
 pool keys

---
 src/contracts/collections/pool_keys.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index db858e9..5bb3511 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -30,8 +30,16 @@ impl PoolKeys {
     pub fn remove(&mut self, pool_key: &PoolKey) -> Result<(), InvariantError> {
         match self.get_index(pool_key) {
             Some(index) => {
-                self.pool_keys_by_index.remove(&index);
-                self.pool_keys_length -= 1;
+                let last_index = self.pool_keys_length - 1;
+                let last_pool_key = self.pool_keys_by_index.remove(&last_index).unwrap();
+
+                // indices have to stay gapless, the last pool key takes the freed one
+                if index < last_index {
+                    self.pool_keys_by_index.insert(index, last_pool_key);
+                    self.pool_keys.insert(last_pool_key, index);
+                }
+
+                self.pool_keys_length = last_index;
                 self.pool_keys.remove(pool_key);
                 Ok(())
             }
-- 
2.43.0

