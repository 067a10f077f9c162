From 367e84f32e793f74d61ac802f2f5e3e5e4ca2eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 1/6] fix: refuse one-sided deposits on pools that do not
 accept deposits

DepositAllTokenTypes is refused on curves whose allows_deposits() is false
(offset, linear price), DepositSingleTokenTypeExactAmountIn was not.
---
 programs/token-bonding-curve/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..b6d976c 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,10 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        let calculator = &token_swap.swap_curve().calculator;
+        if !calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From 6b2d60289047a437c34a03b7099ba586f0bedc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 2/6] fix: round the collateral for the last bonded tokens up

Buying out a linear pool charged the remaining collateral rounded to the
nearest unit, leaving the bonded tokens up to half a unit short of backing.
---
 programs/token-bonding-curve/src/curve/linear_price.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index 947abab..2a79cec 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -176,7 +176,11 @@ impl LinearPriceCurve {
         let maximum_b_value =
             b_start.checked_add(&(DFSPreciseNumber::new(swap_destination_amount)?))?;
         let maximum_a_locked = self.amt_a_locked_at_b_value_quadratic(&maximum_b_value)?;
-        let maximum_a_remaining = maximum_a_locked.checked_sub(&a_start)?.to_imprecise()?;
+        // round up so that the collateral always covers every bonded token handed out
+        let maximum_a_remaining = maximum_a_locked
+            .checked_sub(&a_start)?
+            .ceiling()?
+            .to_imprecise()?;
 
         if maximum_a_remaining <= source_amount {
             return Some((maximum_a_remaining, swap_destination_amount));
-- 
2.43.0


From 1c0a62087f46fbd9f3fe0e24e616f385fbeb0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 3/6] fix: charge the full value for constant price deposits

The value of the pool was halved rounding down before the deposit was
computed, so with an odd total a depositor paid up to half a unit per
existing share too little, at the expense of the other holders.
---
 programs/token-bonding-curve/src/curve/constant_price.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 61b9f16..8b87213 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -127,6 +127,13 @@ impl CurveCalculator for ConstantPriceCurve {
                 (token_a_amount, token_b_amount)
             }
             RoundDirection::Ceiling => {
+                // normalized_value drops the odd unit of the total, round it up instead
+                let odd_unit = swap_token_b_amount
+                    .checked_mul(token_b_price)?
+                    .checked_rem(2)?
+                    .checked_add(swap_token_a_amount.checked_rem(2)?)?
+                    .checked_rem(2)?;
+                let total_value = total_value.checked_add(odd_unit)?;
                 let (token_a_amount, _) = pool_tokens
                     .checked_mul(total_value)?
                     .checked_ceil_div(pool_token_supply)?;
-- 
2.43.0


From e6da027bec9dfeaecac124b187c92c92fb1dbe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 4/6] fix: constant price amounts worth less than one pool
 token round up to one

checked_ceil_div gives None for a quotient below one, so a swap whose owner
fee was worth less than a pool token was refused with FeeCalculationFailure
and a small one-sided withdrawal with ZeroTradingTokens; the other curves
round up.
---
 .../src/curve/constant_price.rs                 | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 8b87213..21bfdf8 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -45,13 +45,16 @@ pub fn trading_tokens_to_pool_tokens(
                 .checked_div(total_value)?
                 .as_u128(),
         ),
-        RoundDirection::Ceiling => Some(
-            pool_supply
-                .checked_mul(given_value)?
-                .checked_ceil_div(total_value)?
-                .0
-                .as_u128(),
-        ),
+        RoundDirection::Ceiling => {
+            let pool_value = pool_supply.checked_mul(given_value)?;
+            let floor = pool_value.checked_div(total_value)?;
+            let pool_tokens = if pool_value == floor.checked_mul(total_value)? {
+                floor
+            } else {
+                floor.checked_add(U256::one())?
+            };
+            Some(pool_tokens.as_u128())
+        }
     }
 }
 
-- 
2.43.0


From 37a2a67e590507c3483cb6fcb97c72e4f14635ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 5/6] fix: refuse constant price amounts too large to convert
 instead of aborting

---
 .../token-bonding-curve/src/curve/constant_price.rs   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 21bfdf8..48e111d 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -13,6 +13,7 @@ use {
         program_pack::{IsInitialized, Pack, Sealed},
     },
     spl_math::{checked_ceil_div::CheckedCeilDiv, precise_number::PreciseNumber, uint::U256},
+    std::convert::TryFrom,
 };
 
 /// Get the amount of pool tokens for the given amount of token A or B.
@@ -39,12 +40,12 @@ pub fn trading_tokens_to_pool_tokens(
         .checked_add(U256::from(swap_token_a_amount))?;
     let pool_supply = U256::from(pool_supply);
     match round_direction {
-        RoundDirection::Floor => Some(
+        RoundDirection::Floor => u128::try_from(
             pool_supply
                 .checked_mul(given_value)?
-                .checked_div(total_value)?
-                .as_u128(),
-        ),
+                .checked_div(total_value)?,
+        )
+        .ok(),
         RoundDirection::Ceiling => {
             let pool_value = pool_supply.checked_mul(given_value)?;
             let floor = pool_value.checked_div(total_value)?;
@@ -53,7 +54,7 @@ pub fn trading_tokens_to_pool_tokens(
             } else {
                 floor.checked_add(U256::one())?
             };
-            Some(pool_tokens.as_u128())
+            u128::try_from(pool_tokens).ok()
         }
     }
 }
-- 
2.43.0


From 3325caa1d9003eb404f41f7f762edbdf2dd134e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 6/6] fix: refuse a pool record without room for data instead
 of aborting

---
 programs/token-bonding-curve/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/token-bonding-curve/src/state.rs b/programs/token-bonding-curve/src/state.rs
index 842b179..89c9b0b 100644
--- a/programs/token-bonding-curve/src/state.rs
+++ b/programs/token-bonding-curve/src/state.rs
@@ -57,8 +57,11 @@ impl SwapVersion {
     pub fn pack(src: Self, dst: &mut [u8]) -> Result<(), ProgramError> {
         match src {
             Self::SwapV1(swap_info) => {
-                dst[0] = 1;
-                SwapV1::pack(swap_info, &mut dst[1..])
+                let (version, rest) = dst
+                    .split_first_mut()
+                    .ok_or(ProgramError::InvalidAccountData)?;
+                *version = 1;
+                SwapV1::pack(swap_info, rest)
             }
         }
     }
-- 
2.43.0

