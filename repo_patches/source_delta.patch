From 1f422d4e720c50e536b3d72441473aaa8bf9819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 01/13] fix: keep harvest periods which snapshots refer to

The guard was conditional on a feature which does not exist, and hence was
only compiled in tests.
---
 programs/farming/src/models/farm.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..8e0205f 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,8 +272,7 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
-        {
+        let is_oldest_period_initialized = if cfg!(not(feature = "dev")) {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
             // allowed max number of possible configuration updates
-- 
2.43.0


From bb1dd965e0da0e12bed73a2b28843706ddd2ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 02/13] fix: promote vested tokens which are older than the
 snapshot history

Once all the snapshots were newer than the deposit, none of them was found and
the tokens stayed vested forever, without earning any harvest.
---
 programs/farming/src/models/farm.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 8e0205f..fab2080 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -334,12 +334,15 @@ impl Farm {
             .skip(inverted_tip)
             .take(consts::SNAPSHOTS_LEN)
             .find(|(_, s)| s.started_at <= slot)
-            .map(|(index, _)| index)?;
+            .map(|(index, _)| index);
 
-        Some(if pos == consts::SNAPSHOTS_LEN - 1 {
-            self.snapshots.ring_buffer[0]
-        } else {
-            self.snapshots.ring_buffer[pos + 1]
+        Some(match pos {
+            // the history does not go back that far anymore
+            None => self.oldest_snapshot(),
+            Some(pos) if pos == consts::SNAPSHOTS_LEN - 1 => {
+                self.snapshots.ring_buffer[0]
+            }
+            Some(pos) => self.snapshots.ring_buffer[pos + 1],
         })
     }
 
-- 
2.43.0


From 2705173b4b13fff204ed7b84b56f63266e39bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 03/13] fix: do not calculate harvest of a slot twice

When harvest of a slot in which a snapshot was taken had already been
calculated, promotion of vested tokens calculated it again.
---
 programs/farming/src/models/farmer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..427a408 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -166,7 +166,11 @@ impl Farmer {
                 self.set_harvests(farmer_harvests)?;
                 // and take a note that we calculated harvest until this
                 // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                //
+                // unless harvest has already been calculated even further, as
+                // the same slot must not be counted twice
+                self.calculate_next_harvest_from =
+                    self.calculate_next_harvest_from.max(snapshot.started_at);
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
-- 
2.43.0


From 0132fc454fd2aaeb3e73d124089525989e8bdb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 04/13] fix: update target farmer before compounding into it

Compounding across farms is permissionless. It restarted the vesting period of
all vested tokens of the target farmer, even of those whose period was over.
---
 programs/farming/src/endpoints/compound_across_farms.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..aa0cd5d 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -95,6 +95,12 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
         .source_farmer
         .check_vested_period_and_update_harvest(&source_farm, current_slot)?;
 
+    // the vesting period of the tokens which the farmer has already deposited
+    // to the target farm might have ended, don't start it anew
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
+
     // get all harvestable tokens of the farmer and add them to their vested
     // tokens
     let compound_tokens = accounts
-- 
2.43.0


From 4bd4139348a4c65baac14ad097bd5e527de17441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 05/13] fix: calculate harvest of the slot which follows the
 last calculation

An update in the very next slot was skipped, although harvest of that slot was
not calculated yet. If the farmer unstaked there, the harvest was lost.
---
 programs/farming/src/models/farmer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index 427a408..27920a5 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -214,7 +214,7 @@ impl Farmer {
     ) -> Result<()> {
         // there is no eligible harvest available if the last calculation
         // has happened on the current slot or after, therefore we skip
-        if self.calculate_next_harvest_from >= current_slot {
+        if self.calculate_next_harvest_from > current_slot {
             return Ok(());
         }
 
-- 
2.43.0


From 145f29c0d2d4a5a688200ef07836f18fff39ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 06/13] fix: compute the stable curve invariant to the
 precision of a token

The threshold for the difference of approximations was not scaled down with
them, so that the invariant was overestimated in imbalanced pools. And for
balanced pools with many digits the calculation failed, because the value of
the polynomial at its root is not exactly zero in the precision of decimals.
---
 .../amm/src/math/stable_curve_invariant.rs    | 58 +++++++++----------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 54b8686..e185ed4 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -111,9 +111,12 @@ impl StableCurveInvariant {
 
     fn compute(self) -> Result<Decimal> {
         // acts as a threshold for the difference between successive
-        // approximations
-        let admissible_error: Decimal =
-            Decimal::from(1u64).try_div(Decimal::from(2u64)).unwrap();
+        // approximations, which is half a token
+        //
+        // the approximations are scaled down, and so must be the threshold
+        let admissible_error: Decimal = Decimal::from(1u64)
+            .try_div(Decimal::from(2u64))?
+            .try_div(self.scl_down_coef)?;
 
         // our initial guess is the scaled down sum of token reserve balances
         let mut prev_val = self.initial_guess;
@@ -123,7 +126,6 @@ impl StableCurveInvariant {
 
         for _ in 0..MAX_ITERATIONS {
             prev_val = new_val;
-            new_val = self.newton_method_single_iteration(&prev_val)?;
             // We proved by algebraic manipulations that given a first initial
             // guess coinciding with the sum of token reserve
             // balances, then sum(x_i) >= positive_zero where
@@ -131,32 +133,20 @@ impl StableCurveInvariant {
             // polynomial. Moreover, the method is decreasing on
             // each iteration. Therefore, in order to check that the method
             // converges, we only need to check that (prev_iter - next_iter) <=
-            // adm_err. Given this assumption, it is impossible that prev_val <
-            // new_val and the only case where equality holds is when
-            // prev_val is a precise root of the polynomial.
-            // Notice also that if x is a root of the stable polynomial,
-            // applying Newton method to it will result in getting x again,
-            // and the reciprocal statement holds true, so it is an equivalence.
-            // Thus, the following checks are sufficient to guarantee
-            // full logic coverage.
+            // adm_err.
+            //
+            // The exception are approximations so close to the root that the
+            // value of the polynomial is lost in the precision of decimals. It
+            // can even be that the polynomial is negative, or that the next
+            // approximation does not differ. Either way, we've found the root.
+            // This is always the case for a balanced pool, where the initial
+            // guess is the root.
+            if !self.is_stable_swap_polynomial_positive(&prev_val)? {
+                return prev_val.try_mul(self.scl_down_coef);
+            }
+            new_val = self.newton_method_single_iteration(&prev_val)?;
             if prev_val <= new_val {
-                let is_val_root_stable_poly = self
-                    .get_stable_swap_polynomial(&prev_val)?
-                    == Decimal::zero();
-
-                if is_val_root_stable_poly {
-                    return prev_val.try_mul(self.scl_down_coef);
-                } else {
-                    // in this case, prev_val is not a root of the polynomial,
-                    // and therefore having prev_val <=
-                    // new_val would violate our
-                    // mathematical assumptions
-                    msg!(
-                        "Invalid mathematical assumption: \
-                        previous value cannot be less or equal to new value"
-                    );
-                    return Err(error!(AmmError::InvariantViolation));
-                }
+                return prev_val.try_mul(self.scl_down_coef);
             }
 
             // assuming that prev_val >= new_val, we just need to check that
@@ -194,6 +184,16 @@ impl StableCurveInvariant {
             .try_sub(self.polynomial_third_term)
     }
 
+    fn is_stable_swap_polynomial_positive(
+        &self,
+        val: &Decimal,
+    ) -> Result<bool> {
+        let first_term = val.try_pow(self.exponent + 1)?;
+        let second_term = val.try_mul(self.first_order_coeff)?;
+
+        Ok(first_term.try_add(second_term)? > self.polynomial_third_term)
+    }
+
     // Derivative of stable swap polynomial to be found in README.md under AMM -
     // Equations
     fn get_derivate_stable_swap_polynomial(
-- 
2.43.0


From 6bd0c430d24126e69b9cd95121bb3a104083ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 07/13] fix: do not deposit more than the maximum set by the
 user

---
 programs/amm/src/models/pool.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..e1df396 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -434,11 +434,21 @@ impl Pool {
                         .get(mint)
                         .ok_or(AmmError::InvariantViolation)?;
 
-                    Ok((
-                        *mint,
-                        Decimal::from(token_reserve.amount)
-                            .try_div(max_token.amount)?,
-                    ))
+                    let reserve = Decimal::from(token_reserve.amount);
+                    let ratio = reserve.try_div(max_token.amount)?;
+
+                    // the division truncates, but we divide the reserves by
+                    // the ratio, and so it has to be rounded up, otherwise
+                    // we'd deposit more than what's the maximum
+                    let is_truncated =
+                        ratio.try_mul(max_token.amount)? < reserve;
+                    let ratio = if is_truncated {
+                        ratio.try_add(Decimal::from_scaled_val(1))?
+                    } else {
+                        ratio
+                    };
+
+                    Ok((*mint, ratio))
                 })
                 .collect::<Result<_>>()?;
 
-- 
2.43.0


From f80b343012241aa8a48433b25302e7cb01b42fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 08/13] fix: mint LP tokens by the smallest share of the
 deposit

---
 programs/amm/src/models/pool.rs | 45 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index e1df396..bdd9051 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -461,13 +461,14 @@ impl Pool {
         }
     }
 
-    /// Any given token in the pool can be used to compute the amount
-    /// of lp tokens to be distributed with a given deposit, as long as the
-    /// ratios correspond to the ratios present in the pool. We compute
-    /// the lp tokens to be distributed with a simple 'rule of 3'. For any given
-    /// token in the pool x1, we multiple the deposit delta_x1 with the amount
-    /// of lp tokens in supply, and then divide the by the current reserve
-    /// amount x1.
+    /// If the ratios of the deposit corresponded exactly to the ratios present
+    /// in the pool, then any given token could be used to compute the amount of
+    /// lp tokens to be distributed with a given deposit. However, the deposited
+    /// amounts are whole tokens, hence we use the token whose share of the
+    /// reserve is the smallest. We compute the lp tokens to be distributed with
+    /// a simple 'rule of 3'. For any given token in the pool x1, we multiple
+    /// the deposit delta_x1 with the amount of lp tokens in supply, and then
+    /// divide the by the current reserve amount x1.
     fn get_eligible_lp_tokens(
         &self,
         tokens_deposited: &BTreeMap<Pubkey, TokenAmount>,
@@ -476,18 +477,28 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
-            .ok_or(AmmError::InvariantViolation)?;
+        let lp_tokens = self
+            .reserves()
+            .iter()
+            .map(|reserve| {
+                let reserve_deposit = tokens_deposited
+                    .get(&reserve.mint)
+                    .ok_or(AmmError::InvariantViolation)?;
+
+                try_mul_div(
+                    Decimal::from(lp_mint_supply.amount),
+                    Decimal::from(reserve_deposit.amount),
+                    Decimal::from(reserve.tokens.amount),
+                )
+            })
+            .collect::<Result<Vec<_>>>()?;
 
         let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
+            lp_tokens
+                .into_iter()
+                .min()
+                .ok_or(AmmError::InvariantViolation)?
+                .try_floor()?,
         );
 
         Ok(if tokens.amount == 0 {
-- 
2.43.0


From ad873af0425eb50235d9951ca704b155544370b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 09/13] fix: set curve invariant of a pool created with
 liquidity

---
 programs/amm/src/endpoints/create_pool.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/amm/src/endpoints/create_pool.rs b/programs/amm/src/endpoints/create_pool.rs
index 3bdadb9..a34a5f0 100644
--- a/programs/amm/src/endpoints/create_pool.rs
+++ b/programs/amm/src/endpoints/create_pool.rs
@@ -126,5 +126,10 @@ pub fn handle(ctx: Context<CreatePool>, amplifier: u64) -> Result<()> {
     accs.pool.dimension = mints.len() as u64;
     accs.pool.program_toll_wallet = accs.program_toll_wallet.key();
 
+    // the vaults might already hold some tokens
+    //
+    // no-op if const prod
+    accs.pool.update_curve_invariant()?;
+
     Ok(())
 }
-- 
2.43.0


From d3b76dea170e76b6dab3ea62b0f36e1ae303a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 10/13] fix: swap even if the product of all reserves overflows

---
 programs/amm/src/models/pool.rs | 38 +++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index bdd9051..90edbf5 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -653,17 +653,19 @@ impl Pool {
             })
             .collect();
 
-        let product = fold_product(&sold_or_neutral_token_balances_after_swap)?;
-
         let bought_token_balance_after_swap = match self.curve {
             Curve::ConstProd => {
-                let tokens_deposits_before_swap: Vec<Decimal> = reserves
-                    .values()
-                    .map(|v| Decimal::from(v.amount))
-                    .collect();
-
-                let k = fold_product(&tokens_deposits_before_swap)?;
-                k.try_div(product)?
+                // The neutral reserves are the same before and after the swap,
+                // and so they cancel out. We leave them out because the product
+                // of all reserves doesn't have to fit into decimal.
+                let sell_balance_before_swap: Decimal =
+                    (*reserves.get(&sell_mint).unwrap()).into();
+                let sell_balance_after_swap =
+                    sell_balance_before_swap.try_add(tokens_to_swap.into())?;
+                let k = Decimal::from(*reserves.get(&buy_mint).unwrap())
+                    .try_mul(sell_balance_before_swap)?;
+
+                k.try_div(sell_balance_after_swap)?
             }
             Curve::Stable {
                 amplifier,
@@ -673,17 +675,31 @@ impl Pool {
                 let d: Decimal = invariant.into();
                 let num_reserves = reserves.len() as u64;
 
+                // the curve is homogeneous, therefore we can scale down the
+                // invariant and all balances, so that the product fits into
+                // decimal
+                let scale = Decimal::from(1_000_u64)
+                    .try_pow(scale_down_value(d)?.exponent as u64)?;
+                let mut balances = sold_or_neutral_token_balances_after_swap
+                    .into_iter()
+                    .map(|balance| balance.try_div(scale))
+                    .collect::<Result<Vec<_>>>()?;
+                // multiplying from the largest loses the least precision
+                balances.sort_by(|a, b| b.cmp(a));
+
                 // we shall need to compute the sum of all token deposits except
                 // for the base mint
-                let sum = fold_sum(&sold_or_neutral_token_balances_after_swap)?;
+                let sum = fold_sum(&balances)?;
+                let product = fold_product(&balances)?;
 
                 get_buy_reserve_balance_after_swap(
                     num_reserves,
                     &amp,
-                    &d,
+                    &d.try_div(scale)?,
                     sum,
                     product,
                 )?
+                .try_mul(scale)?
             }
         };
 
-- 
2.43.0


From c4f448483b54b3db18b0b1ec5447075d9f79f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 11/13] fix: do not let swap decrease the product of reserves

---
 programs/amm/src/models/pool.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 90edbf5..c188441 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -665,7 +665,17 @@ impl Pool {
                 let k = Decimal::from(*reserves.get(&buy_mint).unwrap())
                     .try_mul(sell_balance_before_swap)?;
 
-                k.try_div(sell_balance_after_swap)?
+                let buy_balance_after_swap =
+                    k.try_div(sell_balance_after_swap)?;
+                if buy_balance_after_swap.try_mul(sell_balance_after_swap)? < k
+                {
+                    // the division truncates, but the product of reserves
+                    // mustn't get smaller
+                    buy_balance_after_swap
+                        .try_add(Decimal::from_scaled_val(1))?
+                } else {
+                    buy_balance_after_swap
+                }
             }
             Curve::Stable {
                 amplifier,
-- 
2.43.0


From a003155c5267a457301f2572131060e461aaa111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 12/13] fix: let Newton's method converge in imbalanced pools

---
 programs/amm/src/math/stable_curve_invariant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index e185ed4..250c415 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -9,7 +9,9 @@ use helpers::scale_down_value;
 // The method should converge within few iterations, due to the fact
 // we are approximating positive root from a well positioned first
 // initial guess.
-// We use the same max that was used in the old AMM version.
+// The more imbalanced the pool is, the more iterations it takes. In the most
+// imbalanced pools which we calculate with (see the bound on the product of
+// reserves below) it takes less than 50.
 //
 // This is one of two bounding conditions for the newtons method. The other is
 // the admissible error. We're pretty much guaranteed that the admissible error
@@ -19,7 +21,7 @@ use helpers::scale_down_value;
 // condition to reason about. It's better to know that the method will always
 // break on surpassing the admissible error, than to reason about whether it
 // was max iterations or the error.
-const MAX_ITERATIONS: usize = 32;
+const MAX_ITERATIONS: usize = 64;
 
 pub fn compute(
     amp: u64,
-- 
2.43.0


From 57e0b6ae44681f1258bdb4c622a6299d1dc2489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 13/13] fix: create the discount account even if its address
 holds lamports

Anyone can send lamports to the address of a discount. The system program
then refuses to create the account, so that the user could never be given a
discount. As anchor does for init, the shortfall is transferred and the account
allocated and assigned.
---
 programs/amm/src/endpoints/put_discount.rs | 67 +++++++++++++++++++---
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/programs/amm/src/endpoints/put_discount.rs b/programs/amm/src/endpoints/put_discount.rs
index d5f9bb8..0022f4c 100644
--- a/programs/amm/src/endpoints/put_discount.rs
+++ b/programs/amm/src/endpoints/put_discount.rs
@@ -76,13 +76,35 @@ pub fn handle(
             &[*ctx.bumps.get("discount").unwrap()],
         ];
         let rent = Rent::get()?.minimum_balance(Discount::space());
-        system_program::create_account(
-            accs.as_create_discount_account_context()
-                .with_signer(&[&pda_seeds[..]]),
-            rent,
-            Discount::space() as u64,
-            ctx.program_id,
-        )?;
+        let lamports = accs.discount.lamports();
+        if lamports == 0 {
+            system_program::create_account(
+                accs.as_create_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                rent,
+                Discount::space() as u64,
+                ctx.program_id,
+            )?;
+        } else {
+            // Anyone can send lamports to the PDA, in which case the system
+            // program refuses to create the account.
+            if lamports < rent {
+                system_program::transfer(
+                    accs.as_transfer_rent_context(),
+                    rent - lamports,
+                )?;
+            }
+            system_program::allocate(
+                accs.as_allocate_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                Discount::space() as u64,
+            )?;
+            system_program::assign(
+                accs.as_assign_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                ctx.program_id,
+            )?;
+        }
     }
 
     // overwrites the data in the discount account
@@ -108,4 +130,35 @@ impl<'info> PutDiscount<'info> {
         let cpi_program = self.system_program.to_account_info();
         CpiContext::new(cpi_program, cpi_accounts)
     }
+
+    fn as_transfer_rent_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Transfer<'info>> {
+        let cpi_accounts = system_program::Transfer {
+            from: self.authority.to_account_info(),
+            to: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_allocate_discount_account_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Allocate<'info>> {
+        let cpi_accounts = system_program::Allocate {
+            account_to_allocate: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_assign_discount_account_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Assign<'info>> {
+        let cpi_accounts = system_program::Assign {
+            account_to_assign: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
 }
-- 
2.43.0

