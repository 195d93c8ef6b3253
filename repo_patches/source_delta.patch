From f4a46781bb1182b23f6ba3ce6e07a236ad48b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 1/2] fix: return an error instead of panicking when the second
 DAMM v2 position is missing

migration_damm_v2 unwrapped the optional second position accounts whenever
liquidity remained for a second position, so a caller leaving them out made
the program panic. Return InvalidAccount, as the code after it intends.
---
 .../migrate_damm_v2_initialize_pool.rs        | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/programs/dynamic-bonding-curve/src/instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs b/programs/dynamic-bonding-curve/src/instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs
index 58a6933..9c80e65 100644
--- a/programs/dynamic-bonding-curve/src/instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs
+++ b/programs/dynamic-bonding-curve/src/instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs
@@ -346,23 +346,27 @@ impl<'info> MigrateDammV2Ctx<'info> {
 
     fn create_second_position(&self, total_liquidity: u128) -> Result<()> {
         let pool_authority_seeds = pool_authority_seeds!(BUMP);
+        let (
+            Some(second_position_nft_mint),
+            Some(second_position_nft_account),
+            Some(second_position),
+        ) = (
+            &self.second_position_nft_mint,
+            &self.second_position_nft_account,
+            &self.second_position,
+        )
+        else {
+            return Err(PoolError::InvalidAccount.into());
+        };
         msg!("create position");
         damm_v2::cpi::create_position(CpiContext::new(
             self.amm_program.to_account_info(),
             damm_v2::cpi::accounts::CreatePosition {
                 owner: self.pool_authority.to_account_info(),
                 pool: self.pool.to_account_info(),
-                position_nft_mint: self
-                    .second_position_nft_mint
-                    .clone()
-                    .unwrap()
-                    .to_account_info(),
-                position_nft_account: self
-                    .second_position_nft_account
-                    .clone()
-                    .unwrap()
-                    .to_account_info(),
-                position: self.second_position.clone().unwrap().to_account_info(),
+                position_nft_mint: second_position_nft_mint.to_account_info(),
+                position_nft_account: second_position_nft_account.to_account_info(),
+                position: second_position.to_account_info(),
                 pool_authority: self.damm_pool_authority.to_account_info(),
                 payer: self.payer.to_account_info(),
                 token_program: self.token_2022_program.to_account_info(),
@@ -380,18 +384,14 @@ impl<'info> MigrateDammV2Ctx<'info> {
                         self.amm_program.to_account_info(),
                         damm_v2::cpi::accounts::AddLiquidity {
                             pool: self.pool.to_account_info(),
-                            position: self.second_position.clone().unwrap().to_account_info(),
+                            position: second_position.to_account_info(),
                             token_a_account: self.base_vault.to_account_info(),
                             token_b_account: self.quote_vault.to_account_info(),
                             token_a_vault: self.token_a_vault.to_account_info(),
                             token_b_vault: self.token_b_vault.to_account_info(),
                             token_a_mint: self.base_mint.to_account_info(),
                             token_b_mint: self.quote_mint.to_account_info(),
-                            position_nft_account: self
-                                .second_position_nft_account
-                                .clone()
-                                .unwrap()
-                                .to_account_info(),
+                            position_nft_account: second_position_nft_account.to_account_info(),
                             owner: self.pool_authority.to_account_info(),
                             token_a_program: self.token_base_program.to_account_info(),
                             token_b_program: self.token_quote_program.to_account_info(),
-- 
2.43.0


From 0898ce5d6f77108e17bd89cd1db0dbb477c2553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 2/2] fix: never charge a partial-fill swap more than the
 amount the trader offered

With the rate limiter the fee of the consumed amount is recomputed with the inverse of the fee function, which rounds
up: included_fee_input_amount could end up above amount_in and the trader was charged more than offered.
---
 programs/dynamic-bonding-curve/src/state/virtual_pool.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
index 14acb0c..14d0201 100644
--- a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
+++ b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
@@ -668,9 +668,13 @@ impl VirtualPool {
                         )?
                 };
 
-                let (included_fee_input_amount, fee_amount) =
+                let (included_fee_input_amount, _fee_amount) =
                     PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, actual_amount_in)?;
 
+                // the inverse of the rate limiter rounds up, trader must never be charged more than amount_in
+                let included_fee_input_amount = included_fee_input_amount.min(amount_in);
+                let fee_amount = included_fee_input_amount.safe_sub(actual_amount_in)?;
+
                 // that ensure included_fee_input_amount = actual_amount_in + trading_fee + protocol_fee + referral_fee
                 let (trading_fee, protocol_fee, referral_fee) = config
                     .pool_fees
-- 
2.43.0

