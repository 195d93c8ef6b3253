#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One place to edit the property texts."""
import json, os
P = "programs/dynamic-bonding-curve/src/"
I = P + "instructions/"
out = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    out.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe) or ["instruction results, account contents and token balances on the ledger"],
            "hook_needed": hook,
        },
    })


prop("C01", "Swap amounts follow the configured curve, rounded in the pool's favour",
     "Every successful swap moves the pool price along the configured piecewise constant-product curve by exactly the amount that the fee-free part of its input pays for: buys raise the price, sells lower it, each price range is traversed with its own liquidity, and the price never leaves the range from the start price to the migration price. The amount a trader receives is never more than the exact real-valued curve integral between the old and new price, and the amount a trader pays is never less; both are off by at most the rounding of one unit per price range crossed. This holds for all three swap modes and both directions.",
     ["inputs", "configurations", "histories"],
     "every accepted configuration (1 to 16 price ranges), every reachable pool price, every amount, direction and swap mode",
     "the unit tests evaluate a handful of curves at hand-picked amounts; crossing several ranges, landing exactly on a boundary, and extreme liquidity/price scales need every input",
     [P + "state/virtual_pool.rs", P + "curve.rs", P + "math/u128x128_math.rs", P + "math/utils_math.rs", I + "swap/ix_swap.rs"],
     [("per-range traversal of the curve", P + "state/virtual_pool.rs"), ("rounded delta amounts and next-price formulas", P + "curve.rs")],
     [("pool price", "current square-root price", "pool account"), ("curve", "price ranges and liquidities", "config account")],
     ["pool price, reserves and token transfers before and after each swap", "SDK quotes"])

prop("C02", "Pools stay solvent: vaults always cover reserves and everything owed",
     "At every point of every history, the token balance of each pool vault is at least what the pool still owes from it: the tradable reserve plus all unclaimed protocol, partner and creator fees (and, once migrated, the unclaimed protocol migration fees, surplus, migration fee and leftover). Every token that enters or leaves a vault is accounted for by exactly one recorded cause, so that totals paid in equal totals paid out plus what is held. Before migration the quote reserve is always enough to buy back every base token sold so far at the curve's prices.",
     ["histories", "configurations", "inputs"],
     "every interleaving of swaps, claims, completion, migration and withdrawals on any number of pools",
     "the tests assert balances after single scripted flows; conservation is a statement about all interleavings of swaps, claims and migration",
     [P + "state/virtual_pool.rs", I + "swap/ix_swap.rs", I + "migration/ix_withdraw_migration_fee.rs", I + "migration/withdraw_leftover.rs", I + "operator/ix_claim_protocol_fee.rs"],
     [("reserve and fee bookkeeping", P + "state/virtual_pool.rs"), ("token transfers by the pool authority", P + "utils/token.rs")],
     [("base/quote reserve, fee counters", "what the pool owes", "pool account")],
     ["vault token balances after every transaction"])

prop("C03", "No trading strategy extracts value from a pool",
     "For any sequence of swaps on a pool that is not yet completed, traders as a group never hold both more quote and more base than they put in, and a trader who buys and then sells back everything bought (in any number of pieces, in any order, at any times) never ends with more quote than at the start. Splitting a trade into pieces never yields more output than the exact curve integral of the combined fee-free input.",
     ["histories", "inputs"],
     "every sequence of swaps by any traders, including dust trades and adversarially chosen amounts that probe rounding",
     "tests do one buy followed by one sell; profit from rounding needs many adversarial small trades",
     [P + "curve.rs", P + "state/virtual_pool.rs", P + "state/fee.rs"],
     [("rounding direction in delta amounts and next prices", P + "curve.rs")],
     [], ["trader balances over whole histories"])

prop("C04", "Trading fees are the exact rounded-up rate and are fully, correctly split",
     "On every swap the total fee equals the current fee rate applied to the fee-bearing amount, rounded up, and is taken in the token the collect-fee mode prescribes (always quote, or always the output token). Twenty percent of it (rounded down) is the protocol's, of which twenty percent (rounded down) goes to the referrer when a referral account is given; the rest is divided between creator (its configured percentage, rounded down) and partner, and the parts always sum to the total. A partial fill recomputes the fee for what it consumes and never lifts it above what the offered amount leaves. The rate is never above 99% and all parts are credited to exactly those parties.",
     ["inputs", "configurations", "histories"],
     "every fee configuration, amount, direction, mode, referral choice and time",
     "tests check a few numbers; rounding and credit splits depend on every amount and percentage, and interact with partial fills",
     [P + "state/fee.rs", P + "state/config.rs", P + "state/virtual_pool.rs", P + "params/fee_parameters.rs", I + "swap/ix_swap.rs"],
     [("fee on amount and split", P + "state/fee.rs"), ("crediting", P + "state/virtual_pool.rs")],
     [("fee counters", "unclaimed fees per party", "pool account")],
     ["fee counters, referral transfer and vault deltas around each swap"])

prop("C05", "The scheduled base fee follows its published schedule over time",
     "With a fee scheduler the base fee rate at any time is the starting rate reduced linearly or exponentially by the number of whole periods elapsed since activation, capped at the configured number of periods, in the configured unit (slots or seconds). It never rises as time passes, is the starting rate when no period is configured, and never drops below the 0.25% minimum for any pool that can be created today.",
     ["inputs", "configurations", "schedules"],
     "every schedule accepted at configuration time and every point in time from activation to the far future",
     "tests sample a couple of periods; the schedule must hold at every boundary, both modes, both time units and at extreme elapsed time",
     [P + "base_fee/fee_scheduler.rs", P + "base_fee/mod.rs", P + "math/fee_math.rs", P + "utils/activation_handler.rs"],
     [("fee scheduler", P + "base_fee/fee_scheduler.rs"), ("exponential decay", P + "math/fee_math.rs")],
     [], ["fee charged by swaps placed before, at and after every period boundary"])

prop("C06", "The rate limiter charges its marginal fee and cannot be split away",
     "While a rate limiter is active (from activation for its configured duration), a buy's total fee is the documented progressive fee: the cliff rate on the first reference amount and a rate increased by the increment for each further reference amount up to the maximum; sells and trades after the window pay the plain cliff rate. During the window a buy of a pool is refused if the same transaction also contains, before it, another swap of the same pool, either at top level or inside the same calling program, or if it is nested deeper than one call. The fee inverse used for exact-output buys charges at least the fee that an exact-input buy of the same size would pay, within rounding.",
     ["inputs", "configurations", "histories"],
     "every rate-limiter configuration, amount, time inside and outside the window, and transaction layout",
     "tests cover a few amounts and one bundled transaction; layouts with nested calls and other pools, and every amount boundary, are not reached",
     [P + "base_fee/fee_rate_limiter.rs", I + "swap/ix_swap.rs"],
     [("progressive fee formula", P + "base_fee/fee_rate_limiter.rs"), ("single-swap validation", I + "swap/ix_swap.rs")],
     [], ["swap results in crafted multi-instruction and nested transactions"])

prop("C07", "The dynamic fee follows the documented volatility accumulator",
     "When dynamic fees are configured, each swap first ages the volatility reference (kept within the filter period, decayed by the reduction factor within the decay period, reset afterwards), then charges a variable fee that is the rounded-up quadratic of accumulated volatility and never pushes the total above 99%, then updates the accumulator from how far the price moved from the reference, capped at the configured maximum. Without dynamic fees configured no volatility state ever changes and no variable fee is charged.",
     ["histories", "inputs", "configurations"],
     "every sequence of swaps and gaps in time",
     "unit tests step the accumulator a few times; decay windows and caps depend on the whole history of prices and times",
     [P + "state/virtual_pool.rs", P + "state/config.rs"],
     [("volatility tracker", P + "state/virtual_pool.rs"), ("variable fee", P + "state/config.rs")],
     [("volatility tracker", "reference price, reference, accumulator, last update time", "pool account")],
     ["volatility tracker and charged fee after every swap"])

prop("C08", "Swap modes honour the trader's limits exactly",
     "An exact-input swap takes exactly the stated amount and delivers at least the stated minimum or fails without effect; an exact-output swap delivers exactly the stated amount for at most the stated maximum or fails; a partial-fill swap never takes more than the stated amount, delivers at least the minimum, and takes less than the stated amount only when the curve ends. The tokens that move between trader and vaults are exactly the amounts the swap reports, a zero amount is always refused, and the older swap entry behaves as the exact-input mode.",
     ["inputs", "histories"],
     "every amount and limit, both directions, all modes, at every distance from the end of the curve, with or without a referrer",
     "tests exercise each mode a few times with loose limits; the boundary values of limits and the end of the curve need systematic probing",
     [I + "swap/ix_swap.rs", I + "swap/swap_exact_in.rs", I + "swap/swap_exact_out.rs", I + "swap/swap_partial_fill.rs", P + "state/virtual_pool.rs"],
     [("slippage checks", I + "swap/swap_exact_in.rs"), ("transfers", I + "swap/ix_swap.rs")],
     [], ["trader and vault balances; success at the exact limit and failure one unit beyond it"])

prop("C09", "The minimum-fee first swap is granted only to the creation bundle",
     "A swap is charged the minimum base fee instead of the scheduled one only if the configuration enables it, it is the pool's first swap, it names no referrer, and the same transaction creates that very pool at top level in an earlier instruction, with the swap itself at top level. In every other case, including later swaps in the same bundle, other pools' creation, calls through another program, or a missing transaction-introspection account, the normal fee applies.",
     ["histories", "configurations", "inputs"],
     "every arrangement of creation and swap instructions of one or more pools in a transaction",
     "tests use one bundle; the privilege depends on transaction layout, which they do not vary",
     [I + "swap/ix_swap.rs", P + "state/config.rs", P + "base_fee/mod.rs"],
     [("first-swap validation", I + "swap/ix_swap.rs")],
     [("first-swap marker", "whether the pool has ever been swapped", "pool account")],
     ["fee charged in crafted creation bundles"])

prop("C10", "The curve completes exactly at its threshold and trading then stops",
     "A pool becomes complete in the swap in which its quote reserve first reaches the migration threshold, and in no other; that swap records the completion time once, moves the pool to the vesting-lock stage when the configuration has locked vesting and directly to the ready-to-migrate stage otherwise, and leaves at least the migration base amount, the locked vesting amount and the owed base fees in the base vault. Until then every pool accepts trades; afterwards every swap of any mode or direction is refused and price and reserves never change through trading again.",
     ["histories", "configurations", "inputs"],
     "every configuration and every way of approaching the threshold, including landing exactly on it, one unit below it and overshooting it",
     "tests complete a few fixed curves with one large buy; boundary landings across curve shapes are not explored",
     [I + "swap/ix_swap.rs", P + "state/virtual_pool.rs"],
     [("completion check", P + "state/virtual_pool.rs"), ("post-swap completion handling", I + "swap/ix_swap.rs")],
     [("migration progress, finish time", "stage of the pool", "pool account")],
     ["stage, finish time and vault balances around the completing swap"])

prop("C11", "A pool's life is one-way: trade, complete, lock vesting, migrate, settle",
     "The stage of a pool only moves forward (trading, complete awaiting vesting lock, ready to migrate, migrated) and each move happens only through its own operation: completion by a swap, vesting lock once and only if vesting is configured, migration once and only to the configured target. No operation that belongs to a later stage (vesting lock, migration, surplus and migration-fee withdrawal before completion; leftover withdrawal and LP claims before migration) succeeds early, and none that belongs to an earlier stage succeeds late.",
     ["histories"],
     "every order and repetition of all instructions on a pool",
     "tests call operations in the intended order; out-of-order and repeated calls over all instructions are combinatorial",
     [P + "state/virtual_pool.rs", I + "migration/create_locker.rs", I + "migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", I + "migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", I + "migration/withdraw_leftover.rs"],
     [("migration progress checks", I + "migration/"), ("completion checks", P + "state/virtual_pool.rs")],
     [("migration progress", "stage of the pool", "pool account")],
     ["stage after every instruction of random histories, with every instruction attempted in every stage"])

prop("C12", "Only valid configurations are accepted, and they are stored faithfully",
     "Configuration creation succeeds exactly when all published limits hold: a supported quote mint, fee and schedule limits, percentages that add up to 100, a rising curve inside the global price bounds with positive liquidity, a threshold the curve can reach, valid vesting, migration and authority options, a pool creation fee in range, decimals 6 to 9, consistent token supply and liquidity-lock rules; otherwise it fails. An accepted configuration stores every supplied parameter unchanged together with the migration price, migration base amount and swap base amount that the curve implies, and is never modified afterwards.",
     ["inputs", "configurations"],
     "every combination of configuration parameters, including values just inside and just outside every limit",
     "tests try a few valid and invalid configurations; the limits form a large product space where one missing check goes unseen",
     [I + "partner/ix_create_config.rs", P + "state/config.rs", P + "params/fee_parameters.rs", P + "params/liquidity_distribution.rs", P + "base_fee/fee_rate_limiter.rs", P + "base_fee/fee_scheduler.rs", P + "utils/token.rs"],
     [("parameter validation", I + "partner/ix_create_config.rs"), ("derived amounts", P + "params/liquidity_distribution.rs")],
     [("config account", "immutable parameters", "config account")],
     ["acceptance and stored account compared with an independent model"])

prop("C13", "Every accepted configuration leads to pools that can finish and settle",
     "For every pool created from an accepted configuration there is always a buy that completes the curve, after which vesting lock (if any), migration and every withdrawal succeed within a bounded number of operations, whatever trades and claims happened before (as long as the quote token's total supply and the pool's lifetime fees fit in 64 bits). No reachable pool is stuck with funds that nobody can withdraw beyond rounding dust.",
     ["configurations", "histories"],
     "every accepted configuration and every prior history of trades and claims, restated as bounded progress: completion by at most a few buys, settlement by one call of each remaining operation",
     "tests run the full flow for a few configurations only",
     [I + "partner/ix_create_config.rs", I + "swap/ix_swap.rs", I + "migration/", P + "migration_handler/"],
     [("supply sizing", P + "params/liquidity_distribution.rs"), ("migration amounts", P + "migration_handler/")],
     [], ["full-lifecycle runs; residual vault balances after settlement"])

prop("C14", "Pool creation mints the exact supply and fixes authorities and terms",
     "Creating a pool from a configuration mints exactly the supply the configuration implies (the fixed pre-migration supply, or swap amount with its 25% buffer plus migration and vesting amounts) into the pool's vault and nowhere else, with the configured decimals and token program, no freeze authority, and mint and metadata authority given only to the party the configuration names. The pool starts at the configured price with empty quote reserve and zero fees, activated at the current time, owned by the signing creator, and each base mint and configuration pair can have only one pool.",
     ["configurations", "inputs", "histories"],
     "every accepted configuration, both token programs, all token-authority options",
     "tests create pools for a few configurations; the supply formula and authority options are a product space",
     [I + "initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", I + "initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", I + "initialize_pool/process_create_token_metadata.rs", P + "state/config.rs", P + "state/virtual_pool.rs"],
     [("initial supply", P + "state/config.rs"), ("authority options", P + "state/config.rs")],
     [], ["mint, vault, metadata and pool accounts after creation"])

prop("C15", "Base token supply never grows and fixed supply ends as promised",
     "After creation nothing in this program ever mints base tokens. A pool with a fixed token supply burns at migration the difference between pre- and post-migration supply (never more than the unsold remainder above owed fees), and a pool without one burns the whole unsold remainder; nothing else is ever burned, and at no other time.",
     ["histories", "configurations"],
     "every history from creation through migration and settlement for fixed and dynamic supply configurations",
     "tests check final supply for two configurations and one trade history",
     [P + "state/config.rs", I + "migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", I + "migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"],
     [("burnable amount", P + "state/config.rs")],
     [], ["mint supply after every transaction"])

prop("C16", "Trading-fee claims pay the right party exactly what accrued, once",
     "A claim by the partner or the creator pays, for each token, the smaller of the requested maximum and that party's unclaimed fees into the account chosen by the claimant, and lowers that counter by the same amount. Over any history the total a party has been paid plus what it can still claim equals the sum of its shares of all swap fees; claims never touch reserves or other parties' fees and work the same before, during and after completion and migration.",
     ["histories", "inputs"],
     "every interleaving of swaps and claims with every maximum",
     "tests claim once after one swap",
     [I + "partner/ix_claim_partner_trading_fee.rs", I + "creator/ix_claim_creator_trading_fee.rs", P + "state/virtual_pool.rs"],
     [("claim bookkeeping", P + "state/virtual_pool.rs")],
     [("partner/creator fee counters", "unclaimed fees", "pool account")],
     ["claim transfers and counters in random histories"])

prop("C17", "The surplus of the last swap is shared 80/20 and paid exactly once",
     "Once the curve is complete, the quote reserve above the migration threshold is shared so that partner and creator together get 80% (rounded down; the creator its configured percentage of that, rounded down, the partner the rest) and the protocol gets the remainder. Each of the three can withdraw its share exactly once, only after completion, to its own account, independent of order and of migration, and a second attempt moves nothing.",
     ["histories", "configurations", "inputs"],
     "every threshold overshoot, fee percentage, and order of the three withdrawals relative to migration and other claims",
     "tests withdraw in one order with one surplus",
     [I + "partner/ix_withdraw_partner_surplus.rs", I + "creator/ix_withdraw_creator_surplus.rs", P + "state/virtual_pool.rs", P + "state/config.rs", I + "operator/ix_claim_protocol_fee.rs"],
     [("surplus shares and flags", P + "state/virtual_pool.rs")],
     [("surplus flags", "withdrawn markers", "pool account")],
     ["surplus payments in random orders and with repeated attempts"])

prop("C18", "The migration fee is the configured share and paid once to each side",
     "After completion the configured percentage of the migration threshold is kept out of the migrated liquidity and is divided between creator (its configured percentage, rounded down) and partner (the rest). Each side can withdraw its part exactly once, signed by that side only, in either order and before or after migration, and the amounts left for migration are always threshold minus that fee.",
     ["histories", "configurations"],
     "every percentage pair, threshold, order of withdrawals and repetition",
     "a unit test checks the status flag alone and a flow test one pair of percentages",
     [I + "migration/ix_withdraw_migration_fee.rs", P + "state/config.rs", P + "state/virtual_pool.rs"],
     [("fee distribution", P + "state/config.rs"), ("withdraw bits", P + "state/virtual_pool.rs")],
     [("withdraw status bits", "who has withdrawn", "pool account")],
     ["withdrawals in every order"])

prop("C19", "Leftover base tokens go once, only after migration, only to their receiver",
     "For a fixed-supply pool, and only for one, whoever calls after migration can move the unsold base tokens exactly once, to the associated token account of the configured leftover receiver and nowhere else. The amount is the base vault balance minus all unclaimed base fees (trading and migration), so every fee remains claimable afterwards.",
     ["histories", "configurations"],
     "every history of trades and claims before and after, every supply configuration",
     "one flow test withdraws the leftover once without interleaved claims",
     [I + "migration/withdraw_leftover.rs", P + "state/virtual_pool.rs"],
     [("leftover computation", I + "migration/withdraw_leftover.rs")],
     [("leftover flag", "withdrawn marker", "pool account")],
     ["leftover payments and later fee claims"])

prop("C20", "Lamports are safe: creation fees are paid and shared, authorities untouched",
     "A pool's creation costs the payer exactly the configured fee, held by the pool; the protocol can take 10% (rounded down) and the partner the rest, each exactly once, and the pool always keeps its rent-exempt balance. No instruction lowers the lamport balance or changes the owner or data of the program's pool authority, even where it fronts rent for calls into other programs, no matter what those programs do; and no other account loses lamports except the signing payer.",
     ["histories", "configurations", "fault_sequences"],
     "every creation fee, order of claims, and behaviour of called programs including ones that take lamports",
     "tests claim once; a misbehaving callee is never simulated",
     [P + "utils/cpi_checker.rs", P + "utils/token.rs", I + "migration/flash_rent.rs", I + "operator/ix_claim_protocol_pool_creation_fee.rs", I + "partner/ix_claim_partner_pool_creation_fee.rs"],
     [("lamport and owner check around calls", P + "utils/cpi_checker.rs"), ("flash rent", I + "migration/flash_rent.rs")],
     [("creation fee bits", "charged and claimed markers", "pool account")],
     ["lamports of all accounts around every instruction; injected callee faults"])

prop("C21", "Privileged actions need the entitled signer; outsiders can change nothing",
     "Administrator actions succeed only when signed by a hard-coded administrator; protocol fee collection only when signed by an address registered as operator with that specific permission and still registered; partner withdrawals only when signed by the configuration's fee claimer; creator withdrawals and transfer only when signed by the pool's current creator. An attempt with any other signer, a missing signature, another role's or another pool's credentials, fails and leaves every account unchanged.",
     ["histories", "inputs"],
     "every privileged instruction crossed with every kind of wrong signer, at every stage",
     "tests use the right signer nearly always",
     [P + "access_control.rs", I + "admin/", I + "operator/", I + "partner/", I + "creator/", P + "state/operator.rs"],
     [("signer and ownership constraints", P + "access_control.rs")],
     [("operator accounts", "who may act for the protocol", "operator account")],
     ["result and ledger difference of hostile attempts"])

prop("C22", "Instructions only act on accounts that belong together",
     "If any account passed to an instruction is replaced by a look-alike (another pool's configuration, vault, mint, metadata, position or escrow; an account of the right layout owned by another program; a wrong token program, authority, treasury or receiver account; the same account passed twice), the instruction either fails without effect or has exactly the effect of the correct call. In particular tokens never leave a vault of a pool other than the one named, and never reach an account that the rules do not entitle.",
     ["inputs", "histories"],
     "every account position of every instruction, substituted by every class of wrong account",
     "tests always pass the right accounts",
     [I + "swap/ix_swap.rs", I + "operator/", I + "partner/", I + "creator/", I + "migration/", I + "initialize_pool/"],
     [("account constraints", I)],
     [], ["ledger difference of every mutated call that succeeds"])

prop("C23", "Migration to DAMM v1 moves exactly the promised liquidity at the right price",
     "Migrating to DAMM v1 deposits the threshold quote net of the migration fee and the matching base amount, less the protocol's 0.2% of each (kept for the protocol), into a pool created with the configuration's fee tier, and never the fees, surplus or migration fee. The minted LP is divided exactly among partner and creator, locked and unlocked, by the configured percentages with nothing lost; the opening price differs from the final curve price only by integer rounding.",
     ["configurations", "histories"],
     "every accepted DAMM v1 configuration and prior history, with every admissible or wrong target-pool configuration",
     "tests migrate a few fixed configurations",
     [I + "migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", P + "migration_handler/", P + "state/config.rs", P + "params/liquidity_distribution.rs"],
     [("migration amounts", P + "migration_handler/"), ("LP distribution", P + "state/config.rs")],
     [("migration metadata", "LP owed to each party", "metadata account")],
     ["the calls into the target AMM, transfers, metadata account"])

prop("C24", "Migrated DAMM v1 LP is locked and released exactly once to its owners",
     "After a DAMM v1 migration anyone may trigger the locking of each party's locked LP and the release of each party's free LP, each exactly once and for exactly the recorded amount, into an escrow or associated account that belongs to that party; when partner and creator are the same address both parts move together. No other address can receive any LP, and locked LP is never released to a wallet.",
     ["histories", "configurations"],
     "every distribution of percentages, every order and repetition of lock and release calls, same or different partner and creator",
     "tests lock and claim once each",
     [I + "migration/meteora_damm/meteora_damm_lock_lp_token.rs", I + "migration/meteora_damm/meteora_damm_claim_lp_token.rs", I + "migration/meteora_damm/meteora_damm_metadata_state.rs"],
     [("lock and claim flags", I + "migration/meteora_damm/meteora_damm_metadata_state.rs")],
     [("lock/claim status", "what was already moved", "metadata account")],
     ["LP token movements in random orders"])

prop("C25", "Migration to DAMM v2 opens the promised pool and hands over the positions",
     "Migrating to DAMM v2 opens a pool at the final curve price with the configured fees, deposits at most the threshold quote net of migration fee and the migration base amount, each less the protocol's 0.2%, and records the protocol's part. Liquidity is divided between partner and creator by the configured percentages; the permanently locked and vested parts are locked before ownership of each position is handed to its owner, nothing remains owned by the program, and fees, surplus and migration fee are never deposited.",
     ["configurations", "histories"],
     "every accepted DAMM v2 configuration (concentrated and compounding, fixed tiers and customised fees), prior history, and admissible or wrong target configuration",
     "unit tests cover amounts for two curves; the instruction itself is not tested in Rust at all",
     [I + "migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", P + "migration_handler/", P + "utils/damm_v2_utils.rs", P + "state/config.rs"],
     [("migration amounts and liquidity", P + "migration_handler/"), ("position locking and hand-over", I + "migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs")],
     [], ["the calls into the target AMM and the resulting positions"])

prop("C26", "Creator vesting is locked in full, once, on the configured schedule",
     "When vesting is configured, locking moves exactly the configured total (upfront cliff amount plus amount per period times number of periods) from the base vault into a fresh escrow whose recipient is the pool's creator, starting the configured cliff delay after the completion time, with the configured period length, count and amounts, and neither cancellable nor redirectable by anybody but the recipient (the program itself never cancels or redirects it). It happens exactly once, only between completion and migration, and migration cannot happen before it.",
     ["configurations", "histories"],
     "every accepted vesting configuration and every call order",
     "one flow test creates one locker",
     [I + "migration/create_locker.rs", P + "state/config.rs"],
     [("vesting escrow creation", I + "migration/create_locker.rs")],
     [], ["the call into the locker program and the token movement"])

prop("C27", "Migrated liquidity honours the minimum lock and the vesting parameters",
     "No pool can be created unless at least 10% of its future migrated liquidity is still locked one day after migration, counting permanently locked shares in full and vesting shares by what their schedule has not yet released. The vesting schedule handed to the target AMM for each share releases exactly that share in total, never releases more than the configured curve at any time, and ends within the two-year limit.",
     ["configurations", "inputs"],
     "every vesting schedule and percentage split around the limits, and every later time",
     "unit tests cover a few schedules; the limit and the rounding of released amounts are over all parameters",
     [P + "state/config.rs", I + "partner/ix_create_config.rs", I + "initialize_pool/"],
     [("locked liquidity at a time", P + "state/config.rs"), ("vesting parameters", P + "state/config.rs")],
     [], ["acceptance of configurations near the limit; locker and vesting calls at migration"])

prop("C28", "Protocol fees reach only the treasury and never more than accrued",
     "Collecting protocol fees pays, for each token, at most the requested maximum of accrued trading and migration fees (plus, once, the protocol's surplus share after completion) and only into treasury-owned token accounts, and the counters fall by what was paid. Collecting through the zap route pays only into the operator's associated account, only for tokens other than SOL and USDC, only a positive amount, and only when the zap validation for that same amount, receiver and treasury destination succeeded. Over any history paid plus unclaimed equals accrued.",
     ["histories", "inputs"],
     "every interleaving of swaps, completion, migration, direct and zap collections with every maximum",
     "tests collect once",
     [I + "operator/ix_claim_protocol_fee.rs", I + "operator/ix_zap_protocol_fee.rs", P + "state/virtual_pool.rs"],
     [("protocol fee bookkeeping", P + "state/virtual_pool.rs")],
     [("protocol fee counters", "unclaimed protocol fees", "pool account")],
     ["collection transfers and counters in random histories"])

prop("C29", "Creator rights transfer completely, and only when it is safe",
     "The current creator, and nobody else, can hand the creator role to a different address while the pool is trading, and after migration once all of the old creator's DAMM v1 LP has been locked and released; between completion and migration the role is frozen. After a transfer the new creator has every creator right to unclaimed fees, surplus and migration fee, and the old one has none; nothing else about the pool changes.",
     ["histories"],
     "every stage, signer and new owner, followed by every creator instruction by both parties",
     "tests transfer once before trading",
     [I + "creator/ix_transfer_pool_creator.rs"],
     [("stage rules for transfer", I + "creator/ix_transfer_pool_creator.rs")],
     [("creator", "current creator of the pool", "pool account")],
     ["transfer attempts at every stage and later claims by both parties"])

prop("C30", "Off-chain quotes equal what the on-chain swap does",
     "For any pool, configuration, time, direction, mode and amount, the SDK quote for a swap succeeds exactly when the corresponding on-chain swap (with loosest limits and sufficient balances) would, and then reports the same input, output, fees and next price that the swap executes.",
     ["inputs", "histories", "configurations"],
     "every reachable pool state and every swap request on it, including time elapsed since the last trade",
     "SDK tests compare quotes with themselves on frozen accounts, never with an executed swap",
     ["dynamic-bonding-curve-sdk/src/quote_exact_in.rs", "dynamic-bonding-curve-sdk/src/quote_exact_out.rs", "dynamic-bonding-curve-sdk/src/quote_partial_fill.rs", P + "state/virtual_pool.rs"],
     [("quote functions", "dynamic-bonding-curve-sdk/src/")],
     [], ["quote taken on the ledger state just before each executed swap"])

prop("C31", "Events report exactly what happened",
     "Every successful instruction that has an event (all but operator creation and removal, locker creation, the migrations, LP locking and claiming, and protocol-fee zaps) emits it, once, through the program's own authority, and the amounts, parties, prices, modes, times and identifiers in it equal the actual token movements and account changes of that instruction; a failed instruction emits nothing. Both swap event versions agree with each other.",
     ["histories", "inputs"],
     "every instruction in every history",
     "tests never decode events",
     [P + "event.rs", I],
     [("event emission", I)],
     [], ["self-calls carrying events, compared with ledger differences"])

prop("C32", "Hostile input is rejected cleanly: no crash, wrap-around or memory error",
     "For any instruction data (truncated, extended, random, extreme values) and any accounts (wrong sizes, owners, discriminators, missing, duplicated), every instruction either succeeds or returns an error: it never panics or aborts, never lets arithmetic wrap or truncate silently, and never reads or writes memory it should not. A rejected call changes nothing on the ledger.",
     ["inputs"],
     "every byte string and account list",
     "tests pass well-formed calls only",
     [P + "lib.rs", P + "math/safe_math.rs", P + "math/", P + "macros.rs", I],
     [("checked arithmetic", P + "math/safe_math.rs")],
     [], ["panics, sanitizer reports and ledger differences under fuzzing"])

prop("C33", "Operators are registered by administrators with exactly the granted rights",
     "Only an administrator can register an operator, with a non-empty set of known permissions, for exactly one address; the registration stores that address and those permissions, lets that address do exactly what they allow, and ends when an administrator closes it, with its rent returned to the receiver the administrator names. Closing removes precisely the named registration, and a closed or never-created one grants nothing.",
     ["histories", "inputs"],
     "every permission value, address and order of registration, use and closing",
     "tests register one operator; a unit test checks the permission bits in isolation",
     [I + "admin/", P + "state/operator.rs", P + "state/claim_fee_operator.rs", P + "access_control.rs"],
     [("permission bits", P + "state/operator.rs")],
     [("operator account", "address and permissions", "operator account")],
     ["operator accounts and use of their rights in random histories"])

prop("C34", "Partner and pool metadata are written once, verbatim, by their owner",
     "Partner metadata can be created only with the signature of that partner and pool metadata only with that of the pool's creator, each at most once, and the stored name, website, logo and owner are exactly what was supplied. Once written it cannot be changed or removed by anyone.",
     ["inputs", "histories"],
     "every string content and length, repeated and unauthorised attempts",
     "tests write one short record",
     [I + "partner/ix_create_partner_metadata.rs", I + "creator/ix_create_virtual_pool_metadata.rs", P + "state/partner_metadata.rs", P + "state/virtual_pool_metadata.rs"],
     [("metadata initialisation", I)],
     [], ["metadata accounts after every transaction"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p) + "\n")
print(len(out))
