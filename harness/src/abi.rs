//! The program's external interface as a client sees it: addresses, account layouts, instruction and event
//! encodings. Written from the IDL-level interface, independent of the program's own Rust types.
#![allow(dead_code)]

use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program as sp;
use borsh::{BorshDeserialize, BorshSerialize};
use bytemuck::{Pod, Zeroable};
use sha2::{Digest, Sha256};
use sp::instruction::{AccountMeta, Instruction};
use std::cell::RefCell;
use std::collections::HashMap;

pub const DBC: Pubkey = sp::pubkey!("dbcij3LWUppWqq96dh6gJWwBifmcGfLSB5D4DuSMaqN");
pub const TOKEN: Pubkey = sp::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const TOKEN22: Pubkey = sp::pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA: Pubkey = sp::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const MPL: Pubkey = sp::pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const DAMM1: Pubkey = sp::pubkey!("Eo7WjKq67rjJQSZxS6z3YkapzY3eMj6Xy8X5EQVn5UaB");
pub const VAULT: Pubkey = sp::pubkey!("24Uqj9JCLxUeoC3hGfh5W3s9FM9uCHDS2SG3LYwBpyTi");
pub const DAMM2: Pubkey = sp::pubkey!("cpamdpZCGKUy5JxQXB4dcpGPiikHawvSWAd6mEn1sGG");
pub const LOCKER: Pubkey = sp::pubkey!("LocpQgucEQHbqNABEYvBvwoxCPsSbG91A1QaQhQQqjn");
pub use crate::svm::SYSTEM;
pub const SYSVAR_IX: Pubkey = sp::sysvar::instructions::ID;
pub const SYSVAR_RENT: Pubkey = sp::sysvar::rent::ID;
pub const ADMINS: [Pubkey; 2] = [
    sp::pubkey!("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi"),
    sp::pubkey!("DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX"),
];
pub const TREASURY: Pubkey = sp::pubkey!("6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm");
pub const POOL_AUTHORITY: Pubkey = sp::pubkey!("FhVo3mqL8PW5pH5U2CN4XE33DokiyZnUwuGpH2hmHLuM");
pub const WSOL: Pubkey = sp::pubkey!("So11111111111111111111111111111111111111112");
pub const NATIVE22: Pubkey = sp::pubkey!("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");
pub const USDC: Pubkey = sp::pubkey!("EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v");
/// proxy program of the harness: re-invokes whatever it is given
pub const PROXY: Pubkey = Pubkey::new_from_array([0x77; 32]);
pub const PROXY2: Pubkey = Pubkey::new_from_array([0x78; 32]);

pub fn disc(prefix: &str, name: &str) -> [u8; 8] {
    let mut h = Sha256::new();
    h.update(prefix.as_bytes());
    h.update(b":");
    h.update(name.as_bytes());
    h.finalize()[..8].try_into().unwrap()
}
pub fn ix_disc(name: &str) -> [u8; 8] {
    disc("global", name)
}
pub fn acc_disc(name: &str) -> [u8; 8] {
    disc("account", name)
}
pub fn ev_disc(name: &str) -> [u8; 8] {
    disc("event", name)
}

thread_local! {
    static PDAS: RefCell<HashMap<(Vec<Vec<u8>>, Pubkey), Pubkey>> = RefCell::new(HashMap::new());
}
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    let k = (seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), *program);
    if let Some(v) = PDAS.with(|p| p.borrow().get(&k).copied()) {
        return v;
    }
    let v = Pubkey::find_program_address(seeds, program).0;
    PDAS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 20000 {
            p.clear();
        }
        p.insert(k, v);
    });
    v
}
pub fn event_authority() -> Pubkey {
    pda(&[b"__event_authority"], &DBC)
}
pub fn pool_pda(config: &Pubkey, base: &Pubkey, quote: &Pubkey) -> Pubkey {
    let (a, b) = if base.as_ref() > quote.as_ref() { (base, quote) } else { (quote, base) };
    pda(&[b"pool", config.as_ref(), a.as_ref(), b.as_ref()], &DBC)
}
pub fn vault_pda(mint: &Pubkey, pool: &Pubkey) -> Pubkey {
    pda(&[b"token_vault", mint.as_ref(), pool.as_ref()], &DBC)
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> Pubkey {
    pda(&[owner.as_ref(), program.as_ref(), mint.as_ref()], &ATA)
}
pub fn mpl_metadata(mint: &Pubkey) -> Pubkey {
    pda(&[b"metadata", MPL.as_ref(), mint.as_ref()], &MPL)
}
pub fn operator_pda(addr: &Pubkey) -> Pubkey {
    pda(&[b"operator", addr.as_ref()], &DBC)
}

// ------------------------------------------------------------------------------------------------ account layouts

macro_rules! pod {
    ($(#[$m:meta])* pub struct $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[repr(C)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Pod, Zeroable)]
        $(#[$m])*
        pub struct $n { $(pub $f: $t),* }
        impl $n {
            /// (name, offset, size)
            pub const FIELDS: &'static [(&'static str, usize, usize)] = &[
                $((stringify!($f), std::mem::offset_of!($n, $f), std::mem::size_of::<$t>())),*
            ];
            pub fn read(data: &[u8]) -> Option<$n> {
                (data.len() == 8 + std::mem::size_of::<$n>())
                    .then(|| bytemuck::pod_read_unaligned(&data[8..]))
            }
            pub fn bytes(&self, disc: [u8; 8]) -> Vec<u8> {
                let mut v = disc.to_vec();
                v.extend_from_slice(bytemuck::bytes_of(self));
                v
            }
        }
    };
}

pod! {
pub struct Pool {
    v_last_update: u64,
    v_pad: [u8; 8],
    v_ref_price: u128,
    v_acc: u128,
    v_ref: u128,
    config: [u8; 32],
    creator: [u8; 32],
    base_mint: [u8; 32],
    base_vault: [u8; 32],
    quote_vault: [u8; 32],
    base_reserve: u64,
    quote_reserve: u64,
    protocol_base_fee: u64,
    protocol_quote_fee: u64,
    partner_base_fee: u64,
    partner_quote_fee: u64,
    sqrt_price: u128,
    activation_point: u64,
    pool_type: u8,
    is_migrated: u8,
    is_partner_withdraw_surplus: u8,
    is_protocol_withdraw_surplus: u8,
    migration_progress: u8,
    is_withdraw_leftover: u8,
    is_creator_withdraw_surplus: u8,
    migration_fee_withdraw_status: u8,
    m_protocol_base: u64,
    m_protocol_quote: u64,
    m_trading_base: u64,
    m_trading_quote: u64,
    finish_curve_timestamp: u64,
    creator_base_fee: u64,
    creator_quote_fee: u64,
    legacy_creation_fee_bits: u8,
    creation_fee_bits: u8,
    has_swap: u8,
    pad0: [u8; 5],
    protocol_liquidity_migration_fee_bps: u16,
    pad1: [u8; 6],
    protocol_migration_base_fee: u64,
    protocol_migration_quote_fee: u64,
    pad2: [u64; 3],
}
}

pod! {
pub struct Config {
    quote_mint: [u8; 32],
    fee_claimer: [u8; 32],
    leftover_receiver: [u8; 32],
    cliff: u64,
    second_factor: u64,
    third_factor: u64,
    first_factor: u16,
    base_fee_mode: u8,
    pad_bf: [u8; 5],
    dyn_init: u8,
    pad_d0: [u8; 7],
    dyn_max_vol: u32,
    dyn_control: u32,
    dyn_bin_step: u16,
    dyn_filter: u16,
    dyn_decay: u16,
    dyn_reduction: u16,
    pad_d1: [u8; 8],
    dyn_bin_step_u128: u128,
    pv_init: u8,
    pv_pct: u8,
    pv_pad: [u8; 2],
    pv_bps: u16,
    pv_n: u16,
    pv_freq: u32,
    pv_cliff: u32,
    cv_init: u8,
    cv_pct: u8,
    cv_pad: [u8; 2],
    cv_bps: u16,
    cv_n: u16,
    cv_freq: u32,
    cv_cliff: u32,
    pad0: [u8; 14],
    pad1: u16,
    collect_fee_mode: u8,
    migration_option: u8,
    activation_type: u8,
    token_decimal: u8,
    version: u8,
    token_type: u8,
    quote_token_flag: u8,
    partner_perm_pct: u8,
    partner_liq_pct: u8,
    creator_perm_pct: u8,
    creator_liq_pct: u8,
    migration_fee_option: u8,
    fixed_supply: u8,
    creator_fee_pct: u8,
    token_authority: u8,
    migration_fee_pct: u8,
    creator_migration_fee_pct: u8,
    pad2: [u8; 7],
    swap_base_amount: u64,
    migration_quote_threshold: u64,
    migration_base_threshold: u64,
    migration_sqrt_price: u128,
    lv_amount_per_period: u64,
    lv_cliff_duration: u64,
    lv_frequency: u64,
    lv_number_of_period: u64,
    lv_cliff_unlock: u64,
    lv_pad: u64,
    pre_supply: u64,
    post_supply: u64,
    migrated_collect_fee_mode: u8,
    migrated_dynamic_fee: u8,
    migrated_pool_fee_bps: u16,
    migrated_base_fee_mode: u8,
    first_swap_min_fee: u8,
    migrated_compounding_bps: u16,
    pool_creation_fee: u64,
    migrated_base_fee_bytes: [u8; 16],
    sqrt_start_price: u128,
    curve: [[u128; 2]; 20],
}
}
const _: () = assert!(std::mem::size_of::<Pool>() == 416);
const _: () = assert!(std::mem::size_of::<Config>() == 1040);

impl Pool {
    pub fn disc() -> [u8; 8] {
        acc_disc("VirtualPool")
    }
}
impl Config {
    pub fn disc() -> [u8; 8] {
        acc_disc("PoolConfig")
    }
    pub fn points(&self) -> Vec<(u128, u128)> {
        self.curve.iter().map(|p| (p[0], p[1])).take_while(|p| p.0 != 0 && p.1 != 0).collect()
    }
    pub fn base_token_program(&self) -> Pubkey {
        if self.token_type == 0 { TOKEN } else { TOKEN22 }
    }
    pub fn quote_token_program(&self) -> Pubkey {
        if self.quote_token_flag == 0 { TOKEN } else { TOKEN22 }
    }
    pub fn quote(&self) -> Pubkey {
        Pubkey::new_from_array(self.quote_mint)
    }
    pub fn partner(&self) -> Pubkey {
        Pubkey::new_from_array(self.fee_claimer)
    }
    pub fn leftover(&self) -> Pubkey {
        Pubkey::new_from_array(self.leftover_receiver)
    }
    pub fn vesting_total(&self) -> u128 {
        self.lv_cliff_unlock as u128 + self.lv_amount_per_period as u128 * self.lv_number_of_period as u128
    }
    pub fn has_vesting(&self) -> bool {
        self.lv_amount_per_period != 0
            || self.lv_cliff_duration != 0
            || self.lv_frequency != 0
            || self.lv_number_of_period != 0
            || self.lv_cliff_unlock != 0
    }
}

// --------------------------------------------------------------------------------------------- config parameters

#[derive(Clone, Debug, PartialEq, BorshSerialize, BorshDeserialize, Default)]
pub struct BaseFeeP {
    pub cliff: u64,
    pub first: u16,
    pub second: u64,
    pub third: u64,
    pub mode: u8,
}
#[derive(Clone, Debug, PartialEq, BorshSerialize, BorshDeserialize, Default)]
pub struct DynFeeP {
    pub bin_step: u16,
    pub bin_step_u128: u128,
    pub filter: u16,
    pub decay: u16,
    pub reduction: u16,
    pub max_vol: u32,
    pub control: u32,
}
#[derive(Clone, Debug, PartialEq, BorshSerialize, BorshDeserialize, Default)]
pub struct LockedVestingP {
    pub amount_per_period: u64,
    pub cliff_duration: u64,
    pub frequency: u64,
    pub number_of_period: u64,
    pub cliff_unlock: u64,
}
impl LockedVestingP {
    pub fn any(&self) -> bool {
        *self != LockedVestingP::default()
    }
    pub fn total(&self) -> u128 {
        self.cliff_unlock as u128 + self.amount_per_period as u128 * self.number_of_period as u128
    }
}
#[derive(Clone, Debug, PartialEq, BorshSerialize, BorshDeserialize, Default)]
pub struct LiqVestingP {
    pub pct: u8,
    pub bps: u16,
    pub n: u16,
    pub cliff: u32,
    pub freq: u32,
}
#[derive(Clone, Debug, PartialEq, BorshSerialize, BorshDeserialize, Default)]
pub struct MarketCapP {
    pub number_of_period: u16,
    pub sqrt_price_step_bps: u16,
    pub expiration: u32,
    pub reduction: u64,
}
#[derive(Clone, Debug, PartialEq, BorshSerialize, BorshDeserialize, Default)]
pub struct ConfigP {
    pub base_fee: BaseFeeP,
    pub dynamic: Option<DynFeeP>,
    pub collect_fee_mode: u8,
    pub migration_option: u8,
    pub activation_type: u8,
    pub token_type: u8,
    pub token_decimal: u8,
    pub partner_liq: u8,
    pub partner_perm: u8,
    pub creator_liq: u8,
    pub creator_perm: u8,
    pub migration_quote_threshold: u64,
    pub sqrt_start_price: u128,
    pub locked_vesting: LockedVestingP,
    pub migration_fee_option: u8,
    pub token_supply: Option<(u64, u64)>,
    pub creator_fee_pct: u8,
    pub token_authority: u8,
    pub migration_fee_pct: u8,
    pub creator_migration_fee_pct: u8,
    pub migrated_collect: u8,
    pub migrated_dynamic: u8,
    pub migrated_bps: u16,
    pub pool_creation_fee: u64,
    pub partner_vesting: LiqVestingP,
    pub creator_vesting: LiqVestingP,
    pub migrated_base_fee_mode: u8,
    pub market_cap: MarketCapP,
    pub first_swap_min_fee: bool,
    pub compounding_bps: u16,
    pub padding: [u8; 2],
    pub curve: Vec<(u128, u128)>,
}

// ------------------------------------------------------------------------------------------------- instructions

pub fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
pub fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

/// Builds an instruction of the program; ev appends the event-cpi accounts
pub fn ix(name: &str, args: impl BorshSerialize, mut accounts: Vec<AccountMeta>, ev: bool) -> Instruction {
    let mut data = ix_disc(name).to_vec();
    args.serialize(&mut data).unwrap();
    if ev {
        accounts.push(r(event_authority()));
        accounts.push(r(DBC));
    }
    Instruction { program_id: DBC, accounts, data }
}

pub fn k(b: &[u8; 32]) -> Pubkey {
    Pubkey::new_from_array(*b)
}

// ------------------------------------------------------------------------------------------------------- events

pub const EVENT_IX_TAG: [u8; 8] = [0xe4, 0x45, 0xa5, 0x2e, 0x51, 0xcb, 0x9a, 0x1d];

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Event {
    pub name: String,
    pub data: Vec<u8>,
}
impl std::fmt::Debug for Event {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}[{}]", self.name, self.data.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
}
pub fn event(name: &str, body: impl BorshSerialize) -> Event {
    Event { name: name.to_string(), data: body.try_to_vec().unwrap() }
}
pub const EVENT_NAMES: &[&str] = &[
    "EvtPartnerMetadata",
    "EvtVirtualPoolMetadata",
    "EvtCreateConfig",
    "EvtCreateConfigV2",
    "EvtCreateClaimFeeOperator",
    "EvtCloseClaimFeeOperator",
    "EvtInitializePool",
    "EvtSwap",
    "EvtSwap2",
    "EvtCurveComplete",
    "EvtClaimProtocolFee",
    "EvtClaimTradingFee",
    "EvtClaimCreatorTradingFee",
    "EvtCreateMeteoraMigrationMetadata",
    "EvtPartnerWithdrawSurplus",
    "EvtCreatorWithdrawSurplus",
    "EvtWithdrawLeftover",
    "EvtUpdatePoolCreator",
    "EvtWithdrawMigrationFee",
    "EvtPartnerWithdrawMigrationFee",
    "EvtClaimPoolCreationFee",
    "EvtPartnerClaimPoolCreationFee",
    "EvtClaimProtocolLiquidityMigrationFee",
];
