//! What every instruction must do, computed from the instruction, the ledger and the exact model alone. The prediction
//! is compared with what the real program did.
#![allow(dead_code)]

use crate::abi::*;
use crate::model::*;
use crate::progs::*;
use crate::svm::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program as sp;
use borsh::{BorshDeserialize, BorshSerialize};
use sp::clock::Clock;
use sp::instruction::{AccountMeta, Instruction};
use sp::rent::Rent;
use std::collections::{BTreeMap, HashMap};

pub type Tag = &'static str;

#[derive(Debug, Clone)]
pub enum Stop {
    /// the instruction has to fail; the properties that say so
    Fail(Vec<Tag>, String),
    /// no exact prediction
    May(String),
}
pub type PR<T = ()> = Result<T, Stop>;

pub fn fail<T>(tags: &[Tag], why: impl Into<String>) -> PR<T> {
    Err(Stop::Fail(tags.to_vec(), why.into()))
}
macro_rules! ck {
    ($c:expr, [$($t:expr),*], $($m:tt)*) => {
        if !($c) {
            return Err($crate::predict::Stop::Fail(vec![$($t),*], format!($($m)*)));
        }
    };
}
pub(crate) use ck;

/// account store both the stand-ins and the predictor work on
pub trait Mem {
    fn load(&self, k: &Pubkey) -> Acc;
    fn store(&mut self, k: &Pubkey, a: Acc);
    fn rent_of(&self, len: usize) -> u64;
}

#[derive(Clone, Debug)]
pub struct SwapNote {
    pub pool: Pubkey,
    pub config: Pubkey,
    pub dir: Dir,
    pub mode: Mode,
    pub amounts: (u64, u64),
    pub first: bool,
    pub referral: bool,
    pub now: u64,
    pub ts: u64,
    pub res: Option<SwapR>,
    pub before: Pool,
    pub after: Option<Pool>,
    pub payer: Pubkey,
    pub input: Pubkey,
    pub output: Pubkey,
    pub referral_acc: Option<Pubkey>,
}

pub struct St<'a> {
    pub base: &'a Accounts,
    pub over: Accounts,
    pub rent: &'a Rent,
    pub clock: &'a Clock,
    pub events: Vec<Event>,
    pub swaps: Vec<SwapNote>,
    pub cov: Vec<String>,
    /// faults the stand-ins were told to inject
    pub fault: crate::ext::Fault,
}

impl Mem for St<'_> {
    fn load(&self, k: &Pubkey) -> Acc {
        self.get(k).clone()
    }
    fn store(&mut self, k: &Pubkey, a: Acc) {
        self.over.insert(*k, a);
    }
    fn rent_of(&self, len: usize) -> u64 {
        self.rent.minimum_balance(len)
    }
}

pub struct Ctx<'a> {
    pub tops: &'a [Instruction],
    pub idx: usize,
    pub height: usize,
    /// earlier calls of the same parent
    pub sibs: &'a [Instruction],
}

static EMPTY: Acc = Acc { lamports: 0, data: vec![], owner: SYSTEM, executable: false };

pub fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub state: u8,
    pub native: bool,
}
/// a token account, if the bytes are one
pub fn tok_of(a: &Acc) -> Option<Tok> {
    if (a.owner != TOKEN && a.owner != TOKEN22)
        || !(a.data.len() == 165 || (a.owner == TOKEN22 && a.data.len() > 165 && a.data.len() != 355 && a.data[165] == 2))
        || a.data[108] == 0
    {
        return None;
    }
    Some(Tok {
        mint: key_at(&a.data, 0),
        owner: key_at(&a.data, 32),
        amount: u64_at(&a.data, 64),
        state: a.data[108],
        native: a.data[109] == 1,
    })
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MintV {
    pub authority: Option<Pubkey>,
    pub supply: u64,
    pub decimals: u8,
    pub freeze: Option<Pubkey>,
}
pub fn mint_of(a: &Acc) -> Option<MintV> {
    if (a.owner != TOKEN && a.owner != TOKEN22)
        || !(a.data.len() == 82 || (a.owner == TOKEN22 && a.data.len() > 165 && a.data.len() != 355 && a.data[165] == 1))
        || a.data[45] != 1
    {
        return None;
    }
    Some(MintV {
        authority: (a.data[0] == 1).then(|| key_at(&a.data, 4)),
        supply: u64_at(&a.data, 36),
        decimals: a.data[44],
        freeze: (a.data[46] == 1).then(|| key_at(&a.data, 50)),
    })
}
pub fn tok_bytes(mint: &Pubkey, owner: &Pubkey, amount: u64, native: Option<u64>) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    if let Some(n) = native {
        d[109] = 1;
        d[113..121].copy_from_slice(&n.to_le_bytes());
    }
    d
}
pub fn mint_bytes(authority: Option<Pubkey>, supply: u64, decimals: u8) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority {
        d[0] = 1;
        d[4..36].copy_from_slice(a.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    d
}

/// the accounts and arguments of one instruction
pub struct A<'a> {
    pub accs: &'a [AccountMeta],
    pub args: &'a [u8],
}
impl A<'_> {
    pub fn key(&self, i: usize) -> Pubkey {
        self.accs[i].pubkey
    }
    pub fn signer(&self, i: usize) -> bool {
        self.accs[i].is_signer
    }
    pub fn arg<T: BorshDeserialize>(&self) -> PR<T> {
        let mut d = self.args;
        match T::deserialize(&mut d) {
            Ok(v) => Ok(v),
            Err(_) => fail(&["C32"], "malformed arguments"),
        }
    }
    pub fn n(&self, n: usize) -> PR {
        ck!(self.accs.len() >= n, ["C32"], "missing accounts");
        Ok(())
    }
    pub fn sig(&self, i: usize) -> PR {
        ck!(self.accs[i].is_signer, ["C21"], "account {i} did not sign");
        Ok(())
    }
    pub fn mutable(&self, i: usize) -> PR {
        ck!(self.accs[i].is_writable, ["C22"], "account {i} is not writable");
        Ok(())
    }
    pub fn is(&self, i: usize, k: &Pubkey, what: &str) -> PR {
        ck!(self.accs[i].pubkey == *k, ["C22"], "{what}: account {i} is not the expected one");
        Ok(())
    }
    /// event_authority and program at i, i+1
    pub fn ev(&self, i: usize) -> PR {
        self.is(i, &event_authority(), "event authority")?;
        self.emits()
    }
    pub fn emits(&self) -> PR {
        ck!(self.accs.iter().any(|a| a.pubkey == DBC), ["C22"], "program account missing");
        Ok(())
    }
    /// all of these distinct
    pub fn distinct(&self, idx: &[usize]) -> PR {
        for (n, a) in idx.iter().enumerate() {
            for b in &idx[n + 1..] {
                if self.key(*a) == self.key(*b) {
                    return Err(Stop::May("aliased new account".into()));
                }
            }
        }
        Ok(())
    }
}

impl<'a> St<'a> {
    pub fn get(&self, k: &Pubkey) -> &Acc {
        self.over.get(k).or_else(|| self.base.get(k)).unwrap_or(&EMPTY)
    }
    pub fn get_mut(&mut self, k: &Pubkey) -> &mut Acc {
        let base = self.base;
        self.over.entry(*k).or_insert_with(|| base.get(k).cloned().unwrap_or_default())
    }
    pub fn put(&mut self, k: Pubkey, a: Acc) {
        self.over.insert(k, a);
    }
    pub fn emit(&mut self, name: &str, body: impl BorshSerialize) {
        self.events.push(event(name, body));
    }
    pub fn c(&mut self, s: impl Into<String>) {
        self.cov.push(s.into());
    }
    pub fn pool_at(&self, k: &Pubkey) -> PR<Pool> {
        let a = self.get(k);
        ck!(a.owner == DBC && a.data.len() >= 8 && a.data[..8] == Pool::disc(), ["C22"], "{k} is not a pool");
        Pool::read(&a.data).ok_or_else(|| Stop::May("pool size".into()))
    }
    pub fn config_at(&self, k: &Pubkey) -> PR<Config> {
        let a = self.get(k);
        ck!(a.owner == DBC && a.data.len() >= 8 && a.data[..8] == Config::disc(), ["C22"], "{k} is not a config");
        Config::read(&a.data).ok_or_else(|| Stop::May("config size".into()))
    }
    pub fn put_pool(&mut self, k: &Pubkey, p: &Pool) {
        let d = p.bytes(Pool::disc());
        self.get_mut(k).data = d;
    }
    pub fn tok(&self, k: &Pubkey) -> PR<Tok> {
        match tok_of(self.get(k)) {
            Some(t) => Ok(t),
            None => fail(&["C22"], format!("{k} is not a token account")),
        }
    }
    pub fn mint(&self, k: &Pubkey) -> PR<MintV> {
        match mint_of(self.get(k)) {
            Some(t) => Ok(t),
            None => fail(&["C22"], format!("{k} is not a mint")),
        }
    }
    pub fn vault(&self, k: &Pubkey, mint: &Pubkey, program: &Pubkey) -> PR {
        let t = self.tok(k)?;
        ck!(t.mint == *mint, ["C22"], "vault mint");
        ck!(self.get(k).owner == *program, ["C22"], "vault token program");
        Ok(())
    }
    pub fn tok_program(&self, a: &A, i: usize) -> PR {
        ck!(a.key(i) == TOKEN || a.key(i) == TOKEN22, ["C22"], "token program account {i}");
        Ok(())
    }
    /// transfer_checked
    pub fn transfer(&mut self, program: &Pubkey, from: &Pubkey, mint: &Pubkey, to: &Pubkey, auth: &Pubkey, n: u64) -> PR {
        ck!(self.get(from).owner == *program, ["C22"], "source not of the token program");
        ck!(self.get(mint).owner == *program, ["C22"], "mint not of the token program");
        ck!(self.get(to).owner == *program, ["C22"], "destination not of the token program");
        let f = self.tok(from)?;
        let t = self.tok(to)?;
        self.mint(mint)?;
        ck!(f.state == 1 && t.state == 1, ["C22"], "frozen token account");
        ck!(f.mint == *mint && t.mint == *mint, ["C22"], "token account mint");
        ck!(f.owner == *auth, ["C22"], "authority {auth} does not own the source");
        ck!(f.amount >= n, ["C02", "C08"], "insufficient tokens: {} < {n}", f.amount);
        if from == to {
            return Ok(());
        }
        let a = self.get_mut(from);
        a.data[64..72].copy_from_slice(&(f.amount - n).to_le_bytes());
        if f.native {
            a.lamports -= n;
        }
        let Some(sum) = t.amount.checked_add(n) else { return fail(&["C02"], "token amount overflow") };
        let b = self.get_mut(to);
        b.data[64..72].copy_from_slice(&sum.to_le_bytes());
        if t.native {
            b.lamports += n;
        }
        Ok(())
    }
    pub fn burn(&mut self, program: &Pubkey, mint: &Pubkey, from: &Pubkey, auth: &Pubkey, n: u64) -> PR {
        let f = self.tok(from)?;
        let m = self.mint(mint)?;
        ck!(self.get(from).owner == *program && self.get(mint).owner == *program, ["C22"], "burn program");
        ck!(f.mint == *mint && f.owner == *auth && f.state == 1, ["C22"], "burn account");
        ck!(f.amount >= n && m.supply >= n, ["C15"], "burn amount");
        self.get_mut(from).data[64..72].copy_from_slice(&(f.amount - n).to_le_bytes());
        self.get_mut(mint).data[36..44].copy_from_slice(&(m.supply - n).to_le_bytes());
        Ok(())
    }
    /// lamports moved by the system program for a signer
    pub fn pay(&mut self, from: &Pubkey, to: &Pubkey, n: u64) -> PR {
        let f = self.get(from);
        ck!(f.owner == SYSTEM && f.data.is_empty(), ["C20"], "payer is not a system account {from} {} {}", f.owner, f.data.len());
        ck!(f.lamports >= n, ["C20"], "payer has too few lamports");
        self.get_mut(from).lamports -= n;
        self.get_mut(to).lamports += n;
        Ok(())
    }
    /// a new rent-exempt account
    pub fn init(&mut self, payer: &Pubkey, new: &Pubkey, space: usize, owner: &Pubkey, data: Vec<u8>) -> PR {
        let t = self.get(new);
        ck!(payer != new, ["C22"], "payer is the new account");
        ck!(t.owner == SYSTEM && t.data.is_empty(), ["C22", "C14"], "account {new} exists already");
        ck!(space <= MAX_GROW, ["C32"], "account too large");
        let have = t.lamports;
        let min = self.rent.minimum_balance(space);
        if have == 0 {
            let f = self.get(payer);
            ck!(f.owner == SYSTEM && f.data.is_empty(), ["C20"], "payer is not a system account");
        }
        if have < min {
            self.pay(payer, new, min - have)?;
        }
        let a = self.get_mut(new);
        a.owner = *owner;
        a.data = data;
        a.data.resize(space, 0);
        Ok(())
    }
    pub fn config_pool(&self, a: &A, config: usize, pool: usize) -> PR<(Config, Pool)> {
        let c = self.config_at(&a.key(config))?;
        let p = self.pool_at(&a.key(pool))?;
        a.mutable(pool)?;
        ck!(p.config == a.key(config).to_bytes(), ["C22"], "pool of another config");
        Ok((c, p))
    }
    fn system(&self, a: &A, i: usize) -> PR {
        a.is(i, &SYSTEM, "system program")
    }
    fn operator(&self, a: &A, op: usize, signer: usize, bit: u8) -> PR {
        let o = self.get(&a.key(op));
        ck!(
            o.owner == DBC && o.data.len() == 72 && o.data[..8] == acc_disc("Operator"),
            ["C21", "C33"],
            "not a registered operator"
        );
        a.sig(signer)?;
        ck!(key_at(&o.data, 8) == a.key(signer), ["C21", "C33"], "operator of another address");
        ck!(o.data[40] >> bit & 1 == 1, ["C21", "C33"], "operator lacks the permission");
        Ok(())
    }
    pub fn now_point(&self, c: &Config) -> u64 {
        if c.activation_type == 0 {
            self.clock.slot
        } else {
            self.clock.unix_timestamp as u64
        }
    }
    pub fn ts(&self) -> u64 {
        self.clock.unix_timestamp as u64
    }
}

pub fn complete(c: &Config, p: &Pool) -> bool {
    p.quote_reserve >= c.migration_quote_threshold
}

/// Result of the curve computations the program does on a failed check: which properties would say so
pub fn swap_tags(e: &str) -> Vec<Tag> {
    match e {
        "before activation" | "schedule below zero" | "reduction above one" => vec!["C05"],
        "rl discriminant" | "rl negative remainder" | "rl overflow" | "rl beyond range" | "rl fee" | "rl below cliff" => {
            vec!["C06"]
        }
        "not enough liquidity" => vec!["C01", "C08"],
        _ => vec!["C01", "C08"],
    }
}

#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct NameParams {
    pub name: String,
    pub symbol: String,
    pub uri: String,
}
#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct MetaParams {
    pub padding: MetaPad,
    pub name: String,
    pub website: String,
    pub logo: String,
}
#[derive(Clone, Debug)]
pub struct MetaPad(pub [u8; 96]);
impl BorshSerialize for MetaPad {
    fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> {
        w.write_all(&self.0)
    }
}
impl BorshDeserialize for MetaPad {
    fn deserialize_reader<R: std::io::Read>(r: &mut R) -> std::io::Result<Self> {
        let mut b = [0u8; 96];
        r.read_exact(&mut b)?;
        Ok(MetaPad(b))
    }
}

/// fee result as in the events
#[derive(BorshSerialize)]
struct EvRes {
    actual_in: u64,
    out: u64,
    next: u128,
    trading: u64,
    protocol: u64,
    referral: u64,
}
#[derive(BorshSerialize)]
struct EvRes2 {
    included: u64,
    excluded: u64,
    left: u64,
    out: u64,
    next: u128,
    trading: u64,
    protocol: u64,
    referral: u64,
}

pub const INIT_SPL: &str = "initialize_virtual_pool_with_spl_token";
pub const INIT_22: &str = "initialize_virtual_pool_with_token2022";

pub const ALL_IX: &[&str] = &[
    "create_operator_account",
    "close_operator_account",
    "close_claim_protocol_fee_operator",
    "claim_protocol_fee",
    "claim_protocol_pool_creation_fee",
    "zap_protocol_fee",
    "create_partner_metadata",
    "create_config",
    "claim_trading_fee",
    "claim_partner_pool_creation_fee",
    "partner_withdraw_surplus",
    "initialize_virtual_pool_with_spl_token",
    "initialize_virtual_pool_with_token2022",
    "create_virtual_pool_metadata",
    "claim_creator_trading_fee",
    "creator_withdraw_surplus",
    "transfer_pool_creator",
    "withdraw_migration_fee",
    "swap",
    "swap2",
    "create_locker",
    "withdraw_leftover",
    "migration_meteora_damm_create_metadata",
    "migrate_meteora_damm",
    "migrate_meteora_damm_lock_lp_token",
    "migrate_meteora_damm_claim_lp_token",
    "migration_damm_v2_create_metadata",
    "migration_damm_v2",
];

thread_local! {
    static DISCS: HashMap<[u8; 8], &'static str> = ALL_IX.iter().map(|n| (ix_disc(n), *n)).collect();
}
pub fn ix_name(data: &[u8]) -> Option<&'static str> {
    let d: [u8; 8] = data.get(..8)?.try_into().ok()?;
    DISCS.with(|m| m.get(&d).copied())
}

/// the property an operation as a whole belongs to
pub fn op_tags(name: &str) -> &'static [Tag] {
    match name {
        "create_operator_account" | "close_operator_account" | "close_claim_protocol_fee_operator" => &["C33"],
        "claim_protocol_fee" => &["C28", "C17"],
        "zap_protocol_fee" => &["C28"],
        "claim_protocol_pool_creation_fee" | "claim_partner_pool_creation_fee" => &["C20"],
        "create_partner_metadata" | "create_virtual_pool_metadata" => &["C34"],
        "create_config" => &["C12"],
        "claim_trading_fee" | "claim_creator_trading_fee" => &["C16"],
        "partner_withdraw_surplus" | "creator_withdraw_surplus" => &["C17"],
        INIT_SPL | INIT_22 => &["C14"],
        "transfer_pool_creator" => &["C29"],
        "withdraw_migration_fee" => &["C18"],
        "withdraw_leftover" => &["C19"],
        "create_locker" => &["C26"],
        "migration_meteora_damm_create_metadata" | "migrate_meteora_damm" => &["C23"],
        "migrate_meteora_damm_lock_lp_token" | "migrate_meteora_damm_claim_lp_token" => &["C24"],
        "migration_damm_v2" | "migration_damm_v2_create_metadata" => &["C25"],
        _ => &[],
    }
}

fn union_flags(ix: &Instruction) -> Vec<AccountMeta> {
    let mut m: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for a in &ix.accounts {
        let e = m.entry(a.pubkey).or_default();
        e.0 |= a.is_signer;
        e.1 |= a.is_writable;
    }
    ix.accounts
        .iter()
        .map(|a| AccountMeta { pubkey: a.pubkey, is_signer: m[&a.pubkey].0, is_writable: m[&a.pubkey].1 })
        .collect()
}

/// Predicts one instruction on the state.
pub fn predict_ix(st: &mut St, cx: &Ctx, ix: &Instruction) -> PR {
    let accs = union_flags(ix);
    if ix.program_id == NOOP || ix.program_id == ATA {
        return Ok(());
    }
    if ix.program_id == PROXY || ix.program_id == PROXY2 {
        let Ok(calls) = Vec::<ProxyCall>::try_from_slice(&ix.data) else { return Err(Stop::May("proxy data".into())) };
        let mut sibs: Vec<Instruction> = vec![];
        for c in calls {
            let metas: Vec<AccountMeta> = c
                .accounts
                .iter()
                .map(|n| accs.get(*n as usize).cloned().ok_or(Stop::May("proxy account".into())))
                .collect::<PR<_>>()?;
            let child = Instruction { program_id: accs.get(c.program as usize).ok_or(Stop::May("proxy account".into()))?.pubkey, accounts: metas, data: c.data };
            let sub = Ctx { tops: cx.tops, idx: cx.idx, height: cx.height + 1, sibs: &sibs };
            predict_ix(st, &sub, &child)?;
            // the runtime records siblings with the callee's flags
            sibs.push(child);
        }
        return Ok(());
    }
    if ix.program_id != DBC {
        return Err(Stop::May("other program".into()));
    }
    let Some(name) = ix_name(&ix.data) else {
        if ix.data.len() >= 8 && ix.data[..8] == EVENT_IX_TAG {
            return if accs.first().map(|a| a.pubkey == event_authority() && a.is_signer).unwrap_or(false) {
                Err(Stop::May("event call".into()))
            } else {
                fail(&["C31", "C32"], "event call by someone else")
            };
        }
        return fail(&["C32"], "unknown instruction");
    };
    let a = A { accs: &accs, args: &ix.data[8..] };
    let r = dispatch(st, cx, name, &a);
    if let Err(Stop::Fail(t, w)) = r {
        let mut t = t;
        for x in op_tags(name) {
            if !t.contains(x) {
                t.push(x);
            }
        }
        return Err(Stop::Fail(t, format!("{name}: {w}")));
    }
    r
}

fn dispatch(st: &mut St, cx: &Ctx, name: &'static str, a: &A) -> PR {
    match name {
        "create_operator_account" => create_operator(st, a),
        "close_operator_account" => close_operator(st, a),
        "close_claim_protocol_fee_operator" => close_claim_operator(st, a),
        "claim_protocol_fee" => claim_protocol_fee(st, a),
        "claim_protocol_pool_creation_fee" => claim_protocol_creation(st, a),
        "zap_protocol_fee" => zap(st, a),
        "create_partner_metadata" => partner_metadata(st, a),
        "create_config" => create_config(st, a),
        "claim_trading_fee" => claim_trading(st, a, true),
        "claim_creator_trading_fee" => claim_trading(st, a, false),
        "claim_partner_pool_creation_fee" => claim_partner_creation(st, a),
        "partner_withdraw_surplus" => surplus_ix(st, a, true),
        "creator_withdraw_surplus" => surplus_ix(st, a, false),
        INIT_SPL => init_pool(st, a, false),
        INIT_22 => init_pool(st, a, true),
        "create_virtual_pool_metadata" => pool_metadata(st, a),
        "transfer_pool_creator" => transfer_creator(st, a),
        "withdraw_migration_fee" => withdraw_migration_fee(st, a),
        "swap" | "swap2" => swap(st, cx, a, name == "swap2"),
        "withdraw_leftover" => withdraw_leftover(st, a),
        "migration_damm_v2_create_metadata" => {
            // does nothing, for anybody
            a.n(7)?;
            a.is(5, &event_authority(), "event authority")
        }
        _ => crate::ext::predict(st, cx, name, a),
    }
}

// -------------------------------------------------------------------------------------------------- administration

fn create_operator(st: &mut St, a: &A) -> PR {
    a.n(7)?;
    let perm: u128 = a.arg()?;
    let who = a.key(1);
    a.sig(2)?;
    ck!(ADMINS.contains(&a.key(2)), ["C21", "C33"], "not an administrator");
    a.mutable(3)?;
    a.sig(3)?;
    a.mutable(0)?;
    st.system(a, 4)?;
    a.is(5, &event_authority(), "event authority")?; // no event, so the program account is not needed
    a.is(0, &operator_pda(&who), "operator address")?;
    ck!(perm > 0 && perm < 4, ["C33"], "permission {perm}");
    let mut d = acc_disc("Operator").to_vec();
    d.extend_from_slice(who.as_ref());
    d.extend_from_slice(&perm.to_le_bytes());
    st.init(&a.key(3), &a.key(0), 72, &DBC, d)
}

fn close_to(st: &mut St, from: &Pubkey, to: &Pubkey) -> PR {
    ck!(from != to, ["C33"], "close into itself");
    let l = st.get(from).lamports;
    st.get_mut(to).lamports += l;
    st.put(*from, Acc::default());
    Ok(())
}

fn close_operator(st: &mut St, a: &A) -> PR {
    a.n(3)?;
    a.mutable(0)?;
    a.mutable(2)?;
    a.sig(1)?;
    ck!(ADMINS.contains(&a.key(1)), ["C21", "C33"], "not an administrator");
    let o = st.get(&a.key(0));
    ck!(o.owner == DBC && o.data.len() == 72 && o.data[..8] == acc_disc("Operator"), ["C33"], "not an operator");
    close_to(st, &a.key(0), &a.key(2))
}

fn close_claim_operator(st: &mut St, a: &A) -> PR {
    a.n(5)?;
    a.mutable(0)?;
    a.mutable(1)?;
    a.sig(2)?;
    ck!(ADMINS.contains(&a.key(2)), ["C21", "C33"], "not an administrator");
    a.ev(3)?;
    let o = st.get(&a.key(0));
    ck!(o.owner == DBC && o.data.len() == 168 && o.data[..8] == acc_disc("ClaimFeeOperator"), ["C33"], "not an operator");
    let who = key_at(&o.data, 8);
    close_to(st, &a.key(0), &a.key(1))?;
    st.emit("EvtCloseClaimFeeOperator", (a.key(0).to_bytes(), who.to_bytes()));
    Ok(())
}

// ------------------------------------------------------------------------------------------------------- protocol

fn take_protocol_base(p: &mut Pool, max: u64) -> u64 {
    let t = p.protocol_base_fee.min(max);
    let m = p.protocol_migration_base_fee.min(max - t);
    p.protocol_base_fee -= t;
    p.protocol_migration_base_fee -= m;
    t + m
}
fn take_protocol_quote(c: &Config, p: &mut Pool, max: u64) -> u64 {
    let t = p.protocol_quote_fee.min(max);
    let m = p.protocol_migration_quote_fee.min(max - t);
    p.protocol_quote_fee -= t;
    p.protocol_migration_quote_fee -= m;
    let mut n = t + m;
    if complete(c, p) && p.is_protocol_withdraw_surplus == 0 {
        p.is_protocol_withdraw_surplus = 1;
        n += surplus(c, p).0;
    }
    n
}
fn check_ata(st: &St, acc: &Pubkey, owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> PR {
    ck!(*acc == ata(owner, mint, program), ["C22", "C28", "C19"], "not the associated account of {owner}");
    match tok_of(st.get(acc)) {
        Some(t) => {
            ck!(t.owner == *owner, ["C22", "C28", "C19"], "associated account owned by someone else");
            Ok(())
        }
        None => fail(&["C22"], "not a token account"),
    }
}

fn claim_protocol_fee(st: &mut St, a: &A) -> PR {
    a.n(15)?;
    let (mb, mq): (u64, u64) = a.arg()?;
    a.is(0, &POOL_AUTHORITY, "pool authority")?;
    let (c, mut p) = st.config_pool(a, 1, 2)?;
    a.is(6, &c.quote(), "quote mint of the config")?;
    a.is(3, &k(&p.base_vault), "base vault")?;
    a.is(4, &k(&p.quote_vault), "quote vault")?;
    a.is(5, &k(&p.base_mint), "base mint")?;
    for i in [3, 4, 7, 8] {
        a.mutable(i)?;
    }
    st.operator(a, 9, 10, 0)?;
    st.tok_program(a, 11)?;
    st.tok_program(a, 12)?;
    st.mint(&a.key(5))?;
    st.mint(&a.key(6))?;
    st.vault(&a.key(3), &a.key(5), &a.key(11))?;
    st.vault(&a.key(4), &a.key(6), &a.key(12))?;
    a.ev(13)?;
    let nb = take_protocol_base(&mut p, mb);
    if nb > 0 {
        check_ata(st, &a.key(7), &TREASURY, &a.key(5), &a.key(11))?;
        st.transfer(&a.key(11), &a.key(3), &a.key(5), &a.key(7), &POOL_AUTHORITY, nb)?;
    }
    let nq = take_protocol_quote(&c, &mut p, mq);
    if nq > 0 {
        check_ata(st, &a.key(8), &TREASURY, &a.key(6), &a.key(12))?;
        st.transfer(&a.key(12), &a.key(4), &a.key(6), &a.key(8), &POOL_AUTHORITY, nq)?;
    }
    st.put_pool(&a.key(2), &p);
    st.c(format!("claim_protocol:{}{}", (nb > 0) as u8, (nq > 0) as u8));
    st.emit("EvtClaimProtocolFee", (a.key(2).to_bytes(), nb, nq));
    Ok(())
}

fn zap(st: &mut St, a: &A) -> PR {
    a.n(10)?;
    let max: u64 = a.arg()?;
    a.is(0, &POOL_AUTHORITY, "pool authority")?;
    let (c, mut p) = st.config_pool(a, 1, 2)?;
    a.mutable(3)?;
    a.mutable(5)?;
    st.tok(&a.key(3))?;
    st.mint(&a.key(4))?;
    st.operator(a, 6, 7, 1)?;
    st.tok_program(a, 8)?;
    a.is(9, &SYSVAR_IX, "instructions sysvar")?;
    let mint = a.key(4);
    let is_base = mint.to_bytes() == p.base_mint;
    ck!(is_base || mint == c.quote(), ["C28", "C22"], "mint of neither side");
    a.is(3, &k(if is_base { &p.base_vault } else { &p.quote_vault }), "vault")?;
    ck!(st.get(&mint).owner == a.key(8), ["C22"], "token program of the mint");
    ck!(mint != WSOL && mint != USDC, ["C28"], "restricted mint");
    let (n, paired) = if is_base {
        (take_protocol_base(&mut p, max), ata(&TREASURY, &c.quote(), &c.quote_token_program()))
    } else {
        let prog = if p.pool_type == 0 { TOKEN } else { TOKEN22 };
        (take_protocol_quote(&c, &mut p, max), ata(&TREASURY, &k(&p.base_mint), &prog))
    };
    ck!(n > 0, ["C28"], "nothing to zap");
    check_ata(st, &a.key(5), &a.key(7), &mint, &a.key(8))?;
    ck!(protocol_zap::utils::ANSWER.with(|x| x.borrow().is_ok()), ["C28"], "zap validation refused");
    crate::ext::expect_zap(n, a.key(5), paired);
    st.transfer(&a.key(8), &a.key(3), &mint, &a.key(5), &POOL_AUTHORITY, n)?;
    st.put_pool(&a.key(2), &p);
    st.c(format!("zap:{}", if is_base { "base" } else { "quote" }));
    Ok(())
}

fn from_pool(st: &mut St, pool: &Pubkey, to: &Pubkey, n: u64) -> PR {
    ck!(st.get(pool).lamports >= n, ["C20"], "pool lamports");
    st.get_mut(pool).lamports -= n;
    st.get_mut(to).lamports += n;
    ck!(st.get(pool).lamports >= st.rent.minimum_balance(8 + 416), ["C20"], "pool would lose its rent");
    Ok(())
}

fn claim_protocol_creation(st: &mut St, a: &A) -> PR {
    a.n(7)?;
    let (c, mut p) = st.config_pool(a, 0, 1)?;
    st.operator(a, 2, 3, 0)?;
    a.is(4, &TREASURY, "treasury")?;
    a.mutable(4)?;
    a.ev(5)?;
    let mut fee = 0;
    if p.creation_fee_bits & 1 == 0 {
        fee = (c.pool_creation_fee as u128 * 10 / 100) as u64;
        p.creation_fee_bits |= 1;
    }
    if p.legacy_creation_fee_bits & 1 == 1 && p.legacy_creation_fee_bits & 2 == 0 {
        fee += 10_000_000;
        p.legacy_creation_fee_bits |= 2;
    }
    st.put_pool(&a.key(1), &p);
    if fee > 0 {
        from_pool(st, &a.key(1), &a.key(4), fee)?;
        st.c("claim_creation:protocol");
    }
    st.emit("EvtClaimPoolCreationFee", (a.key(1).to_bytes(), a.key(4).to_bytes(), fee));
    Ok(())
}

fn claim_partner_creation(st: &mut St, a: &A) -> PR {
    a.n(6)?;
    let (c, mut p) = st.config_pool(a, 0, 1)?;
    a.sig(2)?;
    a.is(2, &c.partner(), "partner").map_err(|_| Stop::Fail(vec!["C21"], "not the partner".into()))?;
    a.mutable(3)?;
    a.ev(4)?;
    let fee = c.pool_creation_fee - (c.pool_creation_fee as u128 * 10 / 100) as u64;
    ck!(fee > 0, ["C20"], "no creation fee");
    ck!(p.creation_fee_bits & 2 == 0, ["C20"], "creation fee claimed already");
    p.creation_fee_bits |= 2;
    st.put_pool(&a.key(1), &p);
    from_pool(st, &a.key(1), &a.key(3), fee)?;
    st.c("claim_creation:partner");
    st.emit(
        "EvtPartnerClaimPoolCreationFee",
        (a.key(1).to_bytes(), a.key(2).to_bytes(), fee, a.key(3).to_bytes()),
    );
    Ok(())
}

// ------------------------------------------------------------------------------------------------------- metadata

fn meta_body(disc: [u8; 8], key: &Pubkey, m: &MetaParams) -> (usize, Vec<u8>) {
    let mut d = disc.to_vec();
    d.extend_from_slice(key.as_ref());
    d.extend_from_slice(&[0u8; 96]);
    for s in [&m.name, &m.website, &m.logo] {
        s.serialize(&mut d).unwrap();
    }
    (d.len(), d)
}

fn partner_metadata(st: &mut St, a: &A) -> PR {
    a.n(6)?;
    let m: MetaParams = a.arg()?;
    a.mutable(0)?;
    a.mutable(1)?;
    a.sig(1)?;
    a.sig(2)?;
    st.system(a, 3)?;
    a.ev(4)?;
    a.is(0, &pda(&[b"partner_metadata", a.key(2).as_ref()], &DBC), "partner metadata address")?;
    let (n, d) = meta_body(acc_disc("PartnerMetadata"), &a.key(2), &m);
    st.init(&a.key(1), &a.key(0), n, &DBC, d)?;
    st.emit("EvtPartnerMetadata", (a.key(0).to_bytes(), a.key(2).to_bytes()));
    Ok(())
}

fn pool_metadata(st: &mut St, a: &A) -> PR {
    a.n(7)?;
    let m: MetaParams = a.arg()?;
    let p = st.pool_at(&a.key(0))?;
    a.mutable(0)?;
    a.mutable(1)?;
    a.sig(2)?;
    ck!(p.creator == a.key(2).to_bytes(), ["C21", "C34"], "not the creator");
    a.mutable(3)?;
    a.sig(3)?;
    st.system(a, 4)?;
    a.ev(5)?;
    a.is(1, &pda(&[b"virtual_pool_metadata", a.key(0).as_ref()], &DBC), "pool metadata address")?;
    let (n, d) = meta_body(acc_disc("VirtualPoolMetadata"), &a.key(0), &m);
    st.init(&a.key(3), &a.key(1), n, &DBC, d)?;
    st.emit("EvtVirtualPoolMetadata", (a.key(1).to_bytes(), a.key(0).to_bytes()));
    Ok(())
}

// --------------------------------------------------------------------------------------------------------- config

/// is this mint acceptable as quote
pub fn quote_info(st: &St, key: &Pubkey) -> PR<QuoteInfo> {
    st.mint(key)?;
    let acc = st.get(key);
    let is_2022 = acc.owner == TOKEN22;
    let mut ok = *key != NATIVE22 || !is_2022;
    if is_2022 && acc.data.len() > 166 {
        let mut o = 166;
        while o + 4 <= acc.data.len() {
            let t = u16::from_le_bytes(acc.data[o..o + 2].try_into().unwrap());
            let n = u16::from_le_bytes(acc.data[o + 2..o + 4].try_into().unwrap()) as usize;
            if t == 0 {
                break;
            }
            if t != 18 && t != 19 {
                ok = false;
            }
            o += 4 + n;
        }
    }
    Ok(QuoteInfo { key: key.to_bytes(), supported: ok, is_2022 })
}

fn create_config(st: &mut St, a: &A) -> PR {
    a.n(8)?;
    let p: ConfigP = a.arg()?;
    a.mutable(0)?;
    a.sig(0)?;
    a.mutable(4)?;
    a.sig(4)?;
    st.system(a, 5)?;
    a.ev(6)?;
    let q = quote_info(st, &a.key(3))?;
    let c = match derive_config(&p, &q, a.key(1).to_bytes(), a.key(2).to_bytes()) {
        Ok(c) => c,
        Err(e) => {
            let mut t = vec!["C12"];
            let also: &[&str] = match e {
                "locked liquidity" => &["C27", "C13"],
                "vesting" | "vesting total" => &["C26", "C27", "C13"],
                x if x.contains("vesting") => &["C27", "C13", "C25"],
                "start price" | "curve length" | "curve order" | "curve end" | "migration price" | "zero amounts" | "threshold"
                | "dead liquidity" => &["C13", "C01"],
                "compounding price deviates" => &["C13", "C25"],
                "liquidity percentages" => &["C25", "C23", "C13"],
                "token supply" => &["C13", "C15", "C14", "C19"],
                "leftover receiver" => &["C19", "C13"],
                "creation fee" => &["C20"],
                "creator fee percentage" => &["C04", "C13"],
                "migration fee percentage" | "creator migration fee percentage" => &["C18", "C13"],
                "decimals" | "token authority" | "token type" => &["C14"],
                x if x.starts_with("migrated") || x.starts_with("market cap") || x == "compounding bps" => &["C25", "C13"],
                x if x.starts_with("damm v1") || x == "migration option" || x == "migration fee option" => &["C23", "C25", "C13"],
                "bin step" | "filter" | "reduction" | "control" => &["C07"],
                _ => {
                    // whatever the price computations and the fee mode refuse
                    if BaseFee::of_p(&p.base_fee).validate(p.collect_fee_mode, p.activation_type).is_err() {
                        &["C05", "C06", "C13"]
                    } else {
                        &["C13"]
                    }
                }
            };
            t.extend(also);
            st.c(format!("config_reject:{e}"));
            return Err(Stop::Fail(t, format!("configuration: {e}")));
        }
    };
    st.init(&a.key(4), &a.key(0), 1048, &DBC, c.bytes(Config::disc()))?;
    let (cfg, quote, fc, lo) = (a.key(0).to_bytes(), a.key(3).to_bytes(), a.key(1).to_bytes(), a.key(2).to_bytes());
    st.emit(
        "EvtCreateConfig",
        (
            (cfg, quote, fc, lo, &p.base_fee, &p.dynamic),
            (p.collect_fee_mode, p.migration_option, p.activation_type, p.token_decimal, p.token_type),
            (p.partner_perm, p.partner_liq, p.creator_perm, p.creator_liq),
            (c.swap_base_amount, p.migration_quote_threshold, c.migration_base_threshold, p.sqrt_start_price),
            (&p.locked_vesting, p.migration_fee_option, c.fixed_supply, c.pre_supply, c.post_supply),
            &p.curve,
        ),
    );
    st.emit("EvtCreateConfigV2", (cfg, quote, fc, lo, &p));
    for x in [
        format!("fee mode {}", p.base_fee.mode),
        format!("dynamic {}", p.dynamic.is_some()),
        format!("collect {}", p.collect_fee_mode),
        format!("option {} fee {}", p.migration_option, p.migration_fee_option),
        format!("activation {}", p.activation_type),
        format!("token type {}", p.token_type),
        format!("vesting {}", p.locked_vesting.any()),
        format!("fixed {}", c.fixed_supply),
        format!("quote2022 {}", q.is_2022),
        format!("migrated fee {} collect {}", p.migrated_base_fee_mode, p.migrated_collect),
        format!("points {}", p.curve.len()),
        format!("authority {}", c.token_authority),
    ] {
        st.c(format!("config_ok:{x}"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- claims

fn claim_trading(st: &mut St, a: &A, partner: bool) -> PR {
    let (mb, mq): (u64, u64);
    let (pool, ta, tb, bv, qv, bm, qm, who, pb, pq, ev);
    if partner {
        a.n(14)?;
        (pool, ta, tb, bv, qv, bm, qm, who, pb, pq, ev) = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
    } else {
        a.n(13)?;
        (pool, ta, tb, bv, qv, bm, qm, who, pb, pq, ev) = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    }
    (mb, mq) = a.arg()?;
    a.is(0, &POOL_AUTHORITY, "pool authority")?;
    let mut p = st.pool_at(&a.key(pool))?;
    a.mutable(pool)?;
    a.sig(who)?;
    if partner {
        let c = st.config_at(&a.key(1))?;
        ck!(p.config == a.key(1).to_bytes(), ["C22"], "pool of another config");
        ck!(c.fee_claimer == a.key(who).to_bytes(), ["C21"], "not the partner");
        a.is(qm, &c.quote(), "quote mint of the config")?;
    } else {
        ck!(p.creator == a.key(who).to_bytes(), ["C21"], "not the creator");
    }
    a.is(bv, &k(&p.base_vault), "base vault")?;
    a.is(qv, &k(&p.quote_vault), "quote vault")?;
    a.is(bm, &k(&p.base_mint), "base mint")?;
    for i in [ta, tb, bv, qv] {
        a.mutable(i)?;
    }
    st.tok_program(a, pb)?;
    st.tok_program(a, pq)?;
    st.tok(&a.key(ta))?;
    st.tok(&a.key(tb))?;
    st.mint(&a.key(bm))?;
    st.mint(&a.key(qm))?;
    st.vault(&a.key(bv), &a.key(bm), &a.key(pb))?;
    st.vault(&a.key(qv), &a.key(qm), &a.key(pq))?;
    a.ev(ev)?;
    let (nb, nq) = if partner {
        let r = (p.partner_base_fee.min(mb), p.partner_quote_fee.min(mq));
        p.partner_base_fee -= r.0;
        p.partner_quote_fee -= r.1;
        r
    } else {
        let r = (p.creator_base_fee.min(mb), p.creator_quote_fee.min(mq));
        p.creator_base_fee -= r.0;
        p.creator_quote_fee -= r.1;
        r
    };
    st.transfer(&a.key(pb), &a.key(bv), &a.key(bm), &a.key(ta), &POOL_AUTHORITY, nb)?;
    st.transfer(&a.key(pq), &a.key(qv), &a.key(qm), &a.key(tb), &POOL_AUTHORITY, nq)?;
    st.put_pool(&a.key(pool), &p);
    st.c(format!(
        "claim:{}:{}{}:stage{}",
        if partner { "partner" } else { "creator" },
        (nb > 0) as u8,
        (nq > 0) as u8,
        p.migration_progress
    ));
    st.emit(
        if partner { "EvtClaimTradingFee" } else { "EvtClaimCreatorTradingFee" },
        (a.key(pool).to_bytes(), nb, nq),
    );
    Ok(())
}

fn surplus_ix(st: &mut St, a: &A, partner: bool) -> PR {
    a.n(10)?;
    a.is(0, &POOL_AUTHORITY, "pool authority")?;
    let (c, mut p) = st.config_pool(a, 1, 2)?;
    a.is(5, &c.quote(), "quote mint of the config")?;
    a.is(4, &k(&p.quote_vault), "quote vault")?;
    a.mutable(3)?;
    a.mutable(4)?;
    a.sig(6)?;
    if partner {
        ck!(c.fee_claimer == a.key(6).to_bytes(), ["C21"], "not the partner");
    } else {
        ck!(p.creator == a.key(6).to_bytes(), ["C21"], "not the creator");
    }
    st.tok_program(a, 7)?;
    st.tok(&a.key(3))?;
    st.mint(&a.key(5))?;
    st.vault(&a.key(4), &a.key(5), &a.key(7))?;
    a.ev(8)?;
    ck!(complete(&c, &p), ["C11", "C17"], "not complete");
    let (_, np, nc) = surplus(&c, &p);
    let n = if partner {
        ck!(p.is_partner_withdraw_surplus == 0, ["C17"], "surplus withdrawn already");
        p.is_partner_withdraw_surplus = 1;
        np
    } else {
        ck!(p.is_creator_withdraw_surplus == 0, ["C17"], "surplus withdrawn already");
        p.is_creator_withdraw_surplus = 1;
        nc
    };
    st.transfer(&a.key(7), &a.key(4), &a.key(5), &a.key(3), &POOL_AUTHORITY, n)?;
    st.put_pool(&a.key(2), &p);
    st.c(format!("surplus:{}:{}", if partner { "partner" } else { "creator" }, if n > 0 { "some" } else { "zero" }));
    st.emit(
        if partner { "EvtPartnerWithdrawSurplus" } else { "EvtCreatorWithdrawSurplus" },
        (a.key(2).to_bytes(), n),
    );
    Ok(())
}

fn withdraw_migration_fee(st: &mut St, a: &A) -> PR {
    a.n(10)?;
    let flag: u8 = a.arg()?;
    a.is(0, &POOL_AUTHORITY, "pool authority")?;
    let (c, mut p) = st.config_pool(a, 1, 2)?;
    a.is(5, &c.quote(), "quote mint of the config")?;
    a.is(4, &k(&p.quote_vault), "quote vault")?;
    a.mutable(3)?;
    a.mutable(4)?;
    a.sig(6)?;
    st.tok_program(a, 7)?;
    st.tok(&a.key(3))?;
    st.mint(&a.key(5))?;
    st.vault(&a.key(4), &a.key(5), &a.key(7))?;
    a.ev(8)?;
    ck!(complete(&c, &p), ["C11", "C18"], "not complete");
    let (fp, fc) = migration_fee(&c);
    let n = match flag {
        0 => {
            ck!(c.fee_claimer == a.key(6).to_bytes(), ["C21"], "not the partner");
            ck!(p.migration_fee_withdraw_status & 4 == 0, ["C18"], "migration fee withdrawn already");
            p.migration_fee_withdraw_status |= 4;
            fp
        }
        1 => {
            ck!(p.creator == a.key(6).to_bytes(), ["C21"], "not the creator");
            ck!(p.migration_fee_withdraw_status & 2 == 0, ["C18"], "migration fee withdrawn already");
            p.migration_fee_withdraw_status |= 2;
            fc
        }
        _ => return fail(&["C18", "C32"], "flag"),
    };
    st.transfer(&a.key(7), &a.key(4), &a.key(5), &a.key(3), &POOL_AUTHORITY, n)?;
    st.put_pool(&a.key(2), &p);
    st.c(format!("migration_fee:{flag}:{}:stage{}", if n > 0 { "some" } else { "zero" }, p.migration_progress));
    st.emit("EvtWithdrawMigrationFee", (a.key(2).to_bytes(), n, flag));
    Ok(())
}

fn withdraw_leftover(st: &mut St, a: &A) -> PR {
    a.n(10)?;
    a.is(0, &POOL_AUTHORITY, "pool authority")?;
    let (c, mut p) = st.config_pool(a, 1, 2)?;
    a.is(6, &c.leftover(), "leftover receiver")?;
    a.is(4, &k(&p.base_vault), "base vault")?;
    a.is(5, &k(&p.base_mint), "base mint")?;
    a.mutable(3)?;
    a.mutable(4)?;
    st.tok_program(a, 7)?;
    st.mint(&a.key(5))?;
    st.vault(&a.key(4), &a.key(5), &a.key(7))?;
    a.ev(8)?;
    check_ata(st, &a.key(3), &a.key(6), &a.key(5), &a.key(7))?;
    let t = st.tok(&a.key(3))?;
    ck!(t.mint == a.key(5) && st.get(&a.key(3)).owner == a.key(7), ["C22", "C19"], "leftover account");
    ck!(p.migration_progress == 3, ["C11", "C19"], "not migrated");
    ck!(c.fixed_supply == 1, ["C19"], "not a fixed supply");
    ck!(p.is_withdraw_leftover == 0, ["C19"], "leftover withdrawn already");
    let have = st.tok(&a.key(4))?.amount;
    let owed = p.protocol_base_fee as u128
        + p.partner_base_fee as u128
        + p.creator_base_fee as u128
        + p.protocol_migration_base_fee as u128;
    ck!(have as u128 >= owed, ["C02"], "vault below what it owes");
    let n = have - owed as u64;
    p.is_withdraw_leftover = 1;
    st.transfer(&a.key(7), &a.key(4), &a.key(5), &a.key(3), &POOL_AUTHORITY, n)?;
    st.put_pool(&a.key(2), &p);
    st.c(format!("leftover:{}", if n > 0 { "some" } else { "zero" }));
    st.emit("EvtWithdrawLeftover", (a.key(2).to_bytes(), a.key(6).to_bytes(), n));
    Ok(())
}

fn transfer_creator(st: &mut St, a: &A) -> PR {
    a.n(6)?;
    let (c, mut p) = st.config_pool(a, 1, 0)?;
    a.sig(2)?;
    ck!(p.creator == a.key(2).to_bytes(), ["C21", "C29"], "not the creator");
    a.ev(4)?;
    ck!(a.key(3) != a.key(2), ["C29"], "same creator");
    match p.migration_progress {
        0 => {}
        3 => {
            if c.migration_option == 0 {
                a.n(7)?;
                let m = st.get(&a.key(6));
                let Some(m) = crate::ext::read_v1_meta(m) else {
                    return fail(&["C29", "C22"], "not migration metadata");
                };
                ck!(m.virtual_pool == a.key(0), ["C22", "C29"], "metadata of another pool");
                ck!(m.lp_settled(), ["C29"], "LP not settled");
            }
        }
        _ => return fail(&["C29", "C11"], "creator frozen"),
    }
    let old = p.creator;
    p.creator = a.key(3).to_bytes();
    st.put_pool(&a.key(0), &p);
    st.c(format!("transfer_creator:stage{}:opt{}", p.migration_progress, c.migration_option));
    st.emit("EvtUpdatePoolCreator", (a.key(0).to_bytes(), old, p.creator));
    Ok(())
}

// -------------------------------------------------------------------------------------------------- pool creation

fn init_pool(st: &mut St, a: &A, t22: bool) -> PR {
    let (payer, pq, pt, sys, ev) = if t22 { (8, 9, 10, 11, 12) } else { (10, 11, 12, 13, 14) };
    a.n(ev + 2)?;
    let np: NameParams = a.arg()?;
    let (config, creator, bm, qm, pool, bv, qv) = (a.key(0), a.key(2), a.key(3), a.key(4), a.key(5), a.key(6), a.key(7));
    let c = st.config_at(&config)?;
    a.is(1, &POOL_AUTHORITY, "pool authority")?;
    a.sig(2)?;
    a.mutable(3)?;
    a.sig(3)?;
    a.is(4, &c.quote(), "quote mint of the config")?;
    for i in [5, 6, 7, payer] {
        a.mutable(i)?;
    }
    a.sig(payer)?;
    if t22 {
        a.distinct(&[3, 5, 6, 7, payer])?;
    } else {
        a.distinct(&[3, 5, 6, 7, 8, payer])?;
    }
    st.tok_program(a, pq)?;
    st.mint(&qm)?;
    ck!(st.get(&qm).owner == a.key(pq), ["C22"], "quote token program");
    a.is(pt, if t22 { &TOKEN22 } else { &TOKEN }, "token program")?;
    st.system(a, sys)?;
    a.ev(ev)?;
    a.is(5, &pool_pda(&config, &bm, &qm), "pool address")?;
    a.is(6, &vault_pda(&bm, &pool), "base vault address")?;
    a.is(7, &vault_pda(&qm, &pool), "quote vault address")?;
    if !t22 {
        a.mutable(8)?;
        a.is(9, &MPL, "metadata program")?;
        a.is(8, &mpl_metadata(&bm), "metadata address")?;
    }
    let (pv, cv) = (VestP::partner(&c), VestP::creator(&c));
    match locked_bps(c.creator_perm_pct, c.partner_perm_pct, &cv, &pv) {
        Ok(n) if n >= 1000 => {}
        _ => return fail(&["C27"], "locked liquidity below the minimum"),
    }
    match BaseFee::of(&c).min_fee() {
        Ok(n) if n >= MIN_FEE => {}
        _ => return fail(&["C05", "C14"], "minimum base fee"),
    }
    ck!((c.token_type == 1) == t22, ["C14"], "token type");
    let Ok(supply) = initial_supply(&c) else { return fail(&["C14", "C12", "C13", "C32"], "supply") };
    let program = if t22 { TOKEN22 } else { TOKEN };
    let partner = c.partner();
    let mint_auth = match c.token_authority {
        3 => Some(creator),
        4 => Some(partner),
        _ => None,
    };
    let update_auth = match c.token_authority {
        0 | 3 => Some(creator),
        2 | 4 => Some(partner),
        _ => None,
    };
    let payer_k = a.key(payer);
    // base mint
    let mut data = mint_bytes(mint_auth, supply, c.token_decimal);
    if t22 {
        data.resize(165, 0);
        data.push(1);
        let none = Pubkey::default();
        let ua = update_auth.unwrap_or(none);
        data.extend_from_slice(&18u16.to_le_bytes());
        data.extend_from_slice(&64u16.to_le_bytes());
        data.extend_from_slice(ua.as_ref());
        data.extend_from_slice(bm.as_ref());
        let mut md = vec![];
        (ua.to_bytes(), bm.to_bytes(), &np.name, &np.symbol, &np.uri, 0u32).serialize(&mut md).unwrap();
        ck!(md.len() <= u16::MAX as usize && data.len() + 4 + md.len() <= MAX_GROW, ["C32"], "metadata too long");
        data.extend_from_slice(&19u16.to_le_bytes());
        data.extend_from_slice(&(md.len() as u16).to_le_bytes());
        data.extend(md);
        if data.len() == 355 {
            // Token-2022 keeps clear of the length of a multisignature account
            data.extend([0, 0]);
        }
    }
    let n = data.len();
    st.init(&payer_k, &bm, n, &program, data)?;
    st.init(&payer_k, &pool, 8 + 416, &DBC, vec![])?;
    st.init(&payer_k, &bv, 165, &program, tok_bytes(&bm, &POOL_AUTHORITY, supply, None))?;
    let rent = st.rent.minimum_balance(165);
    let native = qm == WSOL;
    st.init(
        &payer_k,
        &qv,
        165,
        &a.key(pq),
        tok_bytes(&qm, &POOL_AUTHORITY, 0, native.then_some(rent)),
    )?;
    if native {
        let extra = st.get(&qv).lamports - rent;
        st.get_mut(&qv).data[64..72].copy_from_slice(&extra.to_le_bytes());
    }
    if !t22 {
        ck!(np.name.len() <= 32 && np.symbol.len() <= 10 && np.uri.len() <= 200, ["C14"], "metadata length");
        let rec = MetaRec {
            update_authority: update_auth.unwrap_or(SYSTEM).to_bytes(),
            mint: bm.to_bytes(),
            name: np.name.clone(),
            symbol: np.symbol.clone(),
            uri: np.uri.clone(),
            seller_fee: 0,
            is_mutable: c.token_authority != 1,
            extras: false,
        };
        st.init(&payer_k, &a.key(8), META_LEN, &MPL, rec.try_to_vec().unwrap())?;
    }
    if c.pool_creation_fee > 0 {
        st.pay(&payer_k, &pool, c.pool_creation_fee)?;
    }
    let mut p: Pool = bytemuck::Zeroable::zeroed();
    p.config = config.to_bytes();
    p.creator = creator.to_bytes();
    p.base_mint = bm.to_bytes();
    p.base_vault = bv.to_bytes();
    p.quote_vault = qv.to_bytes();
    p.base_reserve = supply;
    p.sqrt_price = c.sqrt_start_price;
    p.activation_point = st.now_point(&c);
    p.pool_type = t22 as u8;
    p.protocol_liquidity_migration_fee_bps = MIGRATION_FEE_BPS;
    st.put_pool(&pool, &p);
    st.c(format!(
        "init:{} auth{} fixed{} fee{} vest{}",
        if t22 { "2022" } else { "spl" },
        c.token_authority,
        c.fixed_supply,
        (c.pool_creation_fee > 0) as u8,
        c.has_vesting() as u8
    ));
    st.emit(
        "EvtInitializePool",
        (pool.to_bytes(), config.to_bytes(), creator.to_bytes(), bm.to_bytes(), t22 as u8, p.activation_point),
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- swap

fn is_swap_of(ix: &Instruction, pool: &Pubkey) -> bool {
    matches!(ix_name(&ix.data), Some("swap") | Some("swap2")) && ix.accounts.get(2).map(|m| m.pubkey == *pool).unwrap_or(false)
}

fn swap(st: &mut St, cx: &Ctx, a: &A, v2: bool) -> PR {
    a.n(15)?;
    let (a0, a1, mode): (u64, u64, u8) = if v2 {
        a.arg()?
    } else {
        let (x, y): (u64, u64) = a.arg()?;
        (x, y, 0)
    };
    a.is(0, &POOL_AUTHORITY, "pool authority")?;
    let (c, p) = st.config_pool(a, 1, 2)?;
    let (input, output, bv, qv, bm, qm, payer, pb, pq) =
        (a.key(3), a.key(4), a.key(5), a.key(6), a.key(7), a.key(8), a.key(9), a.key(10), a.key(11));
    for i in 3..=6 {
        a.mutable(i)?;
    }
    a.is(5, &k(&p.base_vault), "base vault")?;
    a.is(6, &k(&p.quote_vault), "quote vault")?;
    st.tok_program(a, 10)?;
    st.tok_program(a, 11)?;
    let tin = st.tok(&input)?;
    st.tok(&output)?;
    st.mint(&bm)?;
    st.mint(&qm)?;
    st.vault(&bv, &bm, &pb)?;
    st.vault(&qv, &qm, &pq)?;
    a.sig(9)?;
    let referral = (a.key(12) != DBC).then(|| a.key(12));
    if let Some(r) = referral {
        a.mutable(12)?;
        st.tok(&r)?;
    }
    a.ev(13)?;
    let rem = a.accs.get(15).map(|m| m.pubkey);

    let mode = match mode {
        0 => Mode::ExactIn,
        1 => Mode::Partial,
        2 => Mode::ExactOut,
        _ => return fail(&["C08", "C32"], "swap mode"),
    };
    let dir = if tin.mint == bm { Dir::Sell } else { Dir::Buy };
    ck!(a0 > 0, ["C08"], "zero amount");
    let now = st.now_point(&c);
    let pool_k = a.key(2);

    if c.base_fee_mode == 2 && BaseFee::of(&c).rl_applies(now, p.activation_point, dir) {
        st.c("rl:window");
        ck!(rem == Some(SYSVAR_IX), ["C06"], "rate limiter: no instructions sysvar");
        if cx.height > 1 {
            ck!(cx.height <= 2, ["C06"], "rate limiter: nested too deep");
            for s in cx.sibs {
                ck!(!(s.program_id == DBC && is_swap_of(s, &pool_k)), ["C06"], "rate limiter: sibling swap");
            }
        }
        for t in &cx.tops[..cx.idx] {
            if t.program_id == DBC {
                ck!(!is_swap_of(t, &pool_k), ["C06"], "rate limiter: earlier swap");
            } else {
                ck!(
                    !t.accounts.iter().any(|m| m.pubkey == pool_k),
                    ["C06"],
                    "rate limiter: earlier instruction names the pool"
                );
            }
        }
    }
    let first = c.first_swap_min_fee == 1
        && p.has_swap == 0
        && referral.is_none()
        && rem == Some(SYSVAR_IX)
        && cx.height == 1
        && cx.tops[..cx.idx].iter().any(|t| {
            t.program_id == DBC
                && matches!(ix_name(&t.data), Some(INIT_SPL) | Some(INIT_22))
                && t.accounts.get(5).map(|m| m.pubkey == pool_k).unwrap_or(false)
        });
    ck!(!complete(&c, &p), ["C10", "C11"], "pool is complete");

    let ts = st.ts();
    let mut vol = Vol::of(&p);
    vol.pre(&c, p.sqrt_price, ts);
    let mut note = SwapNote {
        pool: pool_k,
        config: a.key(1),
        dir,
        mode,
        amounts: (a0, a1),
        first,
        referral: referral.is_some(),
        now,
        ts,
        res: None,
        before: p,
        after: None,
        payer,
        input,
        output,
        referral_acc: referral,
    };
    st.swaps.push(note.clone());
    let slot = st.swaps.len() - 1;
    let r = match quote_swap(&c, &p, vol.acc, now, dir, mode, a0, referral.is_some(), first) {
        Ok(r) => r,
        Err(e) => {
            st.c(format!("swap_err:{e}"));
            return Err(Stop::Fail(swap_tags(e), format!("swap: {e}")));
        }
    };
    note.res = Some(r);
    st.swaps[slot] = note.clone();
    match mode {
        Mode::ExactOut => ck!(r.included_in <= a1, ["C08"], "above the maximum input"),
        _ => ck!(r.out >= a1, ["C08"], "below the minimum output"),
    }
    let mut q = match apply_swap(&c, &p, dir, &r, vol, ts) {
        Ok(q) => q,
        Err(e) => return Err(Stop::Fail(vec!["C01", "C02", "C04"], format!("swap: {e}"))),
    };
    // tokens
    let (pin, pout, min, mout, vin, vout) =
        if dir == Dir::Sell { (pb, pq, bm, qm, bv, qv) } else { (pq, pb, qm, bm, qv, bv) };
    st.transfer(&pin, &input, &min, &vin, &payer, r.included_in)?;
    st.transfer(&pout, &vout, &mout, &output, &POOL_AUTHORITY, r.out)?;
    if let Some(rk) = referral {
        let (pr, mr, vr) = if r.fees_on_base { (pb, bm, bv) } else { (pq, qm, qv) };
        st.transfer(&pr, &vr, &mr, &rk, &POOL_AUTHORITY, r.split.referral)?;
    }
    // events
    let res = EvRes {
        actual_in: r.excluded_in,
        out: r.out,
        next: r.next,
        trading: r.split.trading,
        protocol: r.split.protocol,
        referral: r.split.referral,
    };
    let params = match mode {
        Mode::ExactIn => (a0, a1),
        Mode::Partial => (r.included_in, r.out),
        Mode::ExactOut => (r.included_in, a0),
    };
    let (pool_b, config_b) = (pool_k.to_bytes(), a.key(1).to_bytes());
    st.emit("EvtSwap", (pool_b, config_b, dir as u8, referral.is_some(), params, res, r.included_in, ts));
    let res2 = EvRes2 {
        included: r.included_in,
        excluded: r.excluded_in,
        left: r.left,
        out: r.out,
        next: r.next,
        trading: r.split.trading,
        protocol: r.split.protocol,
        referral: r.split.referral,
    };
    st.emit(
        "EvtSwap2",
        (
            pool_b,
            config_b,
            dir as u8,
            referral.is_some(),
            (a0, a1, mode as u8),
            res2,
            q.quote_reserve,
            c.migration_quote_threshold,
            ts,
        ),
    );
    let done = complete(&c, &q);
    if done {
        let need = c.migration_base_threshold as u128
            + q.partner_base_fee as u128
            + q.protocol_base_fee as u128
            + q.creator_base_fee as u128
            + c.vesting_total();
        ck!(st.tok(&bv)?.amount as u128 >= need, ["C10", "C13"], "base vault short at completion");
        q.finish_curve_timestamp = ts;
        q.migration_progress = if c.has_vesting() { 1 } else { 2 };
        st.emit("EvtCurveComplete", (pool_b, config_b, q.base_reserve, q.quote_reserve));
    }
    st.put_pool(&pool_k, &q);
    note.after = Some(q);
    st.swaps[slot] = note;
    st.c(format!(
        "swap:{}:{:?}:{:?}:bf{} cross{} ref{} onin{} onbase{}{}{}{}{}",
        if v2 { "v2" } else { "v1" },
        dir,
        mode,
        c.base_fee_mode,
        r.crossed.min(3),
        referral.is_some() as u8,
        r.fees_on_input as u8,
        r.fees_on_base as u8,
        if first { " first" } else { "" },
        if done { " done" } else { "" },
        if r.left > 0 { " partial" } else { "" },
        if q.v_acc > 0 { " vol" } else { "" },
    ));
    if r.numerator == MAX_FEE {
        st.c("swap:maxfee");
    }
    if p.v_acc > 0 && c.dyn_init == 1 {
        st.c(if vol.reference == 0 {
            "vol:reset"
        } else if vol.reference == p.v_ref {
            "vol:kept"
        } else {
            "vol:decayed"
        });
        if q.v_acc == c.dyn_max_vol as u128 {
            st.c("vol:capped");
        }
    }
    Ok(())
}
