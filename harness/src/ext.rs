//! Stand-ins for the programs the migration calls into (locker, DAMM v1, DAMM v2) and the prediction of the
//! instructions that call them. A stand-in follows the public interface of the program it stands for: it moves the
//! tokens, creates the accounts, applies that program's documented argument checks, and writes down every account
//! and argument it was handed. Stand-in and prediction share the effect of a call; the prediction derives the
//! arguments on its own.
#![allow(dead_code)]

use crate::abi::*;
use crate::model::*;
use crate::predict::*;
use crate::svm::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program as sp;
use borsh::{BorshDeserialize, BorshSerialize};
use num_traits::{ToPrimitive, Zero};
use sp::entrypoint::ProgramResult;
use sp::program_error::ProgramError as E;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub fn register(t: &mut HashMap<Pubkey, Program>) {
    t.insert(LOCKER, Program::StandIn(locker));
    t.insert(DAMM1, Program::StandIn(damm1));
    t.insert(DAMM2, Program::StandIn(damm2));
    t.insert(VAULT, Program::StandIn(|_| Err(E::InvalidInstructionData)));
}

/// misbehaviour a stand-in is told to show
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum FaultKind {
    #[default]
    None,
    /// takes lamports from the pool authority
    Drain(u64),
    /// gives lamports to the pool authority
    Gift(u64),
    /// reassigns the pool authority to itself
    Assign,
    /// allocates data in the pool authority
    Alloc,
    /// takes this many tokens less than it should, of base and quote
    Less(u64, u64),
    /// takes this many tokens more
    More(u64, u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Fault {
    pub op: &'static str,
    pub kind: FaultKind,
}
thread_local! {
    pub static FAULT: Cell<Fault> = const { Cell::new(Fault { op: "", kind: FaultKind::None }) };
    pub static ZAPS: RefCell<Vec<ZapWant>> = const { RefCell::new(vec![]) };
}
#[derive(Clone, Debug, PartialEq)]
pub struct ZapWant {
    pub amount: u64,
    pub receiver: Pubkey,
    pub paired: Pubkey,
}
pub fn expect_zap(amount: u64, receiver: Pubkey, paired: Pubkey) {
    ZAPS.with(|z| z.borrow_mut().push(ZapWant { amount, receiver, paired }));
}

impl Mem for Inv {
    fn load(&self, k: &Pubkey) -> Acc {
        self.get(k)
    }
    fn store(&mut self, k: &Pubkey, a: Acc) {
        self.put(k, a)
    }
    fn rent_of(&self, len: usize) -> u64 {
        self.rent_min(len)
    }
}

type Ef<T = ()> = Result<T, &'static str>;
fn need(c: bool, e: &'static str) -> Ef {
    if c {
        Ok(())
    } else {
        Err(e)
    }
}

// ------------------------------------------------------------------------------------------------------- helpers

fn create(m: &mut dyn Mem, payer: &Pubkey, new: &Pubkey, owner: &Pubkey, mut data: Vec<u8>, space: usize) -> Ef {
    need(payer != new, "payer is the new account")?;
    let mut n = m.load(new);
    need(n.owner == SYSTEM && n.data.is_empty(), "account exists")?;
    data.resize(space, 0);
    let min = m.rent_of(space);
    if n.lamports < min {
        let mut p = m.load(payer);
        if std::env::var("DBC_TRACE").is_ok() && !(p.owner == SYSTEM && p.data.is_empty()) { eprintln!("payer {payer} owner {} len {}", p.owner, p.data.len()); }
        need(p.owner == SYSTEM && p.data.is_empty(), "payer is not a system account")?;
        let d = min - n.lamports;
        need(p.lamports >= d, "payer has too few lamports")?;
        p.lamports -= d;
        m.store(payer, p);
        n.lamports = min;
    }
    n.owner = *owner;
    n.data = data;
    m.store(new, n);
    Ok(())
}

fn move_tokens(m: &mut dyn Mem, program: &Pubkey, from: &Pubkey, to: &Pubkey, auth: &Pubkey, n: u64) -> Ef {
    let (mut f, mut t) = (m.load(from), m.load(to));
    need(f.owner == *program && t.owner == *program, "token program")?;
    let (ft, tt) = (tok_of(&f).ok_or("source")?, tok_of(&t).ok_or("destination")?);
    need(ft.mint == tt.mint && ft.owner == *auth && ft.state == 1 && tt.state == 1, "token accounts")?;
    need(ft.amount >= n, "insufficient tokens")?;
    if from == to || n == 0 {
        return Ok(());
    }
    f.data[64..72].copy_from_slice(&(ft.amount - n).to_le_bytes());
    t.data[64..72].copy_from_slice(&(tt.amount.checked_add(n).ok_or("overflow")?).to_le_bytes());
    if ft.native {
        f.lamports -= n;
    }
    if tt.native {
        t.lamports += n;
    }
    m.store(from, f);
    m.store(to, t);
    Ok(())
}

fn fault_lamports(m: &mut dyn Mem, f: &Fault, op: &str, authority: &Pubkey, other: &Pubkey, me: &Pubkey) -> Ef {
    if f.op != op {
        return Ok(());
    }
    let lamports = matches!(f.kind, FaultKind::Drain(_) | FaultKind::Gift(_) | FaultKind::Assign | FaultKind::Alloc);
    // the authority is not writable in these calls: the runtime does not let them
    need(!(lamports && matches!(op, "v2_add" | "v2_perm" | "v2_vest")), "fault: read-only authority")?;
    let mut a = m.load(authority);
    match f.kind {
        FaultKind::Drain(n) => {
            need(a.lamports >= n, "fault: not enough lamports")?;
            a.lamports -= n;
            let mut o = m.load(other);
            o.lamports += n;
            m.store(other, o);
        }
        FaultKind::Gift(n) => {
            let mut o = m.load(other);
            need(o.lamports >= n, "fault: not enough lamports")?;
            o.lamports -= n;
            a.lamports += n;
            m.store(other, o);
        }
        FaultKind::Assign => a.owner = *me,
        FaultKind::Alloc => a.data = vec![0; 8],
        _ => return Ok(()),
    }
    m.store(authority, a);
    Ok(())
}
fn fault_tokens(f: &Fault, op: &str, a: u64, b: u64) -> (u64, u64) {
    if f.op != op {
        return (a, b);
    }
    match f.kind {
        FaultKind::Less(x, y) => (a.saturating_sub(x), b.saturating_sub(y)),
        FaultKind::More(x, y) => (a.saturating_add(x), b.saturating_add(y)),
        _ => (a, b),
    }
}

fn record(op: u8, ks: &[Pubkey], args: &[u8]) -> Vec<u8> {
    let mut d = vec![op];
    for k in ks {
        d.extend_from_slice(k.as_ref());
    }
    d.extend_from_slice(args);
    d
}
fn put_u64(d: &mut [u8], o: usize, v: u64) {
    d[o..o + 8].copy_from_slice(&v.to_le_bytes());
}
fn put_u128(d: &mut [u8], o: usize, v: u128) {
    d[o..o + 16].copy_from_slice(&v.to_le_bytes());
}
pub fn u128_at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}

fn run(i: &mut Inv, n: usize, signers: &[usize], writable: &[usize], f: impl FnOnce(&mut Inv, Vec<Pubkey>) -> Ef) -> ProgramResult {
    if i.metas.len() < n {
        return Err(E::NotEnoughAccountKeys);
    }
    for s in signers {
        if !i.signer(*s) {
            return Err(E::MissingRequiredSignature);
        }
    }
    for w in writable {
        if !i.writable(*w) {
            return Err(E::Custom(rt::READONLY_DATA));
        }
    }
    let ks = i.metas[..n].iter().map(|m| m.pubkey).collect();
    f(i, ks).map_err(|e| {
        if std::env::var_os("DBC_TRACE").is_some() {
            eprintln!("stand-in: {e}");
        }
        E::Custom(0xE000_0000)
    })
}

// -------------------------------------------------------------------------------------------------------- locker

#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct EscrowP {
    pub start: u64,
    pub cliff: u64,
    pub frequency: u64,
    pub cliff_unlock: u64,
    pub per_period: u64,
    pub periods: u64,
    pub update_recipient_mode: u8,
    pub cancel_mode: u8,
}
const ESCROW_LEN: usize = 512;

/// base, escrow, token_mint, escrow_token, sender, sender_token, recipient, token_program, system, ev, program
fn escrow_effect(m: &mut dyn Mem, k: &[Pubkey], p: &EscrowP, f: &Fault) -> Ef {
    need(k[1] == pda(&[b"escrow", k[0].as_ref()], &LOCKER), "escrow address")?;
    need(p.frequency != 0 && p.cliff >= p.start, "escrow parameters")?;
    need(p.update_recipient_mode <= 3 && p.cancel_mode <= 3, "escrow modes")?;
    let total = p.per_period.checked_mul(p.periods).and_then(|x| x.checked_add(p.cliff_unlock)).ok_or("total")?;
    let et = tok_of(&m.load(&k[3])).ok_or("escrow token")?;
    need(et.mint == k[2] && et.owner == k[1], "escrow token account")?;
    let mut d = acc_disc("VestingEscrow").to_vec();
    d.extend(record(1, &k[..11], &p.try_to_vec().unwrap()));
    create(m, &k[4], &k[1], &LOCKER, d, ESCROW_LEN)?;
    let (n, _) = fault_tokens(f, "escrow", total, 0);
    move_tokens(m, &k[7], &k[5], &k[3], &k[4], n)?;
    fault_lamports(m, f, "escrow", &k[4], &k[1], &LOCKER)
}

fn locker(i: &mut Inv) -> ProgramResult {
    if i.data.get(..8) != Some(&[181, 155, 104, 183, 182, 128, 35, 47][..]) {
        return Err(E::InvalidInstructionData);
    }
    let (p, _rem) = <(EscrowP, Option<Vec<(u8, u8)>>)>::try_from_slice(&i.data[8..])?;
    let f = FAULT.with(|f| f.get());
    run(i, 11, &[0, 4], &[0, 1, 3, 4, 5], |m, k| escrow_effect(m, &k, &p, &f))
}

// ------------------------------------------------------------------------------------------------------- DAMM v1

pub const V1_CONFIG_LEN: usize = 8 + 32 + 8 + 32 + 32 + 1 + 8 + 219;
#[derive(Clone, Debug, Default)]
pub struct V1Config {
    pub fee_num: u64,
    pub fee_den: u64,
    pub activation_duration: u64,
    pub vault_config_key: Pubkey,
    pub creator_authority: Pubkey,
    pub partner_fee: u64,
}
impl V1Config {
    pub fn bytes(&self) -> Vec<u8> {
        let mut d = acc_disc("Config").to_vec();
        for x in [self.fee_num, self.fee_den, 0, 100_000, self.activation_duration] {
            d.extend_from_slice(&x.to_le_bytes());
        }
        d.extend_from_slice(self.vault_config_key.as_ref());
        d.extend_from_slice(self.creator_authority.as_ref());
        d.push(0);
        d.extend_from_slice(&self.partner_fee.to_le_bytes());
        d.resize(V1_CONFIG_LEN, 0);
        d
    }
    pub fn read(a: &Acc) -> Option<V1Config> {
        (a.owner == DAMM1 && a.data.len() >= V1_CONFIG_LEN && a.data[..8] == acc_disc("Config")).then(|| V1Config {
            fee_num: u64_at(&a.data, 8),
            fee_den: u64_at(&a.data, 16),
            activation_duration: u64_at(&a.data, 40),
            vault_config_key: key_at(&a.data, 48),
            creator_authority: key_at(&a.data, 80),
            partner_fee: u64_at(&a.data, 113),
        })
    }
}

const V1_POOL_LEN: usize = 1200;
const V1_INIT: [u8; 8] = [48, 149, 220, 130, 61, 11, 9, 178];

/// pool, config, lp_mint, token_a_mint, token_b_mint, a_vault, b_vault, a_token_vault, b_token_vault, a_vault_lp_mint,
/// b_vault_lp_mint, a_vault_lp, b_vault_lp, payer_token_a, payer_token_b, payer_pool_lp, protocol_token_a_fee,
/// protocol_token_b_fee, payer, rent, mint_metadata, metadata_program, vault_program, token_program,
/// associated_token_program, system_program
fn v1_create_effect(m: &mut dyn Mem, k: &[Pubkey], a: u64, b_: u64, point: Option<u64>, f: &Fault) -> Ef {
    need(a > 0 && b_ > 0, "zero deposit")?;
    let cfg = V1Config::read(&m.load(&k[1])).ok_or("config")?;
    need(cfg.creator_authority == k[18] || cfg.creator_authority == Pubkey::default(), "config authority")?;
    need(k[3] != k[4], "same mint")?;
    need(k[23] == TOKEN && k[24] == ATA && k[25] == SYSTEM && k[22] == VAULT && k[21] == MPL && k[19] == SYSVAR_RENT, "programs")?;
    need(k[15] == ata(&k[18], &k[2], &TOKEN), "lp account address")?;
    for (n, v) in [(7, 3), (8, 4)] {
        let t = tok_of(&m.load(&k[n])).ok_or("vault")?;
        need(t.mint == k[v], "vault mint")?;
    }
    let lp = (b(a) * b(b_)).sqrt().to_u64().ok_or("lp")?;
    need(lp > 0, "no lp")?;
    let mut d = acc_disc("Pool").to_vec();
    let args = (a, b_, point, lp).try_to_vec().unwrap();
    d.extend(record(1, &k[..26], &args));
    need([0, 2, 15].iter().all(|i| m.load(&k[*i]).lamports == 0), "pool addresses")?;
    create(m, &k[18], &k[0], &DAMM1, d, V1_POOL_LEN)?;
    create(m, &k[18], &k[2], &TOKEN, mint_bytes(Some(k[5]), lp, 9), 82)?;
    create(m, &k[18], &k[15], &TOKEN, tok_bytes(&k[2], &k[18], lp, None), 165)?;
    let (x, y) = fault_tokens(f, "v1_create", a, b_);
    move_tokens(m, &TOKEN, &k[13], &k[7], &k[18], x)?;
    move_tokens(m, &TOKEN, &k[14], &k[8], &k[18], y)?;
    fault_lamports(m, f, "v1_create", &k[18], &k[0], &DAMM1)
}

pub const ESCROW1_LEN: usize = 8 + 96 + 1 + 8 + 16 + 24;
pub fn v1_escrow_bytes(pool: &Pubkey, owner: &Pubkey, vault: &Pubkey) -> Vec<u8> {
    let mut d = acc_disc("LockEscrow").to_vec();
    for x in [pool, owner, vault] {
        d.extend_from_slice(x.as_ref());
    }
    d.resize(ESCROW1_LEN, 0);
    d
}
/// pool, lp_mint, lock_escrow, owner, source, escrow_vault, token_program, a_vault, b_vault, a_vault_lp, b_vault_lp,
/// a_vault_lp_mint, b_vault_lp_mint
fn v1_lock_effect(m: &mut dyn Mem, k: &[Pubkey], max: u64, f: &Fault) -> Ef {
    let mut e = m.load(&k[2]);
    need(e.owner == DAMM1 && e.data.len() >= ESCROW1_LEN && e.data[..8] == acc_disc("LockEscrow"), "lock escrow")?;
    need(key_at(&e.data, 8) == k[0], "escrow pool")?;
    let p = m.load(&k[0]);
    need(p.owner == DAMM1 && p.data.len() == V1_POOL_LEN && key_at(&p.data, 9 + 64) == k[1], "pool")?;
    for (n, at) in [(7, 5), (8, 6), (9, 11), (10, 12), (11, 9), (12, 10)] {
        need(key_at(&p.data, 9 + 32 * at) == k[n], "pool vaults")?;
    }
    let ev = tok_of(&m.load(&k[5])).ok_or("escrow vault")?;
    need(ev.owner == k[2] && ev.mint == k[1], "escrow vault")?;
    let s = tok_of(&m.load(&k[4])).ok_or("source")?;
    let n = max.min(s.amount);
    need(k[6] == TOKEN, "token program")?;
    let t = u64_at(&e.data, 105);
    put_u64(&mut e.data, 105, t.checked_add(n).ok_or("overflow")?);
    m.store(&k[2], e);
    move_tokens(m, &TOKEN, &k[4], &k[5], &k[3], n)?;
    fault_lamports(m, f, "v1_lock", &k[3], &k[0], &DAMM1)
}

fn damm1(i: &mut Inv) -> ProgramResult {
    let f = FAULT.with(|f| f.get());
    match i.data.get(..8) {
        Some(d) if d == V1_INIT => {
            let (a, b_, p) = <(u64, u64, Option<u64>)>::try_from_slice(&i.data[8..])?;
            let w = [0, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20];
            run(i, 26, &[18], &w, |m, k| v1_create_effect(m, &k, a, b_, p, &f))
        }
        Some([21, 19, 208, 43, 237, 62, 255, 87]) => {
            let n = u64::try_from_slice(&i.data[8..])?;
            run(i, 13, &[3], &[0, 2, 3, 4, 5], |m, k| v1_lock_effect(m, &k, n, &f))
        }
        _ => Err(E::InvalidInstructionData),
    }
}

// ------------------------------------------------------------------------------------------------------- DAMM v2

pub const V2_CONFIG_LEN: usize = 8 + 320;
#[derive(Clone, Debug, Default)]
pub struct V2Config {
    pub vault_config_key: Pubkey,
    pub creator_authority: Pubkey,
    pub cliff: u64,
    pub fee_mode: u8,
    pub number_of_period: u16,
    pub period_frequency: u64,
    pub reduction: u64,
    pub activation_type: u8,
    pub collect_fee_mode: u8,
    pub dynamic: bool,
    pub min: u128,
    pub max: u128,
}
impl V2Config {
    pub fn bytes(&self) -> Vec<u8> {
        let mut d = vec![0u8; V2_CONFIG_LEN];
        d[..8].copy_from_slice(&acc_disc("Config"));
        d[8..40].copy_from_slice(self.vault_config_key.as_ref());
        d[40..72].copy_from_slice(self.creator_authority.as_ref());
        put_u64(&mut d, 72, self.cliff);
        d[80] = self.fee_mode;
        d[86..88].copy_from_slice(&self.number_of_period.to_le_bytes());
        put_u64(&mut d, 88, self.period_frequency);
        put_u64(&mut d, 96, self.reduction);
        d[200] = self.activation_type;
        d[201] = self.collect_fee_mode;
        d[202] = self.dynamic as u8;
        put_u128(&mut d, 216, self.min);
        put_u128(&mut d, 232, self.max);
        d
    }
    pub fn read(a: &Acc) -> Option<V2Config> {
        let d = &a.data;
        (a.owner == DAMM2 && d.len() >= V2_CONFIG_LEN && d[..8] == acc_disc("Config")).then(|| V2Config {
            vault_config_key: key_at(d, 8),
            creator_authority: key_at(d, 40),
            cliff: u64_at(d, 72),
            fee_mode: d[80],
            number_of_period: u16::from_le_bytes(d[86..88].try_into().unwrap()),
            period_frequency: u64_at(d, 88),
            reduction: u64_at(d, 96),
            activation_type: d[200],
            collect_fee_mode: d[201],
            dynamic: d[202] == 1,
            min: u128_at(d, 216),
            max: u128_at(d, 232),
        })
    }
}

#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct V2InitP {
    pub liquidity: u128,
    pub sqrt_price: u128,
    pub activation_point: Option<u64>,
}
#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct V2DynFee {
    pub bin_step: u16,
    pub bin_step_u128: u128,
    pub filter: u16,
    pub decay: u16,
    pub reduction: u16,
    pub max_vol: u32,
    pub control: u32,
}
#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct V2CustomP {
    pub base_fee: [u8; 27],
    pub compounding_bps: u16,
    pub padding: u8,
    pub dynamic: Option<V2DynFee>,
    pub min: u128,
    pub max: u128,
    pub has_alpha_vault: bool,
    pub liquidity: u128,
    pub sqrt_price: u128,
    pub activation_type: u8,
    pub collect_fee_mode: u8,
    pub activation_point: Option<u64>,
}
#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct V2VestP {
    pub cliff_point: Option<u64>,
    pub frequency: u64,
    pub cliff_unlock: u128,
    pub per_period: u128,
    pub n: u16,
}
#[derive(BorshSerialize, BorshDeserialize, Clone, Debug)]
pub struct V2AddP {
    pub liquidity: u128,
    pub max_a: u64,
    pub max_b: u64,
}
#[derive(Clone, Debug)]
pub enum V2Init {
    Fixed(V2InitP),
    Custom(V2CustomP),
}

pub const V2_POOL_LEN: usize = 8 + 1104;
pub const V2P_LIQ: usize = 8 + 352;
pub const V2P_PRICE: usize = 8 + 448;
pub const V2P_COLLECT: usize = 8 + 476;
pub const V2P_A: usize = 8 + 672;
pub const V2P_B: usize = 8 + 680;
pub const V2P_PERM: usize = 8 + 544;
const POS_LEN: usize = 2560;
const POS_LOG: usize = 8 + 64 + 48 + 2;
// unlocked 72, permanent 88, vested 104, log length 120

fn pos_log(d: &mut [u8], r: &[u8]) -> Ef {
    let n = u16::from_le_bytes(d[120..122].try_into().unwrap()) as usize;
    need(POS_LOG + n + r.len() <= POS_LEN, "log full")?;
    d[POS_LOG + n..POS_LOG + n + r.len()].copy_from_slice(r);
    d[120..122].copy_from_slice(&((n + r.len()) as u16).to_le_bytes());
    Ok(())
}

fn v2_amounts(collect: u8, price: u128, l: u128, min: u128, max: u128) -> Ef<(u64, u64)> {
    let (a, q) = if collect == 2 {
        (ceil_div(b(l), b(price)), ceil_div(b(l) * b(price), b(1u8) << 128u32))
    } else {
        (base_delta(price, max, l, true), quote_delta(min, price, l, true))
    };
    Ok((a.to_u64().ok_or("amount")?, q.to_u64().ok_or("amount")?))
}

fn v2_new_position(m: &mut dyn Mem, payer: &Pubkey, owner: &Pubkey, mint: &Pubkey, acc: &Pubkey, pool: &Pubkey, pos: &Pubkey, unlocked: u128, rec: &[u8]) -> Ef {
    create(m, payer, mint, &TOKEN22, mint_bytes(None, 1, 0), 82)?;
    need(m.load(acc).lamports == 0, "position NFT account address")?;
    create(m, payer, acc, &TOKEN22, tok_bytes(mint, owner, 1, None), 165)?;
    let mut d = vec![0u8; POS_LEN];
    d[..8].copy_from_slice(&acc_disc("Position"));
    d[8..40].copy_from_slice(pool.as_ref());
    d[40..72].copy_from_slice(mint.as_ref());
    put_u128(&mut d, 72, unlocked);
    pos_log(&mut d, rec)?;
    // the address is derived by the AMM: nothing of ours can be there
    need(m.load(pos).lamports == 0, "position address")?;
    create(m, payer, pos, &DAMM2, d, POS_LEN)
}

/// creator, nft_mint, nft_account, payer, [pool_creator_authority], config, pool_authority, pool, position, mints,
/// vaults, payer tokens, token programs, token_2022, system, ev, program
fn v2_init_effect(m: &mut dyn Mem, k: &[Pubkey], p: &V2Init, f: &Fault) -> Ef {
    let o = matches!(p, V2Init::Custom(_)) as usize;
    let n = 20 + o;
    let c = V2Config::read(&m.load(&k[4 + o])).ok_or("config")?;
    need(c.dynamic == (o == 1), "config type")?;
    let auth = if o == 1 { k[4] } else { k[3] };
    need(c.creator_authority == auth || (o == 0 && c.creator_authority == Pubkey::default()), "config authority")?;
    need(k[16 + o] == TOKEN22 && k[17 + o] == SYSTEM && k[19 + o] == DAMM2, "programs")?;
    need(k[18 + o] == pda(&[b"__event_authority"], &DAMM2), "event authority")?;
    let (liq, price, collect, args, min, max) = match p {
        V2Init::Fixed(p) => (p.liquidity, p.sqrt_price, c.collect_fee_mode, p.try_to_vec().unwrap(), c.min, c.max),
        V2Init::Custom(p) => {
            need(p.activation_type <= 1 && p.collect_fee_mode <= 2 && p.padding == 0, "custom parameters")?;
            need((p.collect_fee_mode == 2) == (p.compounding_bps > 0), "compounding")?;
            (p.liquidity, p.sqrt_price, p.collect_fee_mode, p.try_to_vec().unwrap(), p.min, p.max)
        }
    };
    need(min >= MIN_SQRT_PRICE && min < max && max <= MAX_SQRT_PRICE, "price range")?;
    need(price >= min && price <= max, "price")?;
    need(liq > 0, "no liquidity")?;
    need(collect != 2 || liq > DEAD, "dead liquidity")?;
    let (mut a, mut q) = v2_amounts(collect, price, liq, min, max)?;
    need(a > 0 || q > 0, "no tokens")?;
    (a, q) = fault_tokens(f, "v2_init", a, q);
    let mut d = vec![0u8; V2_POOL_LEN];
    d[..8].copy_from_slice(&acc_disc("Pool"));
    for (at, i) in [(160, 8), (192, 9), (224, 10), (256, 11), (640, 0)] {
        let i = if i == 0 { 0 } else { i + o };
        d[8 + at..8 + at + 32].copy_from_slice(k[i].as_ref());
    }
    put_u128(&mut d, V2P_LIQ, liq);
    put_u128(&mut d, V2P_PRICE, price);
    put_u128(&mut d, 8 + 416, min);
    put_u128(&mut d, 8 + 432, max);
    d[V2P_COLLECT] = collect;
    put_u64(&mut d, V2P_A, a);
    put_u64(&mut d, V2P_B, q);
    need(m.load(&k[6 + o]).lamports == 0, "pool address")?;
    create(m, &k[3], &k[6 + o], &DAMM2, d, V2_POOL_LEN)?;
    for (v, mint, prog) in [(10, 8, 14), (11, 9, 15)] {
        let mint = k[mint + o];
        let native = (mint == WSOL).then(|| m.rent_of(165));
        create(m, &k[3], &k[v + o], &k[prog + o], tok_bytes(&mint, &k[5 + o], 0, native), 165)?;
        if native.is_some() {
            // whatever was there before counts
            let a = m.load(&k[v + o]);
            let extra = a.lamports - m.rent_of(165);
            let mut a = a;
            put_u64(&mut a.data, 64, extra);
            m.store(&k[v + o], a);
        }
    }
    let un = if collect == 2 { liq - DEAD } else { liq };
    v2_new_position(m, &k[3], &k[0], &k[1], &k[2], &k[6 + o], &k[7 + o], un, &record(1 + o as u8, &k[..n], &args))?;
    move_tokens(m, &k[14 + o], &k[12 + o], &k[10 + o], &k[3], a)?;
    move_tokens(m, &k[15 + o], &k[13 + o], &k[11 + o], &k[3], q)?;
    fault_lamports(m, f, "v2_init", &k[3], &k[6 + o], &DAMM2)
}

fn v2_pool(m: &dyn Mem, k: &Pubkey) -> Ef<Acc> {
    let a = m.load(k);
    need(a.owner == DAMM2 && a.data.len() == V2_POOL_LEN && a.data[..8] == acc_disc("Pool"), "pool")?;
    Ok(a)
}
fn v2_position(m: &dyn Mem, k: &Pubkey, pool: &Pubkey, nft: &Pubkey, owner: &Pubkey) -> Ef<Acc> {
    let a = m.load(k);
    need(a.owner == DAMM2 && a.data.len() == POS_LEN && a.data[..8] == acc_disc("Position"), "position")?;
    need(key_at(&a.data, 8) == *pool, "position pool")?;
    let t = tok_of(&m.load(nft)).ok_or("nft")?;
    need(t.mint == key_at(&a.data, 40) && t.amount == 1 && t.owner == *owner, "nft owner")?;
    Ok(a)
}

/// owner, nft_mint, nft_account, pool, position, pool_authority, payer, token_program, system, ev, program
fn v2_create_position_effect(m: &mut dyn Mem, k: &[Pubkey], f: &Fault) -> Ef {
    v2_pool(m, &k[3])?;
    need(k[7] == TOKEN22 && k[8] == SYSTEM && k[10] == DAMM2, "programs")?;
    v2_new_position(m, &k[6], &k[0], &k[1], &k[2], &k[3], &k[4], 0, &record(3, &k[..11], &[]))?;
    fault_lamports(m, f, "v2_position", &k[6], &k[3], &DAMM2)
}

/// pool, position, token_a_account, token_b_account, vaults, mints, nft_account, owner, programs, ev, program
fn v2_add_effect(m: &mut dyn Mem, k: &[Pubkey], p: &V2AddP, f: &Fault) -> Ef {
    let mut pool = v2_pool(m, &k[0])?;
    let mut pos = v2_position(m, &k[1], &k[0], &k[8], &k[9])?;
    for (at, i) in [(160, 6), (192, 7), (224, 4), (256, 5)] {
        need(key_at(&pool.data, 8 + at) == k[i], "pool accounts")?;
    }
    need(p.liquidity > 0, "no liquidity")?;
    let (collect, price, liq) = (pool.data[V2P_COLLECT], u128_at(&pool.data, V2P_PRICE), u128_at(&pool.data, V2P_LIQ));
    let (pa, pq) = (u64_at(&pool.data, V2P_A), u64_at(&pool.data, V2P_B));
    let (mut a, mut q) = if collect == 2 {
        let x = ceil_div(b(pa) * b(p.liquidity), b(liq));
        let y = ceil_div(b(pq) * b(p.liquidity), b(liq));
        (x.to_u64().ok_or("amount")?, y.to_u64().ok_or("amount")?)
    } else {
        v2_amounts(collect, price, p.liquidity, u128_at(&pool.data, 8 + 416), u128_at(&pool.data, 8 + 432))?
    };
    need(a > 0 || q > 0, "no tokens")?;
    need(a <= p.max_a && q <= p.max_b, "thresholds")?;
    (a, q) = fault_tokens(f, "v2_add", a, q);
    put_u128(&mut pool.data, V2P_LIQ, liq.checked_add(p.liquidity).ok_or("overflow")?);
    put_u64(&mut pool.data, V2P_A, pa.checked_add(a).ok_or("overflow")?);
    put_u64(&mut pool.data, V2P_B, pq.checked_add(q).ok_or("overflow")?);
    let un = u128_at(&pos.data, 72);
    put_u128(&mut pos.data, 72, un.checked_add(p.liquidity).ok_or("overflow")?);
    pos_log(&mut pos.data, &record(4, &k[..14], &p.try_to_vec().unwrap()))?;
    m.store(&k[0], pool);
    m.store(&k[1], pos);
    move_tokens(m, &k[10], &k[2], &k[4], &k[9], a)?;
    move_tokens(m, &k[11], &k[3], &k[5], &k[9], q)?;
    fault_lamports(m, f, "v2_add", &k[9], &k[0], &DAMM2)
}

/// pool, position, nft_account, owner, ev, program
fn v2_perm_effect(m: &mut dyn Mem, k: &[Pubkey], n: u128, f: &Fault) -> Ef {
    let mut pool = v2_pool(m, &k[0])?;
    let mut pos = v2_position(m, &k[1], &k[0], &k[2], &k[3])?;
    need(n > 0, "nothing to lock")?;
    let (un, pl) = (u128_at(&pos.data, 72), u128_at(&pos.data, 88));
    put_u128(&mut pos.data, 72, un.checked_sub(n).ok_or("not enough unlocked liquidity")?);
    put_u128(&mut pos.data, 88, pl + n);
    let t = u128_at(&pool.data, V2P_PERM);
    put_u128(&mut pool.data, V2P_PERM, t + n);
    pos_log(&mut pos.data, &record(5, &k[..6], &n.to_le_bytes()))?;
    m.store(&k[0], pool);
    m.store(&k[1], pos);
    fault_lamports(m, f, "v2_perm", &k[3], &k[0], &DAMM2)
}
fn v2_vest_effect(m: &mut dyn Mem, k: &[Pubkey], p: &V2VestP, now: u64, f: &Fault) -> Ef {
    v2_pool(m, &k[0])?;
    let mut pos = v2_position(m, &k[1], &k[0], &k[2], &k[3])?;
    let cliff = p.cliff_point.unwrap_or(now);
    need(cliff >= now, "cliff in the past")?;
    need(cliff > now || p.n > 0, "no schedule")?;
    need(p.n == 0 || (p.frequency > 0 && p.per_period > 0), "period")?;
    let total = b(p.cliff_unlock) + b(p.per_period) * p.n;
    need(!total.is_zero(), "nothing to lock")?;
    let total = total.to_u128().ok_or("overflow")?;
    let dur = b(cliff - now) + b(p.frequency) * p.n;
    need(dur <= b(315_360_000u64), "too long")?;
    let (un, v) = (u128_at(&pos.data, 72), u128_at(&pos.data, 104));
    put_u128(&mut pos.data, 72, un.checked_sub(total).ok_or("not enough unlocked liquidity")?);
    put_u128(&mut pos.data, 104, v + total);
    pos_log(&mut pos.data, &record(6, &k[..6], &p.try_to_vec().unwrap()))?;
    m.store(&k[1], pos);
    fault_lamports(m, f, "v2_vest", &k[3], &k[1], &DAMM2)
}

fn damm2(i: &mut Inv) -> ProgramResult {
    let f = FAULT.with(|f| f.get());
    let now = i.clock().unix_timestamp as u64;
    let d = i.data.clone();
    if d.len() < 8 {
        return Err(E::InvalidInstructionData);
    }
    let body = &d[8..];
    match d[..8] {
        [95, 180, 10, 172, 84, 174, 232, 40] => {
            let p = V2Init::Fixed(V2InitP::try_from_slice(body)?);
            run(i, 20, &[1, 3], &[1, 2, 3, 6, 7, 10, 11, 12, 13], |m, k| v2_init_effect(m, &k, &p, &f))
        }
        [149, 82, 72, 197, 253, 252, 68, 15] => {
            let p = V2Init::Custom(V2CustomP::try_from_slice(body)?);
            run(i, 21, &[1, 3, 4], &[1, 2, 3, 7, 8, 11, 12, 13, 14], |m, k| v2_init_effect(m, &k, &p, &f))
        }
        [48, 215, 197, 153, 96, 203, 180, 133] => {
            run(i, 11, &[1, 6], &[1, 2, 3, 4, 6], |m, k| v2_create_position_effect(m, &k, &f))
        }
        [181, 157, 89, 67, 143, 182, 52, 72] => {
            let p = V2AddP::try_from_slice(body)?;
            run(i, 14, &[9], &[0, 1, 2, 3, 4, 5], |m, k| v2_add_effect(m, &k, &p, &f))
        }
        [165, 176, 125, 6, 231, 171, 186, 213] => {
            let n = u128::try_from_slice(body)?;
            run(i, 6, &[3], &[0, 1], |m, k| v2_perm_effect(m, &k, n, &f))
        }
        [72, 19, 49, 204, 18, 122, 23, 90] => {
            let p = V2VestP::try_from_slice(body)?;
            run(i, 6, &[3], &[1], |m, k| v2_vest_effect(m, &k, &p, now, &f))
        }
        _ => Err(E::InvalidInstructionData),
    }
}

// ---------------------------------------------------------------------------------------------------- predictions

pub const V1_META_LEN: usize = 8 + 272;
#[derive(Clone, Debug)]
pub struct V1Meta {
    pub virtual_pool: Pubkey,
    pub partner: Pubkey,
    pub lp_mint: Pubkey,
    pub partner_locked: u64,
    pub partner_free: u64,
    pub creator_locked: u64,
    pub creator_free: u64,
    /// creator locked, partner locked, creator claimed, partner claimed
    pub status: [u8; 4],
}
impl V1Meta {
    pub fn lp_settled(&self) -> bool {
        (self.creator_locked == 0 || self.status[0] == 1)
            && (self.partner_locked == 0 || self.status[1] == 1)
            && (self.creator_free == 0 || self.status[2] == 1)
            && (self.partner_free == 0 || self.status[3] == 1)
    }
    fn write(&self, d: &mut [u8]) {
        d[104..136].copy_from_slice(self.lp_mint.as_ref());
        put_u64(d, 136, self.partner_locked);
        put_u64(d, 144, self.partner_free);
        put_u64(d, 152, self.creator_locked);
        put_u64(d, 160, self.creator_free);
        d[169..173].copy_from_slice(&self.status);
    }
}
pub fn read_v1_meta(a: &Acc) -> Option<V1Meta> {
    let d = &a.data;
    (a.owner == DBC && d.len() == V1_META_LEN && d[..8] == acc_disc("MeteoraDammMigrationMetadata")).then(|| V1Meta {
        virtual_pool: key_at(d, 8),
        partner: key_at(d, 72),
        lp_mint: key_at(d, 104),
        partner_locked: u64_at(d, 136),
        partner_free: u64_at(d, 144),
        creator_locked: u64_at(d, 152),
        creator_free: u64_at(d, 160),
        status: d[169..173].try_into().unwrap(),
    })
}

pub fn predict(st: &mut St, cx: &Ctx, name: &str, a: &A) -> PR {
    let _ = cx;
    match name {
        "create_locker" => create_locker(st, a),
        "migration_meteora_damm_create_metadata" => v1_metadata(st, a),
        "migrate_meteora_damm" => v1_migrate(st, a),
        "migrate_meteora_damm_lock_lp_token" => v1_lp(st, a, true),
        "migrate_meteora_damm_claim_lp_token" => v1_lp(st, a, false),
        "migration_damm_v2" => v2_migrate(st, a),
        _ => Err(Stop::May(name.to_string())),
    }
}

/// the pool authority may not lose lamports, change owner or size over a call
struct Guard {
    lamports: u64,
    owner: Pubkey,
    len: usize,
}
impl Guard {
    fn new(st: &St) -> Guard {
        let a = st.get(&POOL_AUTHORITY);
        Guard { lamports: a.lamports, owner: a.owner, len: a.data.len() }
    }
    /// repays what was used
    fn rent(&self, st: &mut St, payer: &Pubkey) -> PR {
        let now = st.get(&POOL_AUTHORITY).lamports;
        if now < self.lamports {
            let used = self.lamports - now;
            if *payer == POOL_AUTHORITY {
                return Err(Stop::May("authority pays itself".into()));
            }
            st.pay(payer, &POOL_AUTHORITY, used)?;
            st.c("flash_rent:repaid");
        }
        Ok(())
    }
    fn check(&self, st: &St) -> PR {
        let a = st.get(&POOL_AUTHORITY);
        ck!(a.lamports >= self.lamports, ["C20"], "the pool authority lost lamports");
        ck!(a.owner == self.owner, ["C20"], "the pool authority changed owner");
        ck!(a.data.len() == self.len, ["C20"], "the pool authority changed size");
        Ok(())
    }
}

fn call(e: Ef, tags: &[Tag]) -> PR {
    e.map_err(|w| Stop::Fail(tags.to_vec(), format!("called program: {w}")))
}

fn create_locker(st: &mut St, a: &A) -> PR {
    a.n(14)?;
    let p = st.pool_at(&a.key(0))?;
    a.mutable(0)?;
    let c = st.config_at(&a.key(1))?;
    ck!(p.config == a.key(1).to_bytes(), ["C22"], "pool of another config");
    a.is(6, &k(&p.creator), "creator")?;
    a.is(3, &k(&p.base_vault), "base vault")?;
    a.is(4, &k(&p.base_mint), "base mint")?;
    a.is(2, &POOL_AUTHORITY, "pool authority")?;
    for i in [2, 3, 4, 5, 7, 8, 9] {
        a.mutable(i)?;
    }
    st.tok_program(a, 10)?;
    st.vault(&a.key(3), &a.key(4), &a.key(10))?;
    a.is(5, &pda(&[b"base_locker", a.key(0).as_ref()], &DBC), "locker base")?;
    a.sig(9)?;
    a.is(11, &LOCKER, "locker program")?;
    a.is(13, &SYSTEM, "system program")?;
    ck!(p.migration_progress == 1, ["C11", "C26"], "not between completion and locking");
    let fin = p.finish_curve_timestamp;
    let ep = EscrowP {
        start: fin,
        cliff: fin.saturating_add(c.lv_cliff_duration),
        frequency: c.lv_frequency,
        cliff_unlock: c.lv_cliff_unlock,
        per_period: c.lv_amount_per_period,
        periods: c.lv_number_of_period,
        update_recipient_mode: 2,
        cancel_mode: 1,
    };
    let keys = [
        a.key(5), a.key(7), a.key(4), a.key(8), POOL_AUTHORITY, a.key(3), a.key(6), a.key(10), SYSTEM, a.key(12), LOCKER,
    ];
    let g = Guard::new(st);
    let f = st.fault;
    let e = escrow_effect(st, &keys, &ep, &f);
    call(e, &["C26", "C13"])?;
    g.rent(st, &a.key(9))?;
    g.check(st)?;
    let mut p = p;
    p.migration_progress = 2;
    st.put_pool(&a.key(0), &p);
    st.c(format!("locker:cliff{} n{}", (ep.cliff_unlock > 0) as u8, (ep.periods > 0) as u8));
    Ok(())
}

fn v1_metadata(st: &mut St, a: &A) -> PR {
    a.n(7)?;
    let p = st.pool_at(&a.key(0))?;
    let c = st.config_at(&a.key(1))?;
    ck!(p.config == a.key(1).to_bytes(), ["C22"], "pool of another config");
    a.mutable(2)?;
    a.mutable(3)?;
    a.sig(3)?;
    a.is(4, &SYSTEM, "system program")?;
    a.ev(5)?;
    a.is(2, &pda(&[b"meteora", a.key(0).as_ref()], &DBC), "metadata address")?;
    ck!(c.migration_option == 0, ["C11", "C23"], "not a DAMM v1 configuration");
    let mut d = acc_disc("MeteoraDammMigrationMetadata").to_vec();
    d.extend_from_slice(a.key(0).as_ref());
    d.extend_from_slice(&[0; 32]);
    d.extend_from_slice(&c.fee_claimer);
    st.init(&a.key(3), &a.key(2), V1_META_LEN, &DBC, d)?;
    st.c(format!("v1_metadata:stage{}", p.migration_progress));
    st.emit("EvtCreateMeteoraMigrationMetadata", a.key(0).to_bytes());
    Ok(())
}

const TIERS: [u64; 6] = [25, 30, 100, 200, 400, 600];

fn fees_bps(x: u64, bps: u16) -> u64 {
    (x as u128 * bps as u128 / 10_000) as u64
}

fn burn_rest(st: &mut St, c: &Config, p: &Pool, program: &Pubkey, mint: &Pubkey, vault: &Pubkey) -> PR {
    let keep = p.protocol_base_fee as u128
        + p.partner_base_fee as u128
        + p.creator_base_fee as u128
        + p.protocol_migration_base_fee as u128;
    let have = st.tok(vault)?.amount;
    ck!(have as u128 >= keep, ["C02"], "base vault below what it owes after the migration");
    let left = have - keep as u64;
    let cap = if c.fixed_supply == 1 { c.pre_supply - c.post_supply } else { u64::MAX };
    let n = left.min(cap);
    if n > 0 {
        st.burn(program, mint, vault, &POOL_AUTHORITY, n)?;
    }
    st.c(format!("burn:{}{}", if n == 0 { "zero" } else { "some" }, if n == cap { ":capped" } else { "" }));
    Ok(())
}

/// liquidity of one party
#[derive(Clone, Debug)]
struct Share {
    unlocked: B,
    perm: B,
    vested: B,
    perm_pct: u8,
    vest: VestP,
}
impl Share {
    fn total(&self) -> B {
        &self.unlocked + &self.perm + &self.vested
    }
}
fn shares(c: &Config, l: &B) -> (Share, Share) {
    let part = |p: u8| l * p / 100u32;
    let partner = Share {
        unlocked: part(c.partner_liq_pct),
        perm: part(c.partner_perm_pct),
        vested: part(c.pv_pct),
        perm_pct: c.partner_perm_pct,
        vest: VestP::partner(c),
    };
    let (cp, cv) = (part(c.creator_perm_pct), part(c.cv_pct));
    let creator = Share {
        unlocked: l - partner.total() - &cp - &cv,
        perm: cp,
        vested: cv,
        perm_pct: c.creator_perm_pct,
        vest: VestP::creator(c),
    };
    (partner, creator)
}

fn v1_migrate(st: &mut St, a: &A) -> PR {
    a.n(29)?;
    let mut p = st.pool_at(&a.key(0))?;
    a.mutable(0)?;
    a.is(17, &k(&p.base_vault), "base vault")?;
    a.is(18, &k(&p.quote_vault), "quote vault")?;
    a.is(2, &k(&p.config), "config")?;
    let c = st.config_at(&a.key(2))?;
    let Some(mut meta) = read_v1_meta(st.get(&a.key(1))) else { return fail(&["C22"], "migration metadata") };
    ck!(meta.virtual_pool == a.key(0), ["C22"], "metadata of another pool");
    a.is(3, &POOL_AUTHORITY, "pool authority")?;
    for i in [1, 3, 4, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24] {
        a.mutable(i)?;
    }
    let Some(dc) = V1Config::read(st.get(&a.key(5))) else { return fail(&["C22", "C23"], "DAMM v1 config") };
    for i in [17, 18] {
        ck!(st.get(&a.key(i)).owner == TOKEN, ["C22"], "not an SPL token account");
        st.tok(&a.key(i))?;
    }
    a.sig(22)?;
    a.is(26, &DAMM1, "DAMM v1 program")?;
    a.is(28, &TOKEN, "token program")?;
    a.n(31)?;
    a.is(30, &SYSTEM, "system program")?;

    ck!(dc.fee_den > 0, ["C23"], "fee denominator");
    let bps = b(dc.fee_num) * 10_000u32 / b(dc.fee_den);
    if let Some(want) = TIERS.get(c.migration_fee_option as usize) {
        ck!(bps == b(*want), ["C23"], "fee tier");
    }
    ck!(dc.creator_authority == POOL_AUTHORITY, ["C23"], "config creator authority");
    ck!(dc.activation_duration == 0, ["C23"], "activation duration");
    ck!(dc.partner_fee == 0, ["C23"], "partner fee");
    ck!(dc.vault_config_key == Pubkey::default(), ["C23"], "vault config key");
    ck!(p.migration_progress != 1, ["C11", "C23", "C26"], "vesting is not locked");
    ck!(p.migration_progress == 2, ["C11", "C23"], "not ready for migration");
    ck!(complete(&c, &p), ["C11", "C23"], "not complete");
    ck!(c.migration_option == 0, ["C11", "C23"], "other migration option");

    let trading = p.partner_base_fee as u128 + p.protocol_base_fee as u128 + p.creator_base_fee as u128;
    let have = st.tok(&a.key(17))?.amount as u128;
    ck!(have >= trading && have - trading >= c.migration_base_threshold as u128, ["C02"], "base vault short");
    let (base, quote) = (c.migration_base_threshold, migration_quote(&c));
    let bp = p.protocol_liquidity_migration_fee_bps;
    let (fb, fq) = (fees_bps(base, bp), fees_bps(quote, bp));
    p.protocol_migration_base_fee = fb;
    p.protocol_migration_quote_fee = fq;
    let (db, dq) = (base - fb, quote - fq);

    let keys: Vec<Pubkey> = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]
        .iter()
        .map(|i| a.key(*i))
        .chain([POOL_AUTHORITY])
        .chain([23, 24, 25, 27, 28, 29, 30].iter().map(|i| a.key(*i)))
        .collect();
    let g = Guard::new(st);
    let f = st.fault;
    let e = v1_create_effect(st, &keys, db, dq, None, &f);
    call(e, &["C23", "C13"])?;
    g.rent(st, &a.key(22))?;
    g.check(st)?;
    p.is_migrated = 1;
    burn_rest(st, &c, &p, &TOKEN, &a.key(7), &a.key(17))?;
    let lp = st.tok(&a.key(19))?.amount;
    let (ps, cs) = shares(&c, &b(lp));
    meta.lp_mint = a.key(6);
    let u = |x: &B| x.to_u64().unwrap_or(u64::MAX);
    meta.partner_locked = u(&ps.perm);
    meta.partner_free = u(&ps.unlocked);
    meta.creator_locked = u(&cs.perm);
    meta.creator_free = u(&cs.unlocked);
    let d = &mut st.get_mut(&a.key(1)).data;
    meta.write(d);
    p.migration_progress = 3;
    st.put_pool(&a.key(0), &p);
    st.c(format!("v1_migrate:tier{} fee{}", c.migration_fee_option, (c.migration_fee_pct > 0) as u8));
    Ok(())
}

fn v1_lp(st: &mut St, a: &A, lock: bool) -> PR {
    // (pool_authority, lp_mint, source, owner)
    let (lp_mint, source, owner) = if lock { (4, 7, 6) } else { (3, 4, 6) };
    a.n(if lock { 17 } else { 9 })?;
    let p = st.pool_at(&a.key(0))?;
    let Some(mut meta) = read_v1_meta(st.get(&a.key(1))) else { return fail(&["C22"], "migration metadata") };
    a.mutable(1)?;
    a.mutable(2)?;
    a.is(lp_mint, &meta.lp_mint, "lp mint")?;
    ck!(meta.virtual_pool == a.key(0), ["C22"], "metadata of another pool");
    a.is(2, &POOL_AUTHORITY, "pool authority")?;
    a.mutable(source)?;
    let own_ata = |st: &St, i: usize, o: &Pubkey| -> PR {
        let t = st.tok(&a.key(i))?;
        ck!(st.get(&a.key(i)).owner == TOKEN, ["C22"], "not an SPL token account");
        ck!(t.mint == meta.lp_mint && t.owner == *o, ["C22", "C24"], "not {o}'s account of the LP mint");
        ck!(a.key(i) == ata(o, &meta.lp_mint, &TOKEN), ["C22", "C24"], "not the associated account");
        Ok(())
    };
    if lock {
        a.mutable(3)?;
        a.mutable(5)?;
        a.mutable(8)?;
        let e = st.get(&a.key(5));
        ck!(
            e.owner == DAMM1 && e.data.len() >= ESCROW1_LEN && e.data[..8] == acc_disc("LockEscrow"),
            ["C22", "C24"],
            "not a lock escrow"
        );
        ck!(key_at(&e.data, 8) == a.key(3), ["C22", "C24"], "escrow of another pool");
        ck!(key_at(&e.data, 40) == a.key(6), ["C22", "C24"], "escrow of another owner");
        own_ata(st, source, &POOL_AUTHORITY)?;
        a.is(9, &DAMM1, "DAMM v1 program")?;
        a.is(16, &TOKEN, "token program")?;
    } else {
        own_ata(st, source, &POOL_AUTHORITY)?;
        a.mutable(5)?;
        own_ata(st, 5, &a.key(6))?;
        a.sig(7)?;
        a.is(8, &TOKEN, "token program")?;
    }
    ck!(p.migration_progress == 3, ["C11", "C24"], "not migrated");
    let o = a.key(owner);
    let (is_p, is_c) = (o == meta.partner, o.to_bytes() == p.creator);
    ck!(is_p || is_c, ["C24", "C21"], "neither partner nor creator");
    let (pn, cn, ps, cs) = if lock {
        (meta.partner_locked, meta.creator_locked, 1, 0)
    } else {
        (meta.partner_free, meta.creator_free, 3, 2)
    };
    let mut n: u64 = 0;
    for (mine, amount, s) in [(is_p, pn, ps), (is_c, cn, cs)] {
        if mine {
            ck!(meta.status[s] == 0, ["C24"], "already done");
            meta.status[s] = 1;
            n += amount;
        }
    }
    ck!(n > 0, ["C24"], "nothing to move");
    let d = &mut st.get_mut(&a.key(1)).data;
    meta.write(d);
    if lock {
        let keys: Vec<Pubkey> = [3, 4, 5, 2, 7, 8, 16, 10, 11, 12, 13, 14, 15].iter().map(|i| a.key(*i)).collect();
        let g = Guard::new(st);
        let f = st.fault;
        let e = v1_lock_effect(st, &keys, n, &f);
        call(e, &["C24"])?;
        g.check(st)?;
    } else {
        let e = move_tokens(st, &TOKEN, &a.key(4), &a.key(5), &POOL_AUTHORITY, n);
        call(e, &["C24"])?;
    }
    st.c(format!("v1_{}:{}{}", if lock { "lock" } else { "claim" }, is_p as u8, is_c as u8));
    Ok(())
}

// ---- DAMM v2

fn v2_concentrated_liquidity(base: &B, quote: &B, price: u128) -> PR<B> {
    ck!(price < MAX_SQRT_PRICE && price > MIN_SQRT_PRICE, ["C25", "C13"], "price at the end of the range");
    let lb = base * b(price) * b(MAX_SQRT_PRICE) / b(MAX_SQRT_PRICE - price);
    let lq = (quote << 128u32) / b(price - MIN_SQRT_PRICE);
    Ok(lb.min(lq))
}

fn v2_fee_params(c: &Config) -> PR<([u8; 27], Option<V2DynFee>)> {
    let cliff = (c.migrated_pool_fee_bps as u128 * DENOM as u128 / 10_000) as u64;
    let mode = c.migrated_base_fee_mode;
    let mb = &c.migrated_base_fee_bytes;
    let mut d = vec![];
    let min;
    match mode {
        0 | 1 => {
            (cliff, 0u16, 0u64, 0u64, mode).serialize(&mut d).unwrap();
            min = cliff;
        }
        3 | 4 => {
            let n = u16::from_le_bytes(mb[0..2].try_into().unwrap());
            let step = u16::from_le_bytes(mb[2..4].try_into().unwrap());
            let exp = u32::from_le_bytes(mb[4..8].try_into().unwrap());
            let red = u64_at(mb, 8);
            (cliff, n, step as u32, exp, red, mode).serialize(&mut d).unwrap();
            let f = BaseFee { mode: if mode == 3 { 0 } else { 1 }, cliff, first: n, second: 1, third: red };
            match f.at_period(n as u64) {
                Ok(x) => min = x,
                Err(e) => return fail(&["C25", "C13"], e),
            }
        }
        _ => return fail(&["C25"], "base fee mode"),
    }
    let dynamic = (c.migrated_dynamic_fee == 1)
        .then(|| {
            let n = b(min) * 20u32 / 100u32 * b(100_000_000_000u64);
            let v = n.to_u128()?.checked_sub(99_999_999_999)? / 209_091_600_000_000;
            Some(V2DynFee {
                bin_step: 1,
                bin_step_u128: 1844674407370955,
                filter: 10,
                decay: 120,
                reduction: 5000,
                max_vol: 14_460_000,
                control: u32::try_from(v).ok()?,
            })
        })
        .flatten();
    Ok((d.try_into().map_err(|_| Stop::May("base fee size".into()))?, dynamic))
}

fn v2_lock(st: &mut St, a: &A, s: &Share, pos: &Pubkey, nft: &Pubkey) -> PR {
    let now = st.ts();
    let keys = [a.key(4), *pos, *nft, POOL_AUTHORITY, a.key(23), DAMM2];
    let g = Guard::new(st);
    let f = st.fault;
    if !s.perm.is_zero() {
        let n = s.perm.to_u128().unwrap();
        let e = v2_perm_effect(st, &keys, n, &f);
        call(e, &["C25", "C13"])?;
    }
    if !s.vested.is_zero() {
        let v = match vesting_schedule(&s.vest, &s.vested, now) {
            Ok(v) => v,
            Err(e) => return fail(&["C25", "C27", "C13"], e),
        };
        let p = V2VestP {
            cliff_point: v.cliff_point,
            frequency: v.period_frequency,
            cliff_unlock: v.cliff_unlock.to_u128().unwrap(),
            per_period: v.per_period.to_u128().unwrap(),
            n: v.n,
        };
        let e = v2_vest_effect(st, &keys, &p, now, &f);
        call(e, &["C25", "C27", "C13"])?;
        st.c(format!("v2_vest:n{}", (p.n > 0) as u8));
    }
    g.rent(st, &a.key(19))?;
    g.check(st)
}

fn v2_hand_over(st: &mut St, a: &A, nft: &Pubkey, to: &[u8; 32]) -> PR {
    ck!(a.key(22) == TOKEN22 || a.key(22) == TOKEN, ["C22"], "token program");
    let t = st.tok(nft)?;
    ck!(st.get(nft).owner == a.key(22), ["C22"], "position account program");
    ck!(t.owner == POOL_AUTHORITY && t.state == 1, ["C25"], "position owner");
    let d = &mut st.get_mut(nft).data;
    d[32..64].copy_from_slice(to);
    // delegate and close authority are reset
    d[72..108].fill(0);
    d[121..129].fill(0);
    Ok(())
}

fn v2_migrate(st: &mut St, a: &A) -> PR {
    a.n(25)?;
    let mut p = st.pool_at(&a.key(0))?;
    a.mutable(0)?;
    a.is(17, &k(&p.base_vault), "base vault")?;
    a.is(18, &k(&p.quote_vault), "quote vault")?;
    a.is(2, &k(&p.config), "config")?;
    let c = st.config_at(&a.key(2))?;
    a.is(3, &POOL_AUTHORITY, "pool authority")?;
    for i in [3, 4, 5, 6, 7, 13, 14, 15, 16, 17, 18, 19] {
        a.mutable(i)?;
    }
    a.sig(5)?;
    // optional second position: absent when the program's own id is given
    let opt = |i: usize| (a.key(i) != DBC).then(|| a.key(i));
    if let Some(m) = opt(8) {
        a.sig(8)?;
        a.mutable(8)?;
        ck!(m != a.key(5), ["C25"], "same position mint");
    }
    for i in [9, 10] {
        if opt(i).is_some() {
            a.mutable(i)?;
        }
    }
    a.is(12, &DAMM2, "DAMM v2 program")?;
    st.tok_program(a, 20)?;
    st.tok_program(a, 21)?;
    st.tok_program(a, 22)?;
    st.vault(&a.key(17), &a.key(13), &a.key(20))?;
    st.vault(&a.key(18), &a.key(14), &a.key(21))?;
    a.sig(19)?;
    a.is(24, &SYSTEM, "system program")?;
    v2_migrate_body(st, a, &mut p, &c, opt(8), opt(9), opt(10))
}

fn v2_migrate_body(st: &mut St, a: &A, p: &mut Pool, c: &Config, mint2: Option<Pubkey>, acc2: Option<Pubkey>, pos2: Option<Pubkey>) -> PR {
    ck!(a.accs.len() > 25, ["C25"], "no DAMM v2 config");
    let dc_k = a.key(25);
    let Some(dc) = V2Config::read(st.get(&dc_k)) else { return fail(&["C22", "C25"], "DAMM v2 config") };
    let custom = c.migration_fee_option == 6;
    if !custom {
        let want = TIERS[c.migration_fee_option as usize];
        ck!(dc.fee_mode <= 1, ["C25"], "config fee mode");
        ck!(b(dc.cliff) * 10_000u32 / b(DENOM) == b(want), ["C25"], "config fee tier");
        ck!(dc.period_frequency == 0 && dc.reduction == 0 && dc.number_of_period == 0, ["C25"], "config fee schedule");
        ck!(dc.min == MIN_SQRT_PRICE && dc.max == MAX_SQRT_PRICE, ["C25"], "config price range");
        ck!(dc.vault_config_key == Pubkey::default(), ["C25"], "config vault key");
        ck!(dc.activation_type == 1, ["C25"], "config activation type");
    }
    ck!(dc.creator_authority == POOL_AUTHORITY, ["C25"], "config creator authority");
    ck!(p.migration_progress != 1, ["C11", "C25", "C26"], "vesting is not locked");
    ck!(p.migration_progress == 2, ["C11", "C25"], "not ready for migration");
    ck!(complete(c, p), ["C11", "C25"], "not complete");
    ck!(c.migration_option == 1, ["C11", "C25"], "other migration option");

    let (bv, qv, payer) = (a.key(17), a.key(18), a.key(19));
    let have_b = st.tok(&bv)?.amount;
    let have_q = st.tok(&qv)?.amount;
    let trading = p.partner_base_fee as u128 + p.protocol_base_fee as u128 + p.creator_base_fee as u128;
    ck!(have_b as u128 >= trading, ["C02"], "base vault short");
    let compounding = c.migrated_collect_fee_mode == 2;
    let free = have_b - trading as u64;
    if compounding {
        ck!(free >= c.migration_base_threshold, ["C02"], "base vault short");
    }
    let base = if compounding { c.migration_base_threshold } else { free };
    let quote = migration_quote(c);
    let bp = p.protocol_liquidity_migration_fee_bps;
    let fq = fees_bps(quote, bp);
    let price = c.migration_sqrt_price;
    let fb = if compounding {
        fees_bps(base, bp)
    } else {
        let l = (b(fq) << 128u32) / b(price - MIN_SQRT_PRICE);
        match l.to_u128().and_then(|l| base_delta(price, MAX_SQRT_PRICE, l, false).to_u64()) {
            Some(x) => x,
            None => return fail(&["C25", "C13"], "protocol fee"),
        }
    };
    p.protocol_migration_base_fee = fb;
    p.protocol_migration_quote_fee = fq;
    ck!(base >= fb, ["C25"], "protocol fee above the deposit");
    let (db, dq) = (base - fb, quote - fq);
    let (open, liq, dead) = if compounding {
        match compounding_initial(db, dq) {
            Ok((s, l)) if l >= b(DEAD) => (s, l - b(DEAD), b(DEAD)),
            _ => return fail(&["C25", "C13"], "compounding liquidity"),
        }
    } else {
        (price, v2_concentrated_liquidity(&b(db), &b(dq), price)?, B::zero())
    };
    if liq.to_u128().is_none() {
        return fail(&["C25", "C13"], "liquidity overflow");
    }
    let (ps, cs) = shares(c, &liq);
    let partner_first = ps.total() > cs.total();
    let (first, mut second, owner1, owner2) =
        if partner_first { (ps, cs, c.fee_claimer, p.creator) } else { (cs, ps, p.creator, c.fee_claimer) };

    // the pool
    let l1 = (first.total() + &dead).to_u128().ok_or(Stop::Fail(vec!["C25", "C13"], "liquidity".into()))?;
    let mut keys = vec![POOL_AUTHORITY, a.key(5), a.key(6), POOL_AUTHORITY];
    if custom {
        keys.push(POOL_AUTHORITY);
    }
    keys.push(dc_k);
    for i in [11, 4, 7, 13, 14, 15, 16, 17, 18, 20, 21, 22, 24, 23, 12] {
        keys.push(a.key(i));
    }
    let init = if custom {
        let (base_fee, dynamic) = v2_fee_params(c)?;
        V2Init::Custom(V2CustomP {
            base_fee,
            compounding_bps: c.migrated_compounding_bps,
            padding: 0,
            dynamic,
            min: MIN_SQRT_PRICE,
            max: MAX_SQRT_PRICE,
            has_alpha_vault: false,
            liquidity: l1,
            sqrt_price: open,
            activation_type: 1,
            collect_fee_mode: [1, 0, 2][c.migrated_collect_fee_mode as usize],
            activation_point: None,
        })
    } else {
        V2Init::Fixed(V2InitP { liquidity: l1, sqrt_price: open, activation_point: None })
    };
    let g = Guard::new(st);
    let f = st.fault;
    let e = v2_init_effect(st, &keys, &init, &f);
    call(e, &["C25", "C13"])?;
    g.rent(st, &payer)?;
    g.check(st)?;

    if !(&first.perm + &first.vested).is_zero() {
        v2_lock(st, a, &first, &a.key(7), &a.key(6))?;
    }
    v2_hand_over(st, a, &a.key(6), &owner1)?;

    let used_b = have_b - st.tok(&bv)?.amount;
    let used_q = have_q - st.tok(&qv)?.amount;
    ck!(used_b <= db && used_q <= dq, ["C25"], "deposited more than offered");
    let (rb, rq) = (db - used_b, dq - used_q);
    let pd = st.get(&a.key(4)).data.clone();
    let l2 = if compounding {
        let pl = b(u128_at(&pd, V2P_LIQ));
        let (pa, pq) = (u64_at(&pd, V2P_A), u64_at(&pd, V2P_B));
        ck!(pa > 0 && pq > 0, ["C25", "C13"], "empty pool");
        (b(rb) * &pl / b(pa)).min(b(rq) * &pl / b(pq))
    } else {
        v2_concentrated_liquidity(&b(rb), &b(rq), price)?
    };
    if !l2.is_zero() {
        let l2u = l2.to_u128().unwrap();
        // shares of the second position, by its own proportions
        let (vp, pp) = (second.vest.pct as u32, second.perm_pct as u32);
        if vp + pp == 0 {
            second.unlocked = l2.clone();
            second.perm = B::zero();
            second.vested = B::zero();
        } else {
            let un = l2.clone().min(second.unlocked.clone());
            let rest = &l2 - &un;
            second.unlocked = un;
            second.vested = &rest * vp / (vp + pp);
            second.perm = rest - &second.vested;
        }
        let (Some(mint2), Some(acc2), Some(pos2)) = (mint2, acc2, pos2) else {
            return fail(&["C25", "C32"], "no accounts for the second position");
        };
        let ks = [POOL_AUTHORITY, mint2, acc2, a.key(4), pos2, a.key(11), payer, a.key(22), SYSTEM, a.key(23), DAMM2];
        let e = v2_create_position_effect(st, &ks, &f);
        call(e, &["C25", "C13"])?;
        let g = Guard::new(st);
        let ks = [
            a.key(4), pos2, bv, qv, a.key(15), a.key(16), a.key(13), a.key(14), acc2, POOL_AUTHORITY, a.key(20), a.key(21),
            a.key(23), DAMM2,
        ];
        let e = v2_add_effect(st, &ks, &V2AddP { liquidity: l2u, max_a: u64::MAX, max_b: u64::MAX }, &f);
        call(e, &["C25", "C13"])?;
        g.check(st)?;
        if !(&second.perm + &second.vested).is_zero() {
            v2_lock(st, a, &second, &pos2, &acc2)?;
        }
        v2_hand_over(st, a, &acc2, &owner2)?;
    }
    p.is_migrated = 1;
    burn_rest(st, c, p, &a.key(20), &a.key(13), &bv)?;
    p.migration_progress = 3;
    let p = *p;
    st.put_pool(&a.key(0), &p);
    st.c(format!(
        "v2_migrate:opt{} collect{} second{} first_{}",
        c.migration_fee_option,
        c.migrated_collect_fee_mode,
        (!l2.is_zero()) as u8,
        if partner_first { "partner" } else { "creator" }
    ));
    Ok(())
}
