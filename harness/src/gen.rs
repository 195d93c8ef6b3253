//! Random histories over the observed ledger: builders for every instruction, workloads, hostile variations.
#![allow(dead_code)]

use crate::abi::*;
use crate::ext::*;
use crate::model::*;
use crate::params::*;
use crate::predict::*;
use crate::progs::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use num_traits::{ToPrimitive, Zero};
use anchor_lang::solana_program::instruction::{AccountMeta, Instruction};

pub const SOL: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Focus {
    pub bias: Bias,
    /// chance of a hostile variation, percent
    pub hostile: u64,
    pub steps: u64,
    pub weights: Vec<(Op, u32)>,
    /// jump straight to a late stage before the random steps
    pub late: u64,
    pub faults: u64,
    pub q22: Option<bool>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Buy,
    Sell,
    BuyOut,
    SellOut,
    Partial,
    Complete,
    ClaimPartner,
    ClaimCreator,
    ClaimProtocol,
    Zap,
    CreationFee,
    Surplus,
    MigrationFee,
    Leftover,
    Transfer,
    Locker,
    V1Meta,
    Migrate,
    Lp,
    Metadata,
    Operators,
    NewPool,
    NewConfig,
    Bundle,
    Layout,
    RoundTrip,
    Split,
    Settle,
    Donate,
    Time,
    Limits,
    ConfigFuzz,
    Garbage,
    MintMore,
    Schedule,
    FeeProbe,
    OldTerms,
}
use Op::*;

pub fn base_weights() -> Vec<(Op, u32)> {
    vec![
        (Buy, 18),
        (Sell, 10),
        (BuyOut, 7),
        (SellOut, 5),
        (Partial, 6),
        (Complete, 4),
        (ClaimPartner, 4),
        (ClaimCreator, 4),
        (ClaimProtocol, 5),
        (Zap, 2),
        (CreationFee, 4),
        (Surplus, 4),
        (MigrationFee, 4),
        (Leftover, 3),
        (Transfer, 3),
        (Locker, 3),
        (V1Meta, 2),
        (Migrate, 5),
        (Lp, 4),
        (Metadata, 1),
        (Operators, 1),
        (NewPool, 3),
        (NewConfig, 1),
        (Bundle, 3),
        (Layout, 2),
        (RoundTrip, 1),
        (Split, 1),
        (Settle, 1),
        (Donate, 1),
        (Time, 14),
        (Limits, 4),
        (MintMore, 1),
    ]
}

#[derive(Clone, Copy, Debug)]
pub struct Quote {
    pub mint: Pubkey,
    pub prog: Pubkey,
    pub good: bool,
}

#[derive(Clone, Debug)]
pub struct PoolG {
    pub key: Pubkey,
    pub config: Pubkey,
    pub c: Config,
    pub bm: Pubkey,
    pub qm: Pubkey,
    pub bv: Pubkey,
    pub qv: Pubkey,
    pub bp: Pubkey,
    pub qp: Pubkey,
    pub v1: Option<V1Keys>,
    pub v2: Option<V2Keys>,
}
#[derive(Clone, Debug)]
pub struct V1Keys {
    pub pool: Pubkey,
    pub lp_mint: Pubkey,
    pub a_token_vault: Pubkey,
    pub b_token_vault: Pubkey,
    pub other: [Pubkey; 9],
    pub escrow: Vec<(Pubkey, Pubkey, Pubkey)>,
}
#[derive(Clone, Debug)]
pub struct V2Keys {
    pub pool: Pubkey,
    pub m1: Pubkey,
    pub a1: Pubkey,
    pub p1: Pubkey,
    pub m2: Pubkey,
    pub a2: Pubkey,
    pub p2: Pubkey,
    pub va: Pubkey,
    pub vb: Pubkey,
}

pub struct Gen {
    pub w: World,
    pub r: Rng,
    pub f: Focus,
    pub users: Vec<Pubkey>,
    pub partners: Vec<Pubkey>,
    pub creators: Vec<Pubkey>,
    pub quotes: Vec<Quote>,
    pub cfgs: Vec<Pubkey>,
    pub pools: Vec<PoolG>,
    /// (operator address, permissions)
    pub ops: Vec<(Pubkey, u8)>,
    pub v1cfg: Vec<Pubkey>,
    pub v2cfg: Vec<Pubkey>,
    pub v2custom: Pubkey,
    pub cur: usize,
    /// many small trades on one pool
    pub small: bool,
}

/// appends type-length-value extensions to a mint
pub fn mint22(base: Vec<u8>, exts: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut d = base;
    d.resize(165, 0);
    d.push(1);
    for (t, v) in exts {
        d.extend_from_slice(&t.to_le_bytes());
        d.extend_from_slice(&(v.len() as u16).to_le_bytes());
        d.extend_from_slice(v);
    }
    d
}

impl Gen {
    pub fn new(seed: u64, f: Focus) -> Gen {
        let mut r = Rng::new(seed);
        let mut w = World::new();
        let sys = |l: u64| Acc { lamports: l, data: vec![], owner: SYSTEM, executable: false };
        let mut keys = |n: usize, w: &mut World, r: &mut Rng| -> Vec<Pubkey> {
            (0..n)
                .map(|_| {
                    let k = r.key();
                    w.put(k, sys(100_000 * SOL));
                    k
                })
                .collect()
        };
        let users = keys(4, &mut w, &mut r);
        let partners = keys(2, &mut w, &mut r);
        let creators = keys(3, &mut w, &mut r);
        for a in ADMINS {
            w.put(a, sys(100 * SOL));
        }
        w.put(TREASURY, sys(SOL));
        w.put(POOL_AUTHORITY, sys(match r.below(4) {
            0 => 890_880,
            1 => SOL,
            _ => 10 * SOL,
        }));
        let mut quotes = vec![];
        for (mint, prog, dec) in [(WSOL, TOKEN, 9), (USDC, TOKEN, 6), (r.key(), TOKEN, 6), (r.key(), TOKEN22, 8), (r.key(), TOKEN22, 9)] {
            let mut d = mint_bytes(if mint == WSOL { None } else { Some(users[0]) }, 0, dec);
            if prog == TOKEN22 && dec == 9 {
                let mut mp = users[0].to_bytes().to_vec();
                mp.extend_from_slice(mint.as_ref());
                d = mint22(d, &[(18, mp)]);
            }
            w.put(mint, Acc { lamports: 10_000_000, data: d, owner: prog, executable: false });
            quotes.push(Quote { mint, prog, good: true });
        }
        // ones that are not supported
        {
            let m = r.key();
            let (t, n) = *r.pick(&[(1u16, 108usize), (3, 32), (6, 1), (9, 0), (10, 52), (12, 32), (14, 64), (16, 129)]);
            let d = mint22(mint_bytes(Some(users[0]), 0, 9), &[(t, vec![0; n])]);
            w.put(m, Acc { lamports: 10_000_000, data: d, owner: TOKEN22, executable: false });
            quotes.push(Quote { mint: m, prog: TOKEN22, good: false });
            let d = mint_bytes(None, 0, 9);
            w.put(NATIVE22, Acc { lamports: 10_000_000, data: d, owner: TOKEN22, executable: false });
            quotes.push(Quote { mint: NATIVE22, prog: TOKEN22, good: false });
        }
        let mut v1cfg = vec![];
        let mut v2cfg = vec![];
        for (i, bps) in [25u64, 30, 100, 200, 400, 600].iter().enumerate() {
            let k = r.key();
            let c = V1Config { fee_num: bps * 10, fee_den: 100_000, creator_authority: POOL_AUTHORITY, ..Default::default() };
            w.put(k, Acc { lamports: SOL, data: c.bytes(), owner: DAMM1, executable: false });
            v1cfg.push(k);
            let k = r.key();
            let c = V2Config {
                creator_authority: POOL_AUTHORITY,
                cliff: bps * 100_000,
                activation_type: 1,
                collect_fee_mode: (i % 2) as u8,
                min: MIN_SQRT_PRICE,
                max: MAX_SQRT_PRICE,
                ..Default::default()
            };
            w.put(k, Acc { lamports: SOL, data: c.bytes(), owner: DAMM2, executable: false });
            v2cfg.push(k);
        }
        let v2custom = r.key();
        let c = V2Config { creator_authority: POOL_AUTHORITY, dynamic: true, ..Default::default() };
        w.put(v2custom, Acc { lamports: SOL, data: c.bytes(), owner: DAMM2, executable: false });
        let mut g = Gen {
            w,
            r,
            f,
            users,
            partners,
            creators,
            quotes,
            cfgs: vec![],
            pools: vec![],
            ops: vec![],
            v1cfg,
            v2cfg,
            v2custom,
            small: false,
            cur: 0,
        };
        g.setup();
        g
    }

    fn setup(&mut self) {
        // operators
        for perm in [1u8, 2, 3] {
            let who = self.r.key();
            self.w.put(who, Acc { lamports: 10 * SOL, ..Default::default() });
            let admin = ADMINS[self.r.below(2) as usize];
            let ix = self.i_create_operator(who, perm as u128, admin);
            self.w.exec(&[ix]);
            self.ops.push((who, perm));
        }
        for i in 0..1 + self.r.below(2) {
            let _ = i;
            self.new_config();
        }
        for _ in 0..1 + self.r.below(2) {
            self.new_pool();
        }
    }

    // ------------------------------------------------------------------------------------------------- helpers

    pub fn prog_of(&self, mint: &Pubkey) -> Pubkey {
        self.w.svm.ledger.get(mint).map(|a| a.owner).unwrap_or(TOKEN)
    }
    /// the user's associated token account, made when missing
    pub fn ta(&mut self, user: &Pubkey, mint: &Pubkey) -> Pubkey {
        let prog = self.prog_of(mint);
        let k = ata(user, mint, &prog);
        self.make_token(k, user, mint);
        k
    }
    pub fn make_token(&mut self, k: Pubkey, user: &Pubkey, mint: &Pubkey) {
        if self.w.svm.ledger.contains_key(&k) {
            return;
        }
        let prog = self.prog_of(mint);
        let native = (*mint == WSOL).then_some(2_039_280);
        let data = tok_bytes(mint, user, 0, native);
        self.w.put(k, Acc { lamports: 2_039_280, data, owner: prog, executable: false });
    }
    /// gives an account at least n tokens
    pub fn fund(&mut self, acc: &Pubkey, n: u64) {
        let Some(a) = self.w.svm.ledger.get_mut(acc) else { return };
        let Some(t) = tok_of(a) else { return };
        if t.amount < n {
            let n = if t.native { n.min(1 << 61) } else { n };
            if n <= t.amount {
                return;
            }
            a.data[64..72].copy_from_slice(&n.to_le_bytes());
            if t.native {
                a.lamports += n - t.amount;
            }
        }
    }
    pub fn creator(&self, p: &PoolG) -> Pubkey {
        self.w.pool(&p.key).map(|x| k(&x.creator)).unwrap_or_default()
    }
    pub fn pool(&self, p: &PoolG) -> Pool {
        self.w.pool(&p.key).unwrap_or(bytemuck::Zeroable::zeroed())
    }
    pub fn user(&mut self) -> Pubkey {
        // the parties of a pool trade like anybody else
        match self.r.below(32) {
            0 => *self.r.pick(&self.creators),
            1 => *self.r.pick(&self.partners),
            _ => *self.r.pick(&self.users),
        }
    }
    pub fn pick_pool(&mut self) -> Option<PoolG> {
        if self.pools.is_empty() {
            return None;
        }
        if self.r.chance(25) {
            self.cur = self.r.below(self.pools.len() as u64) as usize;
        }
        self.cur = self.cur.min(self.pools.len() - 1);
        Some(self.pools[self.cur].clone())
    }
    pub fn operator(&mut self, bit: u8) -> Pubkey {
        let v: Vec<Pubkey> = self.ops.iter().filter(|o| o.1 >> bit & 1 == 1).map(|o| o.0).collect();
        if v.is_empty() {
            return self.users[0];
        }
        *self.r.pick(&v)
    }

    // ---------------------------------------------------------------------------------------------- instructions

    pub fn i_create_operator(&mut self, who: Pubkey, perm: u128, admin: Pubkey) -> Instruction {
        let payer = self.users[0];
        ix("create_operator_account", perm, vec![w(operator_pda(&who)), r(who), rs(admin), ws(payer), r(SYSTEM)], true)
    }
    pub fn i_create_config(&mut self, key: Pubkey, p: &ConfigP, quote: Pubkey, partner: Pubkey, leftover: Pubkey) -> Instruction {
        let payer = self.users[0];
        ix("create_config", p, vec![ws(key), r(partner), r(leftover), r(quote), ws(payer), r(SYSTEM)], true)
    }
    pub fn i_init(&mut self, cfg: Pubkey, c: &Config, bm: Pubkey, creator: Pubkey, np: &NameParams) -> Instruction {
        let qm = c.quote();
        let pool = pool_pda(&cfg, &bm, &qm);
        let payer = if self.r.chance(30) { creator } else { self.users[1] };
        let mut a = vec![
            r(cfg),
            r(POOL_AUTHORITY),
            rs(creator),
            ws(bm),
            r(qm),
            w(pool),
            w(vault_pda(&bm, &pool)),
            w(vault_pda(&qm, &pool)),
        ];
        let qp = c.quote_token_program();
        if c.token_type == 0 {
            a.extend([w(mpl_metadata(&bm)), r(MPL), ws(payer), r(qp), r(TOKEN), r(SYSTEM)]);
            ix(INIT_SPL, np, a, true)
        } else {
            a.extend([ws(payer), r(qp), r(TOKEN22), r(SYSTEM)]);
            ix(INIT_22, np, a, true)
        }
    }
    /// swap or swap2
    #[allow(clippy::too_many_arguments)]
    pub fn i_swap(
        &mut self,
        p: &PoolG,
        user: Pubkey,
        dir: Dir,
        mode: u8,
        a0: u64,
        a1: u64,
        referral: Option<Pubkey>,
        v1: bool,
        sysvar: bool,
    ) -> Instruction {
        let (b_, q) = (self.ta(&user, &p.bm), self.ta(&user, &p.qm));
        let (i, o) = if dir == Dir::Buy { (q, b_) } else { (b_, q) };
        let mut a = vec![
            r(POOL_AUTHORITY),
            r(p.config),
            w(p.key),
            w(i),
            w(o),
            w(p.bv),
            w(p.qv),
            r(p.bm),
            r(p.qm),
            rs(user),
            r(p.bp),
            r(p.qp),
            referral.map(w).unwrap_or(r(DBC)),
            r(event_authority()),
            r(DBC),
        ];
        if sysvar {
            a.push(r(SYSVAR_IX));
        }
        if v1 && mode == 0 {
            ix("swap", (a0, a1), a, false)
        } else {
            ix("swap2", (a0, a1, mode), a, false)
        }
    }
    pub fn i_claim(&mut self, p: &PoolG, partner: bool, mb: u64, mq: u64) -> Instruction {
        let who = if partner { p.c.partner() } else { self.creator(p) };
        let dest = if self.r.chance(70) { who } else { self.user() };
        let (ta, tb) = (self.ta(&dest, &p.bm), self.ta(&dest, &p.qm));
        let tail = [w(ta), w(tb), w(p.bv), w(p.qv), r(p.bm), r(p.qm), rs(who), r(p.bp), r(p.qp)];
        if partner {
            let mut a = vec![r(POOL_AUTHORITY), r(p.config), w(p.key)];
            a.extend(tail);
            ix("claim_trading_fee", (mb, mq), a, true)
        } else {
            let mut a = vec![r(POOL_AUTHORITY), w(p.key)];
            a.extend(tail);
            ix("claim_creator_trading_fee", (mb, mq), a, true)
        }
    }
    pub fn i_claim_protocol(&mut self, p: &PoolG, mb: u64, mq: u64, op: Pubkey) -> Instruction {
        let (ta, tb) = (self.ta(&TREASURY, &p.bm), self.ta(&TREASURY, &p.qm));
        ix(
            "claim_protocol_fee",
            (mb, mq),
            vec![
                r(POOL_AUTHORITY),
                r(p.config),
                w(p.key),
                w(p.bv),
                w(p.qv),
                r(p.bm),
                r(p.qm),
                w(ta),
                w(tb),
                r(operator_pda(&op)),
                rs(op),
                r(p.bp),
                r(p.qp),
            ],
            true,
        )
    }
    pub fn i_zap(&mut self, p: &PoolG, base: bool, max: u64, op: Pubkey) -> Instruction {
        let (v, m, pr) = if base { (p.bv, p.bm, p.bp) } else { (p.qv, p.qm, p.qp) };
        let to = self.ta(&op, &m);
        ix(
            "zap_protocol_fee",
            max,
            vec![
                r(POOL_AUTHORITY),
                r(p.config),
                w(p.key),
                w(v),
                r(m),
                w(to),
                r(operator_pda(&op)),
                rs(op),
                r(pr),
                r(SYSVAR_IX),
            ],
            false,
        )
    }
    pub fn i_creation_fee(&mut self, p: &PoolG, partner: bool) -> Instruction {
        if partner {
            let to = if self.r.chance(50) { p.c.partner() } else { self.user() };
            ix("claim_partner_pool_creation_fee", (), vec![r(p.config), w(p.key), rs(p.c.partner()), w(to)], true)
        } else {
            let op = self.operator(0);
            ix(
                "claim_protocol_pool_creation_fee",
                (),
                vec![r(p.config), w(p.key), r(operator_pda(&op)), rs(op), w(TREASURY)],
                true,
            )
        }
    }
    pub fn i_surplus(&mut self, p: &PoolG, partner: bool) -> Instruction {
        let who = if partner { p.c.partner() } else { self.creator(p) };
        let to = self.ta(&who, &p.qm);
        ix(
            if partner { "partner_withdraw_surplus" } else { "creator_withdraw_surplus" },
            (),
            vec![r(POOL_AUTHORITY), r(p.config), w(p.key), w(to), w(p.qv), r(p.qm), rs(who), r(p.qp)],
            true,
        )
    }
    pub fn i_migration_fee(&mut self, p: &PoolG, flag: u8) -> Instruction {
        let who = if flag == 0 { p.c.partner() } else { self.creator(p) };
        let to = self.ta(&who, &p.qm);
        ix(
            "withdraw_migration_fee",
            flag,
            vec![r(POOL_AUTHORITY), r(p.config), w(p.key), w(to), w(p.qv), r(p.qm), rs(who), r(p.qp)],
            true,
        )
    }
    pub fn i_leftover(&mut self, p: &PoolG) -> Instruction {
        let who = p.c.leftover();
        let to = self.ta(&who, &p.bm);
        ix(
            "withdraw_leftover",
            (),
            vec![r(POOL_AUTHORITY), r(p.config), w(p.key), w(to), w(p.bv), r(p.bm), r(who), r(p.bp)],
            true,
        )
    }
    pub fn i_transfer(&mut self, p: &PoolG, to: Pubkey) -> Instruction {
        let who = self.creator(p);
        let mut i = ix("transfer_pool_creator", (), vec![w(p.key), r(p.config), rs(who), r(to)], true);
        if p.c.migration_option == 0 && self.r.chance(92) {
            i.accounts.push(r(pda(&[b"meteora", p.key.as_ref()], &DBC)));
        }
        i
    }
    pub fn i_locker(&mut self, p: &PoolG) -> Instruction {
        let base = pda(&[b"base_locker", p.key.as_ref()], &DBC);
        let escrow = pda(&[b"escrow", base.as_ref()], &LOCKER);
        let prog = p.bp;
        let et = ata(&escrow, &p.bm, &prog);
        self.make_token(et, &escrow, &p.bm);
        let payer = self.users[2];
        ix(
            "create_locker",
            (),
            vec![
                w(p.key),
                r(p.config),
                w(POOL_AUTHORITY),
                w(p.bv),
                w(p.bm),
                w(base),
                r(self.creator(p)),
                w(escrow),
                w(et),
                ws(payer),
                r(p.bp),
                r(LOCKER),
                r(pda(&[b"__event_authority"], &LOCKER)),
                r(SYSTEM),
            ],
            false,
        )
    }
    pub fn i_v1_meta(&mut self, p: &PoolG) -> Instruction {
        let payer = self.users[2];
        ix(
            "migration_meteora_damm_create_metadata",
            (),
            vec![r(p.key), r(p.config), w(pda(&[b"meteora", p.key.as_ref()], &DBC)), ws(payer), r(SYSTEM)],
            true,
        )
    }
    pub fn i_v1_migrate(&mut self, n: usize) -> Instruction {
        let p = self.pools[n].clone();
        if p.v1.is_none() {
            let mut rk = || self.r.key();
            let (pool, lp_mint, av, bv) = (rk(), rk(), rk(), rk());
            let other = [rk(), rk(), rk(), rk(), rk(), rk(), rk(), rk(), rk()];
            let owner = VAULT;
            self.make_token(av, &owner, &p.bm);
            self.make_token(bv, &owner, &p.qm);
            self.pools[n].v1 = Some(V1Keys { pool, lp_mint, a_token_vault: av, b_token_vault: bv, other, escrow: vec![] });
        }
        let v = self.pools[n].v1.clone().unwrap();
        let o = v.other;
        let dc = self.v1cfg[(p.c.migration_fee_option as usize).min(5)];
        let payer = self.users[2];
        ix(
            "migrate_meteora_damm",
            (),
            vec![
                w(p.key),
                w(pda(&[b"meteora", p.key.as_ref()], &DBC)),
                r(p.config),
                w(POOL_AUTHORITY),
                w(v.pool),
                r(dc),
                w(v.lp_mint),
                w(p.bm),
                r(p.qm),
                w(o[0]),
                w(o[1]),
                w(v.a_token_vault),
                w(v.b_token_vault),
                w(o[2]),
                w(o[3]),
                w(o[4]),
                w(o[5]),
                w(p.bv),
                w(p.qv),
                w(ata(&POOL_AUTHORITY, &v.lp_mint, &TOKEN)),
                w(o[6]),
                w(o[7]),
                ws(payer),
                r(SYSVAR_RENT),
                w(o[8]),
                r(MPL),
                r(DAMM1),
                r(VAULT),
                r(TOKEN),
                r(ATA),
                r(SYSTEM),
            ],
            false,
        )
    }
    pub fn i_v1_lp(&mut self, n: usize, partner: bool, lock: bool) -> Option<Instruction> {
        let p = self.pools[n].clone();
        let v = p.v1.clone()?;
        let meta = pda(&[b"meteora", p.key.as_ref()], &DBC);
        let who = if partner { p.c.partner() } else { self.creator(&p) };
        let src = ata(&POOL_AUTHORITY, &v.lp_mint, &TOKEN);
        if !self.w.svm.ledger.contains_key(&v.lp_mint) {
            return None;
        }
        if lock {
            let (e, ev) = match v.escrow.iter().find(|x| x.2 == who) {
                Some(x) => (x.0, x.1),
                None => {
                    let (e, ev) = (self.r.key(), self.r.key());
                    self.make_token(ev, &e, &v.lp_mint);
                    self.w.put(e, Acc { lamports: SOL, data: v1_escrow_bytes(&v.pool, &who, &ev), owner: DAMM1, executable: false });
                    self.pools[n].v1.as_mut().unwrap().escrow.push((e, ev, who));
                    (e, ev)
                }
            };
            let o = v.other;
            Some(ix(
                "migrate_meteora_damm_lock_lp_token",
                (),
                vec![
                    r(p.key),
                    w(meta),
                    w(POOL_AUTHORITY),
                    w(v.pool),
                    r(v.lp_mint),
                    w(e),
                    r(who),
                    w(src),
                    w(ev),
                    r(DAMM1),
                    r(o[0]),
                    r(o[1]),
                    r(o[4]),
                    r(o[5]),
                    r(o[2]),
                    r(o[3]),
                    r(TOKEN),
                ],
                false,
            ))
        } else {
            let dst = self.ta(&who, &v.lp_mint);
            let sender = self.user();
            Some(ix(
                "migrate_meteora_damm_claim_lp_token",
                (),
                vec![r(p.key), w(meta), w(POOL_AUTHORITY), r(v.lp_mint), w(src), w(dst), r(who), rs(sender), r(TOKEN)],
                false,
            ))
        }
    }
    pub fn i_v2_migrate(&mut self, n: usize, second: bool) -> Instruction {
        let p = self.pools[n].clone();
        if p.v2.is_none() {
            let mut rk = || self.r.key();
            self.pools[n].v2 = Some(V2Keys {
                pool: rk(),
                m1: rk(),
                a1: rk(),
                p1: rk(),
                m2: rk(),
                a2: rk(),
                p2: rk(),
                va: rk(),
                vb: rk(),
            });
        }
        let v = self.pools[n].v2.clone().unwrap();
        let dc = if p.c.migration_fee_option == 6 { self.v2custom } else { self.v2cfg[(p.c.migration_fee_option as usize).min(5)] };
        let payer = self.users[2];
        let opt = |m: AccountMeta| if second { m } else { r(DBC) };
        ix(
            "migration_damm_v2",
            (),
            vec![
                w(p.key),
                r(pda(&[b"damm_v2", p.key.as_ref()], &DBC)),
                r(p.config),
                w(POOL_AUTHORITY),
                w(v.pool),
                ws(v.m1),
                w(v.a1),
                w(v.p1),
                opt(ws(v.m2)),
                opt(w(v.a2)),
                opt(w(v.p2)),
                r(pda(&[b"pool_authority"], &DAMM2)),
                r(DAMM2),
                w(p.bm),
                w(p.qm),
                w(v.va),
                w(v.vb),
                w(p.bv),
                w(p.qv),
                ws(payer),
                r(p.bp),
                r(p.qp),
                r(TOKEN22),
                r(pda(&[b"__event_authority"], &DAMM2)),
                r(SYSTEM),
                r(dc),
            ],
            false,
        )
    }

    // ----------------------------------------------------------------------------------------------------- actions

    pub fn new_config(&mut self) -> Option<Pubkey> {
        let q22 = self.f.q22;
        let good: Vec<Quote> =
            self.quotes.iter().copied().filter(|q| q.good && q22.map(|x| (q.prog == TOKEN22) == x).unwrap_or(true)).collect();
        let mut q = *self.r.pick(&good);
        if q.prog == TOKEN22 && (self.f.bias.option == Some(0) || (q22.is_none() && self.r.chance(40))) {
            q = self.quotes[self.r.below(3) as usize];
        }
        let info = QuoteInfo { key: q.mint.to_bytes(), supported: true, is_2022: q.prog == TOKEN22 };
        let bias = self.f.bias.clone();
        let p = good_params(&mut self.r, &bias, &info);
        let key = self.r.key();
        let partner = *self.r.pick(&self.partners);
        let leftover = *self.r.pick(&self.partners);
        let ix = self.i_create_config(key, &p, q.mint, partner, leftover);
        let o = self.run(vec![ix]);
        if o.ok {
            self.cfgs.push(key);
            return Some(key);
        }
        None
    }

    /// text of at most `max` bytes
    fn text(&mut self, max: u64) -> String {
        let n = match self.r.below(9) {
            0 => 0,
            1 => max,
            2 => self.r.range(0, max),
            _ => self.r.range(0, max.min(20)),
        } as usize;
        let odd = self.r.chance(30);
        let mut s = String::new();
        while s.len() < n {
            let c = match if odd { self.r.below(8) } else { 9 } {
                0 => ' ',
                1 => 'é',
                2 => '\u{1F600}',
                3 => *self.r.pick(&['\0', '\n', '"', '\\', '\t', '\u{feff}']),
                4 => (b'A' + self.r.below(26) as u8) as char,
                5 => (b'0' + self.r.below(10) as u8) as char,
                _ => (b'a' + self.r.below(26) as u8) as char,
            };
            if s.len() + c.len_utf8() > n {
                s.push('.');
                continue;
            }
            s.push(c);
        }
        s
    }
    pub fn names(&mut self) -> NameParams {
        // the token metadata program takes so much
        let more = if self.r.chance(3) { self.r.range(1, 4) } else { 0 };
        NameParams { name: self.text(32 + more), symbol: self.text(10 + more), uri: self.text(200 + more) }
    }

    pub fn pool_of(&self, cfg: Pubkey, c: &Config, bm: Pubkey) -> PoolG {
        let qm = c.quote();
        let key = pool_pda(&cfg, &bm, &qm);
        PoolG {
            key,
            config: cfg,
            c: *c,
            bm,
            qm,
            bv: vault_pda(&bm, &key),
            qv: vault_pda(&qm, &key),
            bp: c.base_token_program(),
            qp: c.quote_token_program(),
            v1: None,
            v2: None,
        }
    }

    pub fn new_pool(&mut self) -> Option<usize> {
        if self.cfgs.is_empty() {
            self.new_config()?;
        }
        let cfg = *self.r.pick(&self.cfgs);
        self.new_pool_of(cfg)
    }
    pub fn new_pool_of(&mut self, cfg: Pubkey) -> Option<usize> {
        let c = self.w.config(&cfg)?;
        let bm = self.r.key();
        let creator = if self.r.chance(10) { c.partner() } else { *self.r.pick(&self.creators) };
        let np = self.names();
        // someone may have sent lamports ahead
        if self.r.chance(8) {
            let p = self.pool_of(cfg, &c, bm);
            let k = *self.r.pick(&[p.key, p.bv, p.qv, bm]);
            let n = *self.r.pick(&[1u64, 890_880, 5_000_000, 20_000_000]);
            self.w.put(k, Acc { lamports: n, ..Default::default() });
        }
        // now and then by the instruction of the other token program
        let mut kind = c.clone();
        if self.r.chance(6) {
            kind.token_type ^= 1;
            self.w.c("init:other kind");
        }
        let i = self.i_init(cfg, &kind, bm, creator, &np);
        let o = self.run(vec![i]);
        if o.ok && kind.token_type != c.token_type {
            return None;
        }
        if o.ok {
            let p = self.pool_of(cfg, &c, bm);
            self.aged(&p);
            self.pools.push(p);
            self.cur = self.pools.len() - 1;
            return Some(self.cur);
        }
        None
    }

    /// pools of earlier releases of the program are still about: some owe the old creation fee of 0.01 SOL
    /// (output-token fees, Token-2022 base), some owe no protocol fee on their migration
    fn aged(&mut self, p: &PoolG) {
        let old_fee = p.c.collect_fee_mode == 1 && p.c.token_type == 1 && p.c.pool_creation_fee == 0;
        if old_fee && self.r.chance(20) {
            let mut a = self.w.acc(&p.key);
            let mut q = self.pool(p);
            q.legacy_creation_fee_bits = 1;
            q.protocol_liquidity_migration_fee_bps = 0;
            a.data = q.bytes(Pool::disc());
            a.lamports += 10_000_000;
            self.w.put(p.key, a);
            self.w.c("aged:creation fee");
        } else if self.r.chance(3) {
            let mut a = self.w.acc(&p.key);
            let mut q = self.pool(p);
            q.protocol_liquidity_migration_fee_bps = 0;
            a.data = q.bytes(Pool::disc());
            self.w.put(p.key, a);
            self.w.c("aged:migration fee");
        }
    }

    /// pools completed under an earlier release, whose last swap could go past the threshold, have more than dust to share
    fn aged_surplus(&mut self, n: usize) {
        let p = self.pools[n].clone();
        let mut q = self.pool(&p);
        let untouched = q.is_protocol_withdraw_surplus | q.is_partner_withdraw_surplus | q.is_creator_withdraw_surplus == 0;
        if !complete(&p.c, &q) || !untouched || q.migration_progress > 2 {
            return;
        }
        let mut v = self.w.acc(&p.qv);
        let Some(t) = tok_of(&v) else { return };
        let room = (u64::MAX - t.amount.max(q.quote_reserve)) / 4;
        let room = if t.native { room.min(1 << 58) } else { room };
        if room < 2 {
            return;
        }
        let x = match self.r.below(5) {
            0 => self.r.range(1, room.min(1_000)),
            1 => self.r.range(1, room),
            _ => self.r.log(1, room),
        };
        q.quote_reserve += x;
        v.data[64..72].copy_from_slice(&(t.amount + x).to_le_bytes());
        if t.native {
            v.lamports += x;
        }
        self.w.put(p.qv, v);
        let mut a = self.w.acc(&p.key);
        a.data = q.bytes(Pool::disc());
        self.w.put(p.key, a);
        self.w.c(format!("aged:surplus {} digits", x.to_string().len()));
    }

    /// configurations of earlier releases: stored before some of today's limits; pools must not come of them
    pub fn old_terms(&mut self) {
        if self.cfgs.is_empty() {
            return;
        }
        let key = *self.r.pick(&self.cfgs);
        let Some(mut c) = self.w.config(&key) else { return };
        let k = self.r.key();
        match self.r.below(5) {
            0 | 1 => {
                // locked percentages around the minimum
                let n = *self.r.pick(&[0u8, 1, 5, 9, 9, 9, 10, 10, 11]);
                (c.pv_init, c.pv_pct, c.pv_bps, c.pv_n, c.pv_freq, c.pv_cliff) = (0, 0, 0, 0, 0, 0);
                (c.cv_init, c.cv_pct, c.cv_bps, c.cv_n, c.cv_freq, c.cv_cliff) = (0, 0, 0, 0, 0, 0);
                let m = if self.r.chance(50) { self.r.below(n as u64 + 1) as u8 } else { 0 };
                (c.partner_perm_pct, c.creator_perm_pct, c.partner_liq_pct, c.creator_liq_pct) = (m, n - m, 50, 50 - n);
            }
            2 => {
                // a schedule that releases too much on the first day
                if c.migration_option == 1 {
                    let n = self.r.range(8, 30) as u8;
                    (c.pv_init, c.pv_pct, c.pv_bps, c.pv_n, c.pv_freq, c.pv_cliff) = (0, 0, 0, 0, 0, 0);
                    c.cv_init = 1;
                    c.cv_pct = n;
                    c.cv_n = 1 + self.r.below(40) as u16;
                    c.cv_bps = (10_000 / c.cv_n).min(self.r.range(1, 2000) as u16);
                    c.cv_freq = *self.r.pick(&[1u32, 3_600, 7_200, 43_200, 86_399, 86_400, 86_401, 100_000]);
                    c.cv_cliff = *self.r.pick(&[0u32, 1, 3_600, 43_200, 86_399, 86_400, 86_401, 90_000]);
                    (c.partner_perm_pct, c.creator_perm_pct, c.partner_liq_pct, c.creator_liq_pct) = (0, 0, 100 - n, 0);
                }
            }
            3 => {
                // a fee below today's minimum
                (c.base_fee_mode, c.first_factor, c.second_factor, c.third_factor) = (0, 0, 0, 0);
                c.cliff = *self.r.pick(&[0u64, 1, 1_000_000, 2_499_999, 2_500_000, 2_500_001]);
            }
            _ => {
                (c.base_fee_mode, c.cliff) = (self.r.below(2) as u8, self.r.range(2_500_000, 40_000_000));
                (c.first_factor, c.second_factor) = (self.r.range(1, 30) as u16, 10);
                c.third_factor =
                    if c.base_fee_mode == 0 { c.cliff / c.first_factor as u64 } else { self.r.range(1, 2_000) };
                if c.base_fee_mode == 0 {
                    c.third_factor = c.third_factor.saturating_sub(self.r.below(3_000_000 / c.first_factor as u64));
                }
            }
        }
        let mut a = self.w.acc(&key);
        a.data = c.bytes(Config::disc());
        let (n, cur) = (self.pools.len(), self.cur);
        let (led, pr, cf) = (self.w.svm.ledger.clone(), self.w.pools.clone(), self.w.configs.clone());
        self.w.put(k, a);
        self.new_pool_of(k);
        self.pools.truncate(n);
        self.cur = cur;
        self.w.svm.ledger = led;
        self.w.pools = pr;
        self.w.configs = cf;
    }

    /// executes, sometimes in a hostile variation first
    pub fn run(&mut self, ixs: Vec<Instruction>) -> Out {
        if self.r.below(100) < self.f.hostile {
            let mut m = ixs.clone();
            self.hostile(&mut m);
        }
        self.w.exec(&ixs)
    }

    /// a varied transaction, on a ledger of its own: it must be refused or do exactly what its accounts say
    fn hostile(&mut self, m: &mut Vec<Instruction>) {
        let (led, pr, cf, ck) =
            (self.w.svm.ledger.clone(), self.w.pools.clone(), self.w.configs.clone(), self.w.svm.clock.clone());
        for _ in 0..1 + self.r.below(10) / 8 {
            self.vary(m);
        }
        // addresses without a private key sign for nobody
        let mut never = vec![POOL_AUTHORITY, SYSTEM, TOKEN, TOKEN22, DBC];
        for p in &self.pools {
            never.extend([p.key, p.bv, p.qv]);
        }
        for x in m.iter_mut() {
            for a in x.accounts.iter_mut() {
                a.is_signer &= !never.contains(&a.pubkey);
            }
        }
        self.w.varied = true;
        self.w.exec(m);
        self.w.varied = false;
        self.w.log.push_back("-- undone".into());
        self.w.svm.ledger = led;
        self.w.pools = pr;
        self.w.configs = cf;
        self.w.svm.clock = ck;
    }

    pub fn run1(&mut self, i: Instruction) -> Out {
        self.run(vec![i])
    }

    /// the migration metadata of some other pool, whose LP is often settled
    fn other_meta(&mut self, mut a: Acc) -> Pubkey {
        let other = self.r.key();
        a.data[8..40].copy_from_slice(other.as_ref());
        if self.r.chance(70) {
            a.data[169..173].fill(1);
        }
        let k = pda(&[b"meteora", other.as_ref()], &DBC);
        self.w.put(k, a);
        k
    }

    /// changes one thing about a transaction
    pub fn vary(&mut self, ixs: &mut [Instruction]) {
        let n = self.r.below(ixs.len() as u64) as usize;
        let na = ixs[n].accounts.len();
        if na == 0 {
            return;
        }
        let i = self.r.below(na as u64) as usize;
        let kind = self.r.below(22);
        self.w.c(format!("vary:{kind}"));
        let was: Vec<Vec<AccountMeta>> = ixs.iter().map(|i| i.accounts.clone()).collect();
        self.vary_kind(kind, ixs, n, i, na);
        let mut s = format!("-- variation {kind} of instruction {n}:");
        for (j, (a, b)) in was[n].iter().zip(&ixs[n].accounts).enumerate() {
            if a != b {
                s += &format!(" account {j}: {a:?} -> {b:?};");
            }
        }
        self.w.log.push_back(s);
    }
    fn vary_kind(&mut self, kind: u64, ixs: &mut [Instruction], n: usize, i: usize, na: usize) {
        match kind {
            0 | 1 => {
                let s: Vec<usize> = (0..na).filter(|i| ixs[n].accounts[*i].is_signer).collect();
                if !s.is_empty() {
                    let i = *self.r.pick(&s);
                    let key = ixs[n].accounts[i].pubkey;
                    // everywhere, or the privilege comes back from another mention
                    for ix in ixs.iter_mut() {
                        for m in ix.accounts.iter_mut() {
                            if m.pubkey == key {
                                m.is_signer = false;
                            }
                        }
                    }
                }
            }
            2 => {
                let s: Vec<usize> = (0..na).filter(|i| ixs[n].accounts[*i].is_writable).collect();
                if !s.is_empty() {
                    let i = *self.r.pick(&s);
                    let key = ixs[n].accounts[i].pubkey;
                    for ix in ixs.iter_mut() {
                        for m in ix.accounts.iter_mut() {
                            if m.pubkey == key {
                                m.is_writable = false;
                            }
                        }
                    }
                }
            }
            3 | 4 => {
                // another signer
                let s: Vec<usize> = (0..na).filter(|i| ixs[n].accounts[*i].is_signer).collect();
                if !s.is_empty() {
                    let i = *self.r.pick(&s);
                    let all: Vec<Pubkey> = self
                        .users
                        .iter()
                        .chain(&self.partners)
                        .chain(&self.creators)
                        .chain(&ADMINS)
                        .copied()
                        .chain(self.ops.iter().map(|o| o.0))
                        .collect();
                    ixs[n].accounts[i].pubkey = *self.r.pick(&all);
                }
            }
            5 => {
                // the same account of another pool
                if self.pools.len() > 1 {
                    let (a, c) = (self.pools[self.cur.min(self.pools.len() - 1)].clone(), self.r.pick(&self.pools).clone());
                    let pairs = [(a.key, c.key), (a.bv, c.bv), (a.qv, c.qv), (a.bm, c.bm), (a.qm, c.qm), (a.config, c.config)];
                    let (x, y) = *self.r.pick(&pairs);
                    for m in ixs[n].accounts.iter_mut() {
                        if m.pubkey == x {
                            m.pubkey = y;
                        }
                    }
                }
            }
            6 => {
                // all accounts of another pool but one
                if self.pools.len() > 1 {
                    let (a, c) = (self.pools[self.cur.min(self.pools.len() - 1)].clone(), self.r.pick(&self.pools).clone());
                    let pairs = [(a.key, c.key), (a.bv, c.bv), (a.qv, c.qv), (a.bm, c.bm), (a.qm, c.qm), (a.config, c.config)];
                    let keep = self.r.below(6) as usize;
                    for (k, (x, y)) in pairs.iter().enumerate() {
                        if k == keep {
                            continue;
                        }
                        for m in ixs[n].accounts.iter_mut() {
                            if m.pubkey == *x {
                                m.pubkey = *y;
                            }
                        }
                    }
                }
            }
            7 => {
                // a copy at another address
                let key = ixs[n].accounts[i].pubkey;
                let a = self.w.acc(&key);
                // accounts of the program itself cannot be forged
                if !a.executable && a.lamports > 0 && a.owner != DBC {
                    let k = self.r.key();
                    self.w.put(k, a.clone());
                    ixs[n].accounts[i].pubkey = k;
                }
                if read_v1_meta(&a).is_some() {
                    ixs[n].accounts[i].pubkey = self.other_meta(a);
                }
            }
            8 => {
                // the same content under another owner
                let key = ixs[n].accounts[i].pubkey;
                let mut a = self.w.acc(&key);
                if !a.executable && a.lamports > 0 {
                    let k = self.r.key();
                    a.owner = *self.r.pick(&[TOKEN, TOKEN22, SYSTEM, DAMM1, DAMM2, LOCKER]);
                    // the token program has accounts of these sizes only
                    if a.owner == TOKEN && ![82, 165, 355].contains(&a.data.len()) {
                        a.owner = SYSTEM;
                    }
                    self.w.put(k, a);
                    ixs[n].accounts[i].pubkey = k;
                }
            }
            9 => {
                let j = self.r.below(na as u64) as usize;
                ixs[n].accounts[i].pubkey = ixs[n].accounts[j].pubkey;
            }
            10 => {
                ixs[n].accounts[i].pubkey = self.r.key();
            }
            11 => {
                // someone else's token account
                let key = ixs[n].accounts[i].pubkey;
                if let Some(t) = tok_of(&self.w.acc(&key)) {
                    let u = match self.r.below(4) {
                        0 => POOL_AUTHORITY,
                        1 => TREASURY,
                        _ => self.user(),
                    };
                    let k = if self.r.chance(50) { ata(&u, &t.mint, &self.prog_of(&t.mint)) } else { self.r.key() };
                    self.make_token(k, &u, &t.mint);
                    if self.r.chance(50) {
                        self.fund(&k, 1_000_000);
                    }
                    ixs[n].accounts[i].pubkey = k;
                }
            }
            12 => {
                let keep = self.r.below(na as u64) as usize;
                ixs[n].accounts.truncate(keep.max(na.saturating_sub(3)));
            }
            13 => {
                // arguments
                let d = &mut ixs[n].data;
                if d.len() > 8 {
                    match self.r.below(4) {
                        0 => {
                            let j = 8 + self.r.below(d.len() as u64 - 8) as usize;
                            d[j] ^= 1 << self.r.below(8);
                        }
                        1 => {
                            let j = 8 + self.r.below(d.len() as u64 - 8) as usize;
                            d[j] = *self.r.pick(&[0, 1, 2, 3, 4, 5, 127, 128, 255]);
                        }
                        2 => {
                            let j = self.r.below(d.len() as u64 - 8) as usize;
                            d.truncate(8 + j);
                        }
                        _ => {
                            let j = 8 + self.r.below(((d.len() - 8) / 8 + 1) as u64) as usize * 8;
                            if j + 8 <= d.len() {
                                let v: u64 = *self.r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63]);
                                d[j..j + 8].copy_from_slice(&v.to_le_bytes());
                            }
                        }
                    }
                }
            }
            20 => {
                // a token account its owner has handed over
                let key = ixs[n].accounts[i].pubkey;
                let mut a = self.w.acc(&key);
                if let Some(t) = tok_of(&a) {
                    if t.owner != POOL_AUTHORITY {
                        let u = self.user();
                        a.data[32..64].copy_from_slice(u.as_ref());
                        self.w.put(key, a);
                    }
                }
            }
            15..=19 => self.vary_roles(kind, &mut ixs[n]),
            _ => {
                // swapped accounts
                let j = self.r.below(na as u64) as usize;
                let (x, y) = (ixs[n].accounts[i].pubkey, ixs[n].accounts[j].pubkey);
                ixs[n].accounts[i].pubkey = y;
                ixs[n].accounts[j].pubkey = x;
            }
        }
    }

    /// someone steps into another's place, with what they would bring along: their token accounts, their escrow, their configuration
    fn vary_roles(&mut self, kind: u64, ix: &mut Instruction) {
        let thief = self.user();
        let keys: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
        // the configuration the instruction names, and its pool's
        let conf = keys.iter().copied().find(|k| self.w.config(k).is_some());
        let mut roles: Vec<Pubkey> = vec![];
        if let Some(c) = conf.and_then(|k| self.w.config(&k)) {
            roles.extend([c.partner(), c.leftover()]);
        }
        for k in &keys {
            if let Some(r) = self.w.pools.get(k) {
                roles.extend([r.c.partner(), r.c.leftover()]);
                if let Some(p) = self.w.svm.ledger.get(k).and_then(|a| Pool::read(&a.data)) {
                    roles.push(crate::abi::k(&p.creator));
                }
            }
        }
        roles.retain(|k| keys.contains(k));
        roles.sort();
        roles.dedup();
        let mut map: Vec<(Pubkey, Pubkey)> = vec![];
        let victim = if roles.is_empty() { None } else { Some(*self.r.pick(&roles)) };
        if kind >= 17 {
            // a configuration of their own making
            let Some(key) = conf else { return };
            // a new pool would be made by it
            if !keys.iter().any(|k| self.w.pools.contains_key(k)) {
                return;
            }
            let k = self.r.key();
            let mut c = self.w.config(&key).unwrap();
            if self.r.chance(85) {
                c.fee_claimer = thief.to_bytes();
            }
            if self.r.chance(60) {
                c.leftover_receiver = thief.to_bytes();
            }
            for _ in 0..self.r.below(3) {
                match self.r.below(14) {
                    0 | 1 => c.migration_quote_threshold = *self.r.pick(&[1, c.migration_quote_threshold / 2, c.migration_quote_threshold.saturating_mul(2)]),
                    2 => c.migration_option ^= 1,
                    3 => c.migration_fee_option = (c.migration_fee_option + 1) % 7,
                    4 => c.creator_fee_pct = 100 - c.creator_fee_pct.min(100),
                    5 => c.migration_fee_pct = *self.r.pick(&[0, 50, 99]),
                    6 => c.creator_migration_fee_pct = *self.r.pick(&[0, 50, 100]),
                    7 => c.lv_cliff_unlock = c.lv_cliff_unlock / 2 + 1,
                    8 => c.lv_amount_per_period = c.lv_amount_per_period / 2 + 1,
                    9 => c.lv_cliff_duration = 0,
                    10 => {
                        c.partner_perm_pct = 0;
                        c.creator_perm_pct = 0;
                        c.partner_liq_pct = 100;
                        c.creator_liq_pct = 0;
                    }
                    11 => c.pool_creation_fee = c.pool_creation_fee.wrapping_mul(2).max(1_000_000),
                    12 => c.migration_sqrt_price = c.migration_sqrt_price / 2 + 1,
                    _ => c.collect_fee_mode ^= 1,
                }
            }
            let mut a = self.w.acc(&key);
            a.data = c.bytes(Config::disc());
            self.w.put(k, a);
            map.push((key, k));
        }
        if let (Some(v), true) = (victim, kind != 19) {
            // their keys, and what belongs to them
            if kind != 16 {
                map.push((v, thief));
            }
            for k in &keys {
                let a = self.w.acc(k);
                if let Some(t) = tok_of(&a) {
                    if t.owner == v && self.r.chance(90) {
                        let n = ata(&thief, &t.mint, &a.owner);
                        self.make_token(n, &thief, &t.mint);
                        map.push((*k, n));
                    }
                }
            }
            // escrows of liquidity tokens
            let found = self.pools.iter().flat_map(|p| p.v1.iter()).find_map(|x| {
                x.escrow.iter().find(|e| e.2 == v && keys.contains(&e.0)).map(|e| (x.pool, x.lp_mint, *e))
            });
            if let Some((pool, lp, e)) = found {
                let (n, nv) = (self.r.key(), self.r.key());
                self.make_token(nv, &n, &lp);
                self.w.put(n, Acc { lamports: SOL, data: v1_escrow_bytes(&pool, &thief, &nv), owner: DAMM1, executable: false });
                map.push((e.0, n));
                if self.r.chance(90) {
                    map.push((e.1, nv));
                }
            }
        }
        for m in ix.accounts.iter_mut() {
            if let Some(x) = map.iter().find(|x| x.0 == m.pubkey) {
                m.pubkey = x.1;
            }
        }
    }

    pub fn advance(&mut self) {
        let p = self.pick_pool();
        let c = &mut self.w.svm.clock;
        let mut dt: u64 = match self.r.below(10) {
            0..=2 => self.r.below(3),
            3..=5 => self.r.below(120),
            6 => self.r.below(100_000),
            7 => self.r.log(1, 500_000_000),
            _ => 1,
        };
        let mut ds = dt * 5 / 2;
        if let (Some(p), true) = (p, self.r.chance(60)) {
            // just before, at and just after something
            let pool = Pool::read(&self.w.svm.ledger.get(&p.key).map(|a| a.data.clone()).unwrap_or_default());
            if let Some(pool) = pool {
                let act = pool.activation_point;
                let now = if p.c.activation_type == 0 { c.slot } else { c.unix_timestamp as u64 };
                let mut targets: Vec<u64> = vec![];
                if p.c.base_fee_mode < 2 && p.c.second_factor > 0 {
                    let per = now.saturating_sub(act) / p.c.second_factor + 1;
                    targets.push(act.saturating_add(per.saturating_mul(p.c.second_factor)));
                    let end = (p.c.first_factor as u64).saturating_mul(p.c.second_factor);
                    if end < 1 << 40 {
                        targets.push(act + end);
                    }
                }
                if p.c.base_fee_mode == 2 {
                    targets.push(act.saturating_add(p.c.second_factor));
                }
                if p.c.dyn_init == 1 && self.r.chance(50) {
                    let t = pool.v_last_update + *self.r.pick(&[p.c.dyn_filter as u64, p.c.dyn_decay as u64]);
                    let t = t.saturating_add(self.r.below(3)).saturating_sub(1);
                    if t > c.unix_timestamp as u64 {
                        let d = t - c.unix_timestamp as u64;
                        c.unix_timestamp += d as i64;
                        c.slot += d;
                        return;
                    }
                }
                if self.r.chance(8) {
                    // long after: where a narrower counter of time or of periods would begin anew
                    let n = *self.r.pick(&[1u64 << 16, 1 << 16, 1 << 32, 1 << 8, 1 << 31]);
                    let unit = *self.r.pick(&[1, p.c.second_factor.clamp(1, 1 << 16), 1]);
                    let from = if self.r.chance(50) { act } else { pool.v_last_update.max(act) };
                    let part = p.c.dyn_decay.max(p.c.first_factor) as u64 + 2;
                    targets = vec![from.saturating_add(n.saturating_mul(unit)).saturating_add(self.r.below(part) * unit)];
                }
                if !targets.is_empty() {
                    let t = self.r.pick(&targets).saturating_add(self.r.below(3)).saturating_sub(1);
                    if t > now && t - now < 1 << 34 {
                        dt = t - now;
                        ds = dt;
                    }
                }
            }
        }
        c.unix_timestamp += dt as i64;
        c.slot += ds;
    }

    /// exact-in amount for a buy near something interesting
    fn buy_amount(&mut self, p: &PoolG, pool: &Pool) -> u64 {
        let c = &p.c;
        let rem = c.migration_quote_threshold.saturating_sub(pool.quote_reserve).max(1);
        if self.small {
            return self.r.log(1, (rem / 100).max(1));
        }
        let now = if c.activation_type == 0 { self.w.svm.clock.slot } else { self.w.svm.clock.unix_timestamp as u64 };
        let gross = |x: u64| -> u64 {
            if c.collect_fee_mode != 0 {
                return x;
            }
            fee_numerator(c, pool.v_acc, now, pool.activation_point, Dir::Buy, x, false, false)
                .and_then(|n| included(n, x))
                .map(|v| v.0)
                .unwrap_or(x)
        };
        let jitter = |r: &mut Rng, x: u64| match r.below(5) {
            0 => x.saturating_sub(1),
            1 => x.saturating_add(1),
            2 => x.saturating_add(2),
            _ => x,
        };
        match self.r.below(20) {
            0 => self.r.range(1, 12),
            1 => {
                let x = gross(rem);
                jitter(&mut self.r, x)
            }
            2 => {
                // the next boundary of the curve
                let pts = c.points();
                let mut q = B::zero();
                let mut lo = pool.sqrt_price;
                let k = 1 + self.r.below(2);
                let mut seen = 0;
                for (pp, l) in pts {
                    if pp > lo {
                        q += quote_delta(lo, pp, l, true);
                        lo = pp;
                        seen += 1;
                        if seen == k {
                            break;
                        }
                    }
                }
                let x = gross(q.to_u64().unwrap_or(rem).max(1));
                jitter(&mut self.r, x).min(gross(rem).saturating_mul(2).max(1))
            }
            3 if c.base_fee_mode == 2 => {
                let m = BaseFee::of(c).max_index().unwrap_or(1);
                let t = c.third_factor;
                let x = match self.r.below(5) {
                    0 => t,
                    1 => t.saturating_mul(2),
                    2 => t.saturating_mul(m),
                    3 => t.saturating_mul(m.saturating_add(1)),
                    _ => t.saturating_mul(1 + self.r.below(m.max(1))),
                };
                jitter(&mut self.r, x).max(1)
            }
            4 => *self.r.pick(&[u64::MAX, 1 << 63, 1 << 62]),
            5 => 0,
            6 => gross(rem).saturating_mul(1 + self.r.below(3)),
            7..=9 => self.r.log(1, rem),
            _ => {
                let k = 2 + self.r.below(40);
                let hi = gross(rem / k).max(1);
                self.r.range((hi / 4).max(1), hi)
            }
        }
    }
    /// base up to some point of the curve, beyond the migration price too; or as much as costs about all there can be
    fn base_beyond(&mut self, p: &PoolG, from: u128) -> u64 {
        let pts: Vec<(u128, u128)> = p.c.points().into_iter().filter(|x| x.0 > from).collect();
        if pts.is_empty() {
            return 1;
        }
        let k = 1 + self.r.below(pts.len() as u64) as usize;
        let dear = self.r.chance(60);
        let (mut base, mut cost, mut lo) = (B::zero(), B::zero(), from);
        let max = b(u64::MAX);
        for (hi, l) in &pts[..if dear { pts.len() } else { k }] {
            let q = quote_delta(lo, *hi, *l, true);
            if dear && &cost + &q > max {
                // about as far as a u64 of quote takes it
                let room = (&max - &cost) * (50 + self.r.below(400)) / 100u32;
                let to = to128(&(b(lo) + (room << 128u32) / *l)).unwrap_or(*hi).min(*hi);
                base += base_delta(lo, to, *l, false);
                break;
            }
            cost += q;
            base += base_delta(lo, *hi, *l, false);
            lo = *hi;
        }
        self.w.c("bought beyond");
        let x = base.to_u64().unwrap_or(u64::MAX >> 1);
        match self.r.below(4) {
            0 => x.saturating_add(1),
            1 => x.saturating_sub(self.r.below(3)),
            _ => x,
        }
        .max(1)
    }
    fn sell_amount(&mut self, have: u64) -> u64 {
        match self.r.below(8) {
            0 => have,
            1 => have.saturating_add(1),
            2 => self.r.range(1, 12),
            3 => have.saturating_sub(1),
            4 => self.r.log(1, have.max(1)),
            _ => self.r.range(1, have.max(1)),
        }
    }
    fn referral(&mut self, p: &PoolG, dir: Dir) -> Option<Pubkey> {
        if self.r.chance(60) {
            return None;
        }
        let (_, on_base) = fees_on(&p.c, dir);
        let m = if on_base { p.bm } else { p.qm };
        let u = match self.r.below(8) {
            0 => p.c.partner(),
            _ => self.user(),
        };
        Some(self.ta(&u, &m))
    }
    pub fn now(&self, c: &Config) -> u64 {
        if c.activation_type == 0 {
            self.w.svm.clock.slot
        } else {
            self.w.svm.clock.unix_timestamp as u64
        }
    }
    /// the model's quote for a swap right now
    pub fn quote(&self, p: &PoolG, dir: Dir, mode: Mode, a: u64, referral: bool) -> R<SwapR> {
        let pool = self.pool(p);
        let mut v = Vol::of(&pool);
        v.pre(&p.c, pool.sqrt_price, self.w.svm.clock.unix_timestamp as u64);
        quote_swap(&p.c, &pool, v.acc, self.now(&p.c), dir, mode, a, referral, false)
    }
    fn limit(&mut self, p: &PoolG, dir: Dir, mode: Mode, a: u64, referral: bool) -> u64 {
        let q = self.quote(p, dir, mode, a, referral);
        let exact = match (&q, mode) {
            (Ok(q), Mode::ExactOut) => q.included_in,
            (Ok(q), _) => q.out,
            _ => 0,
        };
        match self.r.below(8) {
            0 => exact,
            1 => exact.saturating_add(1),
            2 => exact.saturating_sub(1),
            3 if mode == Mode::ExactOut => exact,
            _ => {
                if mode == Mode::ExactOut {
                    u64::MAX
                } else {
                    0
                }
            }
        }
    }

    pub fn trade(&mut self, op: Op) {
        let Some(p) = self.pick_pool() else { return };
        let pool = self.pool(&p);
        let user = self.user();
        let (dir, mode) = match op {
            Buy => (Dir::Buy, Mode::ExactIn),
            Sell => (Dir::Sell, Mode::ExactIn),
            BuyOut => (Dir::Buy, Mode::ExactOut),
            SellOut => (Dir::Sell, Mode::ExactOut),
            Partial => (if self.r.chance(75) { Dir::Buy } else { Dir::Sell }, Mode::Partial),
            _ => (Dir::Buy, Mode::Partial),
        };
        let (bt, qt) = (self.ta(&user, &p.bm), self.ta(&user, &p.qm));
        let rf = self.referral(&p, dir);
        if dir == Dir::Sell && self.r.chance(15) {
            // one holds all there is
            let all = self.users.clone();
            for u in all.iter().filter(|u| **u != user) {
                let t = self.ta(u, &p.bm);
                let n = self.w.tokens(&t);
                let sum = self.w.tokens(&bt).saturating_add(n);
                self.w.svm.ledger.get_mut(&t).unwrap().data[64..72].fill(0);
                self.fund(&bt, sum);
            }
            self.w.c("one seller");
        }
        let have = self.w.tokens(&bt);
        let a0 = match (dir, mode) {
            (_, _) if op == Complete => *self.r.pick(&[u64::MAX, 1 << 61, u64::MAX >> 1]),
            (Dir::Buy, Mode::ExactOut) => {
                // base left on the curve up to the migration price
                let mut left = B::zero();
                let mut lo = pool.sqrt_price;
                for (pp, l) in p.c.points() {
                    let hi = pp.min(p.c.migration_sqrt_price);
                    if hi > lo {
                        left += base_delta(lo, hi, l, false);
                        lo = hi;
                    }
                }
                let left = left.to_u64().unwrap_or(u64::MAX);
                match self.r.below(9) {
                    8 => self.base_beyond(&p, pool.sqrt_price),
                    0 => left,
                    1 => left.saturating_add(1),
                    2 => left.saturating_sub(1),
                    3 => self.r.range(1, 10),
                    4 => self.r.log(1, left.max(1)),
                    _ => {
                        let k = 2 + self.r.below(30);
                        self.r.range(1, (left / k).max(1))
                    }
                }
            }
            (Dir::Sell, Mode::ExactOut) => {
                let mut q = pool.quote_reserve;
                if self.r.chance(40) {
                    // all that the curve pays down to its start
                    if let Ok(x) = self.quote(&p, dir, Mode::ExactIn, have, rf.is_some()) {
                        q = x.out.saturating_add(self.r.below(3)).saturating_sub(1).max(1);
                    }
                }
                match self.r.below(7) {
                    0 => q,
                    1 => q.saturating_add(1),
                    2 => self.r.range(1, 10),
                    3 => self.r.log(1, q.max(1)),
                    _ => {
                        let k = 2 + self.r.below(30);
                        self.r.range(1, (q / k).max(1))
                    }
                }
            }
            (Dir::Buy, _) => self.buy_amount(&p, &pool),
            (Dir::Sell, _) => self.sell_amount(have),
        };
        let a1 = if op == Complete { 0 } else { self.limit(&p, dir, mode, a0, rf.is_some()) };
        if dir == Dir::Buy {
            let need = match self.quote(&p, dir, mode, a0, rf.is_some()) {
                Ok(q) => q.included_in,
                Err(_) => a0.min(1 << 62),
            };
            let extra = if self.r.chance(95) { need } else { need.saturating_sub(1) };
            self.fund(&qt, extra);
        }
        let v1 = self.r.chance(35);
        let sysvar = p.c.base_fee_mode == 2 && self.r.chance(93) || self.r.chance(20);
        let i = self.i_swap(&p, user, dir, mode as u8, a0, a1, rf, v1, sysvar);
        self.run1(i);
    }

    /// limits at, one below and one beyond what the swap does
    pub fn limits(&mut self) {
        let Some(p) = self.pick_pool() else { return };
        let pool = self.pool(&p);
        let user = self.user();
        let dir = if self.r.chance(60) { Dir::Buy } else { Dir::Sell };
        let mode = *self.r.pick(&[Mode::ExactIn, Mode::Partial, Mode::ExactOut]);
        let (bt, qt) = (self.ta(&user, &p.bm), self.ta(&user, &p.qm));
        let rf = self.referral(&p, dir);
        let a0 = match (dir, mode) {
            (Dir::Buy, Mode::ExactOut) => {
                let x = self.buy_amount(&p, &pool).min(1 << 60);
                self.quote(&p, Dir::Buy, Mode::Partial, x.max(1), false).map(|q| q.out).unwrap_or(1)
            }
            (Dir::Sell, Mode::ExactOut) => self.r.log(1, pool.quote_reserve.max(1)),
            (Dir::Buy, _) => self.buy_amount(&p, &pool),
            _ => {
                let have = self.w.tokens(&bt);
                self.sell_amount(have)
            }
        };
        let Ok(q) = self.quote(&p, dir, mode, a0, rf.is_some()) else { return };
        if dir == Dir::Buy {
            self.fund(&qt, q.included_in);
        }
        let sysvar = p.c.base_fee_mode == 2;
        let (at, beyond) = match mode {
            Mode::ExactOut => (q.included_in, q.included_in.wrapping_sub(1)),
            _ => (q.out, q.out.wrapping_add(1)),
        };
        self.w.c("limits:probed");
        for v1 in [false, true] {
            if v1 && mode != Mode::ExactIn {
                continue;
            }
            let i = self.i_swap(&p, user, dir, mode as u8, a0, beyond, rf, v1, sysvar);
            self.w.exec(&[i]);
            let i = self.i_swap(&p, user, dir, mode as u8, a0, at, rf, v1, sysvar);
            self.w.fork(|w| {
                w.exec(&[i]);
            });
        }
        let i = self.i_swap(&p, user, dir, mode as u8, 0, 0, rf, true, sysvar);
        self.w.exec(&[i]);
    }

    /// buy, then sell everything bought in pieces
    pub fn round_trip(&mut self) {
        let Some(p) = self.pick_pool() else { return };
        let saved = self.pools.clone();
        let (led, pr, cf, ck) =
            (self.w.svm.ledger.clone(), self.w.pools.clone(), self.w.configs.clone(), self.w.svm.clock.clone());
        let user = self.r.key();
        self.w.put(user, Acc { lamports: SOL, ..Default::default() });
        let (bt, qt) = (self.ta(&user, &p.bm), self.ta(&user, &p.qm));
        self.fund(&qt, 1 << 60);
        let start = self.w.tokens(&qt);
        let sysvar = p.c.base_fee_mode == 2;
        for _ in 0..1 + self.r.below(4) {
            let pool = self.pool(&p);
            let a = match self.r.below(3) {
                0 => self.r.range(1, 20),
                _ => self.buy_amount(&p, &pool),
            };
            let mode = if self.r.chance(70) { 0 } else { 1 };
            let i = self.i_swap(&p, user, Dir::Buy, mode, a, 0, None, false, sysvar);
            self.w.exec(&[i]);
            if self.r.chance(20) {
                self.advance();
            }
        }
        for n in 0..6 {
            let have = self.w.tokens(&bt);
            if have == 0 {
                break;
            }
            let a = if n == 5 {
                have
            } else {
                match self.r.below(3) {
                    0 => self.r.range(1, have.min(20)),
                    _ => self.r.range(1, have),
                }
            };
            let i = if self.r.chance(70) || n == 5 {
                self.i_swap(&p, user, Dir::Sell, 0, a, 0, None, false, sysvar)
            } else {
                let q = self.pool(&p).quote_reserve;
                let x = self.r.log(1, q.max(1));
                self.i_swap(&p, user, Dir::Sell, 2, x, u64::MAX, None, false, sysvar)
            };
            self.w.exec(&[i]);
        }
        let (have, q) = (self.w.tokens(&bt), self.w.tokens(&qt));
        self.w.c(if have == 0 { "roundtrip:all-sold" } else { "roundtrip:some-left" });
        // nobody may leave with more quote, whatever is left in base
        if q > start {
            self.w.report(&["C03"], format!("a round trip turned {start} quote into {q} (and {have} base)"));
        }
        self.w.svm.ledger = led;
        self.w.pools = pr;
        self.w.configs = cf;
        self.w.svm.clock = ck;
        self.pools = saved;
    }

    /// pieces against the exact integral of the combined input
    pub fn split(&mut self) {
        let Some(p) = self.pick_pool() else { return };
        let saved = self.pools.clone();
        let (led, pr, cf, ck) =
            (self.w.svm.ledger.clone(), self.w.pools.clone(), self.w.configs.clone(), self.w.svm.clock.clone());
        let pool = self.pool(&p);
        let user = self.user();
        let (bt, qt) = (self.ta(&user, &p.bm), self.ta(&user, &p.qm));
        let dir = if self.r.chance(60) { Dir::Buy } else { Dir::Sell };
        let sysvar = p.c.base_fee_mode == 2;
        let from = pool.sqrt_price;
        let total = if dir == Dir::Buy {
            self.fund(&qt, 1 << 60);
            self.buy_amount(&p, &pool)
        } else {
            self.w.tokens(&bt)
        };
        let dust = self.r.chance(50);
        let (mut excl, mut gross) = (0u128, 0u128);
        let n = 2 + self.r.below(8);
        for i in 0..n {
            let a = if dust { self.r.range(1, 30) } else { (total / n).max(1).saturating_add(self.r.below(3)) };
            let _ = i;
            let i = self.i_swap(&p, user, dir, 0, a, 0, None, false, sysvar);
            let o = self.w.exec(&[i]);
            if !o.ok {
                continue;
            }
            for e in o.events.iter().filter_map(swap_ev) {
                excl += e.excluded as u128;
                let (on_in, _) = fees_on(&p.c, dir);
                gross += e.out as u128 + if on_in { 0 } else { e.trading as u128 + e.protocol as u128 + e.referral_fee as u128 };
            }
        }
        if excl > 0 {
            self.w.c("split:compared");
            let bound = exact_out(&p.c, from, dir, excl);
            if b(gross) > bound {
                self.w.report(&["C03"], format!("{n} pieces of {excl} in total gave {gross}, the curve holds {bound} for it"));
            }
        }
        self.w.svm.ledger = led;
        self.w.pools = pr;
        self.w.configs = cf;
        self.w.svm.clock = ck;
        self.pools = saved;
    }

    pub fn fault(&mut self, op: &[&'static str]) -> Fault {
        if self.r.below(100) >= self.f.faults {
            return Fault::default();
        }
        let op = *self.r.pick(op);
        let kind = match self.r.below(8) {
            0 => FaultKind::Drain(1),
            1 => FaultKind::Drain(self.r.log(1, SOL)),
            2 => FaultKind::Gift(self.r.log(1, SOL)),
            3 => FaultKind::Assign,
            4 => FaultKind::Alloc,
            5 => FaultKind::Less(self.r.below(3), self.r.below(3)),
            6 => FaultKind::Less(self.r.log(1, 1 << 40), 0),
            _ => FaultKind::Less(0, self.r.log(1, 1 << 40)),
        };
        Fault { op, kind }
    }

    pub fn migrate(&mut self, n: usize) -> Option<Out> {
        let p = self.pools[n].clone();
        if p.c.migration_option == 0 {
            let meta = pda(&[b"meteora", p.key.as_ref()], &DBC);
            if !self.w.svm.ledger.contains_key(&meta) {
                let i = self.i_v1_meta(&p);
                self.run1(i);
            }
            let i = self.i_v1_migrate(n);
            let f = self.fault(&["v1_create"]);
            self.vary_dex(&i, false);
            self.hostile_first(&i);
            if f.kind != FaultKind::None {
                let j = i.clone();
                self.w.fork(|w| {
                    w.exec_fault(&[j], f);
                });
            }
            Some(self.w.exec(&[i]))
        } else {
            // without the second position's accounts
            if self.r.chance(15) {
                let i = self.i_v2_migrate(n, false);
                self.w.fork(|w| {
                    w.exec(&[i]);
                });
            }
            let i = self.i_v2_migrate(n, true);
            self.vary_dex(&i, true);
            self.hostile_first(&i);
            let f = self.fault(&["v2_init", "v2_position", "v2_add", "v2_perm", "v2_vest"]);
            if f.kind != FaultKind::None {
                let j = i.clone();
                if self.r.chance(70) || !matches!(f.kind, FaultKind::Less(..) | FaultKind::More(..)) {
                    self.w.fork(|w| {
                        w.exec_fault(&[j], f);
                    });
                } else {
                    self.w.exec_fault(&[j], f);
                }
            }
            Some(self.w.exec(&[i]))
        }
    }
    fn hostile_first(&mut self, i: &Instruction) {
        if self.r.below(100) < self.f.hostile {
            let mut m = vec![i.clone()];
            self.hostile(&mut m);
        }
    }
    /// the same migration with a DEX configuration that does not fit
    fn vary_dex(&mut self, i: &Instruction, v2: bool) {
        if !self.r.chance(25) {
            return;
        }
        let mut j = i.clone();
        let at = if v2 { 25 } else { 5 };
        if v2 {
            let key = j.accounts[25].pubkey;
            let Some(mut c) = V2Config::read(&self.w.acc(&key)) else { return };
            match self.r.below(13) {
                0 => c.creator_authority = self.users[0],
                1 => c.creator_authority = Pubkey::default(),
                2 => c.cliff += 100_000,
                3 => c.cliff = c.cliff.saturating_sub(1),
                4 => c.fee_mode = *self.r.pick(&[1, 2, 3]),
                5 => c.number_of_period = 1,
                6 => c.period_frequency = 1,
                7 => c.reduction = 1,
                8 => c.activation_type = 0,
                9 => c.min = c.min.saturating_add(self.r.log(1, 1 << 60) as u128),
                10 => c.max = c.max.saturating_sub(self.r.log(1, 1 << 60) as u128),
                11 => c.vault_config_key = self.users[0],
                _ => {
                    j.accounts[at].pubkey = *self.r.pick(&self.v2cfg);
                    self.w.fork(|w| {
                        w.exec(&[j]);
                    });
                    return;
                }
            }
            let k = self.r.key();
            self.w.put(k, Acc { lamports: SOL, data: c.bytes(), owner: DAMM2, executable: false });
            j.accounts[at].pubkey = k;
        } else {
            let key = j.accounts[5].pubkey;
            let Some(mut c) = V1Config::read(&self.w.acc(&key)) else { return };
            match self.r.below(8) {
                0 => c.creator_authority = self.users[0],
                1 => c.creator_authority = Pubkey::default(),
                2 => c.fee_num = c.fee_num.saturating_add(10),
                3 => c.fee_num = c.fee_num.saturating_sub(1),
                4 => c.partner_fee = 1,
                5 => c.activation_duration = 1,
                6 => c.vault_config_key = self.users[0],
                _ => {
                    j.accounts[at].pubkey = *self.r.pick(&self.v1cfg);
                    self.w.fork(|w| {
                        w.exec(&[j]);
                    });
                    return;
                }
            }
            let k = self.r.key();
            self.w.put(k, Acc { lamports: SOL, data: c.bytes(), owner: DAMM1, executable: false });
            j.accounts[at].pubkey = k;
        }
        self.w.fork(|w| {
            w.exec(&[j]);
        });
    }

    /// drives a pool to completion; true when it is complete
    pub fn finish(&mut self, n: usize) -> bool {
        let p = self.pools[n].clone();
        for i in 0..4 {
            if complete(&p.c, &self.pool(&p)) {
                return true;
            }
            let user = self.user();
            let (_, qt) = (self.ta(&user, &p.bm), self.ta(&user, &p.qm));
            let a = if p.qm == WSOL { 1u64 << 61 } else { u64::MAX >> 1 };
            let need = match self.quote(&p, Dir::Buy, Mode::Partial, a, false) {
                Ok(q) => q.included_in,
                Err(_) => a,
            };
            self.fund(&qt, need);
            if i > 0 {
                // the rate limiter's window or the schedule may stand in the way
                self.w.svm.clock.unix_timestamp += 200_000;
                self.w.svm.clock.slot += 200_000;
            }
            let i = self.i_swap(&p, user, Dir::Buy, 1, a, 0, None, false, p.c.base_fee_mode == 2);
            self.w.exec(&[i]);
        }
        complete(&p.c, &self.pool(&p))
    }

    /// from here to the end: everything has to succeed
    pub fn settle(&mut self, n: usize) {
        let p = self.pools[n].clone();
        let saved = self.pools.clone();
        let (led, pr, cf, ck) =
            (self.w.svm.ledger.clone(), self.w.pools.clone(), self.w.configs.clone(), self.w.svm.clock.clone());
        let (f, h) = (self.f.faults, self.f.hostile);
        self.f.faults = 0;
        self.f.hostile = 0;
        let before = self.w.viol.len();
        if let Err(e) = self.settle_inner(n) {
            self.w.report(&["C13"], format!("pool cannot be settled: {e}"));
        }
        self.w.c("settle:run");
        let _ = before;
        self.f.faults = f;
        self.f.hostile = h;
        self.w.svm.ledger = led;
        self.w.pools = pr;
        self.w.configs = cf;
        self.w.svm.clock = ck;
        self.pools = saved;
        let _ = p;
    }
    fn must(&mut self, i: Instruction) -> Result<(), String> {
        let name = describe(&i);
        let o = self.w.exec(&[i]);
        if o.ok {
            Ok(())
        } else {
            Err(format!("{name}: {:?} (expected {:?})", o.err, o.expected))
        }
    }
    fn settle_inner(&mut self, n: usize) -> Result<(), String> {
        let p = self.pools[n].clone();
        // anyone may give the authority the lamports it fronts
        let mut a = self.w.acc(&POOL_AUTHORITY);
        a.lamports += 10 * SOL;
        self.w.put(POOL_AUTHORITY, a);
        // fees already claimed are there to be spent again: the quote token cannot exceed 64 bits of supply
        self.spent(&p);
        for partner in [true, false] {
            let i = self.i_claim(&p, partner, u64::MAX, u64::MAX);
            self.must(i)?;
            self.spent(&p);
        }
        let op = self.operator(0);
        let i = self.i_claim_protocol(&p, u64::MAX, u64::MAX, op);
        self.must(i)?;
        self.spent(&p);
        if !complete(&p.c, &self.pool(&p)) {
            // the fee on top must still fit
            let have = self.w.tokens(&p.qv) as u128;
            let fee = if p.c.dyn_init == 1 || p.c.base_fee_mode == 2 { 990_000_000 } else { p.c.cliff as u128 };
            let left = p.c.migration_quote_threshold.saturating_sub(self.pool(&p).quote_reserve) as u128;
            let most = if p.qm == WSOL { 1u128 << 61 } else { (u64::MAX >> 1) as u128 };
            let more = (left + 10) * 1_000_000_000 / (1_000_000_000 - fee);
            // nor can the lifetime counters hold more than 64 bits of fees
            if have + more > most || self.pool(&p).m_trading_quote as u128 + more > u64::MAX as u128 {
                self.w.c("settle:threshold near the supply limit");
                return Ok(());
            }
        }
        let donated = self.w.pools.get(&p.key).map(|r| r.excess_q).unwrap_or(0);
        if !self.finish(n) {
            let a = if p.qm == WSOL { 1u64 << 61 } else { u64::MAX >> 1 };
            let q = self.quote(&p, Dir::Buy, Mode::Partial, a, false).map(|q| q.included_in);
            let pool = self.pool(&p);
            return Err(format!(
                "no buy completes the curve: {q:?}, reserve {} of {}, fee mode {} dynamic {} cliff {} collect {}",
                pool.quote_reserve, p.c.migration_quote_threshold, p.c.base_fee_mode, p.c.dyn_init, p.c.cliff, p.c.collect_fee_mode
            ));
        }
        if self.pool(&p).migration_progress == 1 {
            let i = self.i_locker(&p);
            self.must(i)?;
        }
        // some of it before the migration
        let early = self.r.chance(50);
        if early {
            self.withdrawals(&p)?;
        }
        if self.pool(&p).migration_progress == 2 {
            if p.c.migration_option == 0 {
                let meta = pda(&[b"meteora", p.key.as_ref()], &DBC);
                if !self.w.svm.ledger.contains_key(&meta) {
                    let i = self.i_v1_meta(&p);
                    self.must(i)?;
                }
                let i = self.i_v1_migrate(n);
                self.must(i)?;
            } else {
                let i = self.i_v2_migrate(n, true);
                self.must(i)?;
            }
        }
        if self.pool(&p).migration_progress != 3 {
            return Err(format!("stage {}", self.pool(&p).migration_progress));
        }
        self.withdrawals(&p)?;
        if p.c.migration_option == 0 {
            let meta = pda(&[b"meteora", p.key.as_ref()], &DBC);
            for partner in [true, false] {
                for lock in [true, false] {
                    let m = read_v1_meta(&self.w.acc(&meta)).ok_or("metadata")?;
                    let same = self.creator(&p) == p.c.partner();
                    let (n1, done) = match (partner, lock) {
                        (true, true) => (m.partner_locked, m.status[1]),
                        (true, false) => (m.partner_free, m.status[3]),
                        (false, true) => (m.creator_locked, m.status[0]),
                        (false, false) => (m.creator_free, m.status[2]),
                    };
                    let (other, other_done) = match (partner, lock) {
                        (true, true) => (m.creator_locked, m.status[0]),
                        (true, false) => (m.creator_free, m.status[2]),
                        (false, true) => (m.partner_locked, m.status[1]),
                        (false, false) => (m.partner_free, m.status[3]),
                    };
                    let own = if done == 0 { n1 } else { 0 };
                    let other = if same && other_done == 0 { other } else { 0 };
                    if own > 0 || other > 0 {
                        let i = self.i_v1_lp(n, partner, lock).ok_or("no LP")?;
                        self.must(i)?;
                    }
                }
            }
            // nothing of the LP is left with the authority beyond dust
            let lp = p.v1.clone().or(self.pools[n].v1.clone()).map(|v| ata(&POOL_AUTHORITY, &v.lp_mint, &TOKEN));
            if let Some(lp) = lp {
                let rest = self.w.tokens(&lp);
                if rest > 0 {
                    return Err(format!("{rest} LP tokens stay with the pool authority"));
                }
            }
        }
        if p.c.fixed_supply == 1 && self.pool(&p).is_withdraw_leftover == 0 {
            let i = self.i_leftover(&p);
            self.must(i)?;
        }
        let (rq, rb) = (self.w.tokens(&p.qv), self.w.tokens(&p.bv));
        let given = self.w.pools.get(&p.key).map(|r| r.donated_b).unwrap_or(0);
        let rb = rb.saturating_sub(given);
        let pool = self.pool(&p);
        let kept = pool.protocol_quote_fee as i128 + pool.protocol_migration_quote_fee as i128;
        let rest = rq as i128 - donated - kept;
        self.w.c(format!("settle:rest_q{}", (128 - (rest.max(0) as u128).leading_zeros())));
        self.w.c(format!("settle:rest_b{}", 64 - rb.leading_zeros()));
        let bound = settle_dust(&p.c);
        if rest > bound {
            return Err(format!("{rest} quote stay in the vault (dust is {bound})"));
        }
        if rb > 0 {
            return Err(format!(
                "{rb} base stay in the vault (fixed {} option {} collect {} protocol {} donated {given})",
                p.c.fixed_supply, p.c.migration_option, p.c.collect_fee_mode, pool.protocol_base_fee
            ));
        }
        if pool.partner_quote_fee | pool.creator_quote_fee | pool.partner_base_fee | pool.creator_base_fee != 0 {
            return Err("unclaimed fees remain".into());
        }
        Ok(())
    }
    /// the quote token outside the vault is gone
    fn spent(&mut self, p: &PoolG) {
        let keys: Vec<Pubkey> = self.w.svm.ledger.keys().copied().collect();
        for k in keys {
            let a = self.w.acc(&k);
            if k != p.qv && (a.owner == TOKEN || a.owner == TOKEN22) {
                if let Some(t) = tok_of(&a) {
                    if t.mint == p.qm && t.owner != POOL_AUTHORITY {
                        let mut a = a;
                        a.data[64..72].fill(0);
                        if t.mint == WSOL {
                            a.lamports -= t.amount;
                        }
                        self.w.put(k, a);
                    }
                }
            }
        }
    }
    fn withdrawals(&mut self, p: &PoolG) -> Result<(), String> {
        for partner in [true, false] {
            let i = self.i_claim(p, partner, u64::MAX, u64::MAX);
            self.must(i)?;
            let pool = self.pool(p);
            if (if partner { pool.is_partner_withdraw_surplus } else { pool.is_creator_withdraw_surplus }) == 0 {
                let i = self.i_surplus(p, partner);
                self.must(i)?;
            }
            let bit = if partner { 4 } else { 2 };
            if pool.migration_fee_withdraw_status & bit == 0 {
                let i = self.i_migration_fee(p, !partner as u8);
                self.must(i)?;
            }
        }
        let op = self.operator(0);
        let i = self.i_claim_protocol(p, u64::MAX, u64::MAX, op);
        self.must(i)
    }

    pub fn operators(&mut self) {
        match self.r.below(8) {
            0..=2 => {
                let who = self.r.key();
                let perm = *self.r.pick(&[0u128, 1, 2, 3, 4, 5, 8, 255, 256, 1 << 64, u128::MAX]);
                let admin = match self.r.below(6) {
                    0 => self.user(),
                    1 => self.ops.first().map(|o| o.0).unwrap_or_default(),
                    x => ADMINS[(x % 2) as usize],
                };
                self.w.put(who, Acc { lamports: SOL, ..Default::default() });
                let i = self.i_create_operator(who, perm, admin);
                if self.run1(i).ok {
                    self.ops.push((who, perm as u8));
                }
            }
            3 | 4 => {
                if self.ops.len() > 3 || self.r.chance(30) {
                    let i = self.r.below(self.ops.len().max(1) as u64) as usize;
                    let Some((who, _)) = self.ops.get(i).copied() else { return };
                    let admin = if self.r.chance(80) { ADMINS[self.r.below(2) as usize] } else { self.user() };
                    let to = self.user();
                    let ixn = ix("close_operator_account", (), vec![w(operator_pda(&who)), rs(admin), w(to)], false);
                    if self.run1(ixn).ok {
                        self.ops.retain(|o| o.0 != who);
                        // a closed operator has no rights
                        if let Some(p) = self.pick_pool() {
                            let i = self.i_claim_protocol(&p, u64::MAX, u64::MAX, who);
                            self.w.exec(&[i]);
                        }
                        if self.ops.len() < 2 {
                            let i = self.i_create_operator(who, 3, ADMINS[0]);
                            if self.run1(i).ok {
                                self.ops.push((who, 3));
                            }
                        }
                    }
                }
            }
            5 => {
                let (k, who) = (self.r.key(), self.r.key());
                let mut d = acc_disc("ClaimFeeOperator").to_vec();
                d.extend_from_slice(who.as_ref());
                d.resize(168, 0);
                self.w.put(k, Acc { lamports: 2_060_160, data: d, owner: DBC, executable: false });
                let admin = if self.r.chance(80) { ADMINS[self.r.below(2) as usize] } else { self.user() };
                let to = self.user();
                let i = ix("close_claim_protocol_fee_operator", (), vec![w(k), w(to), rs(admin)], true);
                self.run1(i);
            }
            _ => {
                // every operator on every operator-only instruction
                let Some(p) = self.pick_pool() else { return };
                let Some((who, _)) = (!self.ops.is_empty()).then(|| *self.r.pick(&self.ops)) else { return };
                let i = match self.r.below(3) {
                    0 => self.i_claim_protocol(&p, u64::MAX, u64::MAX, who),
                    1 => {
                        let base = self.r.chance(50);
                        self.i_zap(&p, base, u64::MAX, who)
                    }
                    _ => ix(
                        "claim_protocol_pool_creation_fee",
                        (),
                        vec![r(p.config), w(p.key), r(operator_pda(&who)), rs(who), w(TREASURY)],
                        true,
                    ),
                };
                self.run1(i);
            }
        }
    }

    pub fn metadata(&mut self) {
        let max = *self.r.pick(&[30, 60, 300, 900]);
        let m = MetaParams { padding: MetaPad([self.r.next() as u8; 96]), name: self.text(max), website: self.text(max), logo: self.text(max) };
        let payer = self.users[0];
        if self.r.chance(50) {
            let who = if self.r.chance(50) { *self.r.pick(&self.partners) } else { self.user() };
            let i = ix(
                "create_partner_metadata",
                &m,
                vec![w(pda(&[b"partner_metadata", who.as_ref()], &DBC)), ws(payer), rs(who), r(SYSTEM)],
                true,
            );
            self.run1(i);
        } else if let Some(p) = self.pick_pool() {
            let who = self.creator(&p);
            let i = ix(
                "create_virtual_pool_metadata",
                &m,
                vec![w(p.key), w(pda(&[b"virtual_pool_metadata", p.key.as_ref()], &DBC)), rs(who), ws(payer), r(SYSTEM)],
                true,
            );
            self.run1(i);
        }
    }

    /// creation and first trades in one transaction
    pub fn bundle(&mut self) {
        if self.cfgs.is_empty() {
            return;
        }
        let firsts: Vec<Pubkey> =
            self.cfgs.iter().copied().filter(|k| self.w.config(k).map(|c| c.first_swap_min_fee == 1).unwrap_or(false)).collect();
        let cfg = if !firsts.is_empty() && self.r.chance(80) { *self.r.pick(&firsts) } else { *self.r.pick(&self.cfgs) };
        let Some(c) = self.w.config(&cfg) else { return };
        let bm = self.r.key();
        let creator = *self.r.pick(&self.creators);
        let np = self.names();
        let p = self.pool_of(cfg, &c, bm);
        let init = self.i_init(cfg, &c, bm, creator, &np);
        let user = self.user();
        let rem = c.migration_quote_threshold;
        // the token account comes into being in between; it is there already
        let bt = ata(&user, &bm, &p.bp);
        self.w.put(bt, Acc { lamports: 2_039_280, data: tok_bytes(&bm, &user, 0, None), owner: p.bp, executable: false });
        let qt = self.ta(&user, &c.quote());
        self.fund(&qt, rem.saturating_mul(3).min(1 << 60));
        let mut amount = {
            let k = 2 + self.r.below(30);
            self.r.range(1, (rem / k).max(1))
        };
        if self.r.chance(5) {
            amount = 0;
        } else if self.r.chance(12) {
            amount = self.r.range(1, 40);
        }
        let mode = *self.r.pick(&[0u8, 0, 0, 1, 2]);
        let a1 = if mode == 2 { u64::MAX } else { 0 };
        let rf = if self.r.chance(15) {
            let (_, on_base) = fees_on(&c, Dir::Buy);
            let u = self.users[0];
            if on_base {
                None
            } else {
                Some(self.ta(&u, &c.quote()))
            }
        } else {
            None
        };
        let sysvar = self.r.chance(88);
        let mk = |g: &mut Gen, p: &PoolG, rf: Option<Pubkey>, sysvar: bool| {
            let v1 = g.r.chance(40);
            g.i_swap_raw(p, user, bt, qt, Dir::Buy, mode, amount, a1, rf, v1, sysvar)
        };
        let swap = mk(self, &p, rf, sysvar);
        let created = init.clone();
        let noop = Instruction { program_id: NOOP, accounts: vec![r(user)], data: vec![1] };
        let filler = noop.clone();
        let touch = Instruction { program_id: NOOP, accounts: vec![w(p.key), r(user)], data: vec![1] };
        let ataix = Instruction { program_id: ATA, accounts: vec![w(bt), r(user), r(bm)], data: vec![] };
        let kind = self.r.below(19);
        self.w.c(format!("bundle:{kind}"));
        let txs: Vec<Vec<Instruction>> = match kind {
            0..=4 => vec![vec![init, swap]],
            5 => vec![vec![noop, init, ataix, swap]],
            6 => vec![vec![init], vec![swap]],
            7 => {
                let s2 = mk(self, &p, rf, sysvar);
                vec![vec![init, swap, s2]]
            }
            8 => vec![vec![init, proxy_ix(PROXY, &[swap])]],
            9 => vec![vec![proxy_ix(PROXY, &[init, swap])]],
            10 => {
                // another pool's creation
                let bm2 = self.r.key();
                let i2 = self.i_init(cfg, &c, bm2, creator, &np);
                let p2 = self.pool_of(cfg, &c, bm2);
                self.pools.push(p2);
                vec![vec![init], vec![i2, swap]]
            }
            11 => vec![vec![proxy_ix(PROXY, &[init]), swap]],
            12 => vec![vec![init, touch, swap]],
            13 => {
                let s2 = mk(self, &p, None, true);
                vec![vec![init, swap], vec![s2]]
            }
            16..=18 => {
                // bought, sold again in whole or in part, bought again
                let (i0, s0) = (init.clone(), swap.clone());
                let got = self.w.fork(|w| {
                    w.exec(&[i0, s0]);
                    w.tokens(&bt)
                });
                let mut t = vec![init, swap];
                if got > 0 {
                    let n = if self.r.chance(70) { got } else { self.r.range(1, got) };
                    let m = if self.r.chance(80) { 0 } else { 1 };
                    let rf = if self.r.chance(80) { None } else { rf };
                    let v1 = self.r.chance(40);
                    t.push(self.i_swap_raw(&p, user, bt, qt, Dir::Sell, m, n, 0, rf, v1, sysvar));
                    t.push(mk(self, &p, rf, sysvar));
                }
                vec![t]
            }
            14 => {
                // two pools in one transaction
                let bm2 = self.r.key();
                let i2 = self.i_init(cfg, &c, bm2, creator, &np);
                let p2 = self.pool_of(cfg, &c, bm2);
                self.pools.push(p2);
                vec![vec![init, i2, swap]]
            }
            _ => {
                // a look-alike creation of another program
                let fake = Instruction { program_id: NOOP, accounts: init.accounts.clone(), data: init.data.clone() };
                vec![vec![init], vec![fake, swap]]
            }
        };
        for mut t in txs {
            if self.r.chance(12) {
                self.padded(&mut t, &filler);
            }
            if self.r.chance(8) {
                self.forged(&t, &[created.clone()]);
            }
            self.run(t);
        }
        if self.w.svm.ledger.get(&p.key).map(|a| a.owner == DBC).unwrap_or(false) {
            self.pools.push(p);
            self.cur = self.pools.len() - 1;
        }
        let w = &self.w;
        self.pools.retain(|p| w.svm.ledger.get(&p.key).map(|a| a.owner == DBC).unwrap_or(false));
    }

    /// the same transaction, with an account of somebody's own instead of the instructions sysvar: it tells a story of
    /// the transaction that suits the trader
    fn forged(&mut self, t: &[Instruction], before: &[Instruction]) {
        let is_swap = |i: &Instruction| {
            i.program_id == DBC && i.accounts.last().map(|m| m.pubkey == SYSVAR_IX).unwrap_or(false)
        };
        if !t.iter().any(is_swap) {
            return;
        }
        let fake = self.r.key();
        let mut t = t.to_vec();
        let k = match self.r.below(3) {
            0 => t.iter().position(is_swap).unwrap(),
            _ => t.iter().rposition(is_swap).unwrap(),
        };
        let mut story: Vec<Instruction> = match self.r.below(3) {
            0 => t[..k].to_vec(),
            1 => vec![],
            _ => before.to_vec(),
        };
        story.push(t[k].clone());
        let now = story.len() - 1;
        let mut data = crate::svm::instructions_data(&story);
        anchor_lang::solana_program::sysvar::instructions::store_current_index(&mut data, now as u16);
        let owner = *self.r.pick(&[NOOP, DBC, SYSTEM, anchor_lang::solana_program::sysvar::ID]);
        for (n, i) in t.iter_mut().enumerate() {
            if n == k || (is_swap(i) && self.r.chance(50)) {
                i.accounts.last_mut().unwrap().pubkey = fake;
            }
        }
        self.w.c("forged sysvar");
        self.w.fork(|w| {
            w.put(fake, Acc { lamports: SOL, data, owner, executable: false });
            w.exec(&t);
        });
    }

    /// a long transaction: instructions that have nothing to do with the rest, anywhere in it
    fn padded(&mut self, t: &mut Vec<Instruction>, with: &Instruction) {
        let n = self.r.log(1, 50);
        let at = if self.r.chance(60) { Some(self.r.below(t.len() as u64 + 1) as usize) } else { None };
        for _ in 0..n {
            let k = at.unwrap_or_else(|| self.r.below(t.len() as u64 + 1) as usize);
            t.insert(k, with.clone());
        }
        self.w.c("padded transaction");
    }

    #[allow(clippy::too_many_arguments)]
    pub fn i_swap_raw(
        &mut self,
        p: &PoolG,
        user: Pubkey,
        bt: Pubkey,
        qt: Pubkey,
        dir: Dir,
        mode: u8,
        a0: u64,
        a1: u64,
        rf: Option<Pubkey>,
        v1: bool,
        sysvar: bool,
    ) -> Instruction {
        let (i, o) = if dir == Dir::Buy { (qt, bt) } else { (bt, qt) };
        let mut a = vec![
            r(POOL_AUTHORITY),
            r(p.config),
            w(p.key),
            w(i),
            w(o),
            w(p.bv),
            w(p.qv),
            r(p.bm),
            r(p.qm),
            rs(user),
            r(p.bp),
            r(p.qp),
            rf.map(w).unwrap_or(r(DBC)),
            r(event_authority()),
            r(DBC),
        ];
        if sysvar {
            a.push(r(SYSVAR_IX));
        }
        if v1 && mode == 0 {
            ix("swap", (a0, a1), a, false)
        } else {
            ix("swap2", (a0, a1, mode), a, false)
        }
    }

    /// transactions with several swaps
    #[allow(clippy::cognitive_complexity)]
    pub fn layout(&mut self) {
        let Some(p) = self.pick_pool() else { return };
        let other = self.r.pick(&self.pools).clone();
        let user = self.user();
        let pool = self.pool(&p);
        let rem = p.c.migration_quote_threshold.saturating_sub(pool.quote_reserve);
        let k_ = 10 + self.r.below(100);
        let a = self.r.range(1, (rem / k_).max(1));
        let qt = self.ta(&user, &p.qm);
        self.fund(&qt, a.saturating_mul(4).min(1 << 60));
        let qt2 = self.ta(&user, &other.qm);
        self.fund(&qt2, a.saturating_mul(4).min(1 << 60));
        let mut s = |g: &mut Gen, p: &PoolG, dir: Dir, sysvar: bool| {
            let (bt, v1) = (g.ta(&user, &p.bm), g.r.chance(50));
            let have = g.w.tokens(&bt);
            let a = if dir == Dir::Buy { a } else { (have / 7).max(1) };
            g.i_swap(p, user, dir, 0, a, 0, None, v1, sysvar)
        };
        let kind = self.r.below(34);
        self.w.c(format!("layout:{}", kind.min(17)));
        let (b1, b2, b3) = (s(self, &p, Dir::Buy, true), s(self, &p, Dir::Buy, true), s(self, &p, Dir::Buy, true));
        let (s1, o1) = (s(self, &p, Dir::Sell, true), s(self, &other, Dir::Buy, true));
        let nosys = s(self, &p, Dir::Buy, false);
        let touch = Instruction { program_id: NOOP, accounts: vec![r(p.key)], data: vec![] };
        let noop = Instruction { program_id: NOOP, accounts: vec![r(user)], data: vec![] };
        let filler = noop.clone();
        let claim = self.i_claim(&p, true, u64::MAX, u64::MAX);
        let mut tx: Vec<Instruction> = match kind {
            0 => vec![b1, b2],
            1 => vec![b1, b2, b3],
            2 => vec![s1, b1],
            3 => vec![b1, s1],
            4 => vec![o1, b1],
            5 => vec![touch, b1],
            6 => vec![noop, b1],
            7 => vec![b1, touch],
            8 => vec![proxy_ix(PROXY, &[b1])],
            9 => vec![proxy_ix(PROXY, &[b1, b2])],
            10 => vec![proxy_ix(PROXY, &[o1, b1])],
            11 => vec![proxy_ix(PROXY, &[proxy_ix(PROXY2, &[b1])])],
            12 => vec![proxy_ix(PROXY, &[b1]), b2],
            13 => vec![b1, proxy_ix(PROXY, &[b2])],
            14 => vec![nosys],
            15 => vec![claim, b1],
            16 => vec![proxy_ix(PROXY, &[s1, b1])],
            _ => {
                // any arrangement of a few of these, among instructions that have nothing to do with the pool
                let mut swaps = vec![b1, b2, b3, s1, nosys, o1];
                let mut piece = |g: &mut Gen, swap: bool| -> Instruction {
                    if swap && !swaps.is_empty() {
                        let k = if g.r.chance(70) { 0 } else { g.r.below(swaps.len() as u64) as usize };
                        return swaps.remove(k);
                    }
                    match g.r.below(10) {
                        0 => {
                            // names the pool far down its list
                            let mut i = noop.clone();
                            i.accounts = (0..g.r.below(14)).map(|_| r(g.r.key())).collect();
                            i.accounts.push(r(p.key));
                            i
                        }
                        1 => o_noop(g, &other),
                        2 => claim.clone(),
                        _ => noop.clone(),
                    }
                };
                let n = if self.r.chance(8) { self.r.log(6, 40) } else { 1 + self.r.below(6) };
                let at: Vec<u64> = (0..1 + self.r.below(2)).map(|_| self.r.below(n)).collect();
                let mut tx = vec![];
                for i in 0..n {
                    let swap = at.contains(&i);
                    if self.r.chance(35) {
                        let m = if self.r.chance(6) { self.r.log(5, 20) } else { 1 + self.r.below(5) };
                        let inner: Vec<u64> = (0..1 + self.r.below(2)).map(|_| self.r.below(m)).collect();
                        let v: Vec<Instruction> = (0..m).map(|j| piece(self, swap && inner.contains(&j))).collect();
                        let v = if self.r.chance(10) { vec![proxy_ix(PROXY2, &v)] } else { v };
                        tx.push(proxy_ix(PROXY, &v));
                    } else {
                        tx.push(piece(self, swap));
                    }
                }
                tx
            }
        };
        if kind < 17 && self.r.chance(12) {
            self.padded(&mut tx, &filler);
        }
        if self.r.chance(8) {
            self.forged(&tx, &[]);
        }
        self.w.exec(&tx);
    }

    pub fn config_fuzz(&mut self) {
        let q = *self.r.pick(&self.quotes);
        let info = QuoteInfo { key: q.mint.to_bytes(), supported: q.good, is_2022: q.prog == TOKEN22 };
        let bias = self.f.bias.clone();
        let mut p = if self.r.chance(75) {
            good_params(&mut self.r, &bias, &QuoteInfo { supported: true, ..info })
        } else {
            let mut p = try_params(&mut self.r, &bias, info.is_2022);
            if self.r.chance(40) {
                add_supply(&mut self.r, &mut p, &info);
            }
            p
        };
        let key0 = p.clone();
        for _ in 0..6 {
            p = key0.clone();
            let mut edge = false;
            for _ in 0..1 + self.r.below(10) / 8 {
                edge |= nudge(&mut self.r, &mut p) == "supply edge";
            }
            if self.r.chance(15) {
                p = key0.clone();
            }
            let key = self.r.key();
            let partner = *self.r.pick(&self.partners);
            let leftover = if self.r.chance(6) { Pubkey::default() } else { *self.r.pick(&self.partners) };
            let i = self.i_create_config(key, &p, q.mint, partner, leftover);
            let o = self.run1(i);
            if o.ok {
                // an accepted one can create pools that finish
                if edge {
                    let over = derive_config(&p, &info, [1; 32], [2; 32]).map(|c| initial_supply(&c).is_err()).unwrap_or(false);
                    self.w.c(if over { "config:supply over 64 bits" } else { "config:supply near 64 bits" });
                }
                if self.r.chance(if edge { 80 } else { 35 }) {
                    let n = self.pools.len();
                    if let Some(i) = self.new_pool_of(key) {
                        if self.r.chance(60) {
                            self.settle(i);
                        }
                    }
                    self.pools.truncate(n);
                    self.cur = 0;
                } else if self.cfgs.len() < 4 {
                    self.cfgs.push(key);
                }
            }
        }
    }

    /// bytes and accounts that make no sense
    pub fn garbage(&mut self) {
        let name = *self.r.pick(ALL_IX);
        let n = self.r.below(40) as usize;
        let mut accounts = vec![];
        let known: Vec<Pubkey> = self.w.svm.ledger.keys().copied().collect();
        let mut known = known;
        known.sort();
        for _ in 0..n {
            let key = if self.r.chance(85) { *self.r.pick(&known) } else { self.r.key() };
            accounts.push(AccountMeta { pubkey: key, is_signer: self.r.chance(40), is_writable: self.r.chance(60) });
        }
        let mut data = if self.r.chance(90) { ix_disc(name).to_vec() } else { vec![] };
        let len = match self.r.below(3) {
            0 => self.r.below(16),
            _ => self.r.below(900),
        };
        for _ in 0..len {
            let x = match self.r.below(3) {
                0 => 0,
                1 => 255,
                _ => self.r.next() as u8,
            };
            data.push(x);
        }
        self.w.c("garbage");
        let i = Instruction { program_id: DBC, accounts, data };
        let before = self.w.svm.ledger.clone();
        let o = self.w.exec(&[i]);
        if o.ok {
            // anything accepted here is judged by the prediction; without one it is undone
            self.w.svm.ledger = before;
        }
    }

    /// a well-formed instruction with random bytes in an account of the program
    pub fn corrupt(&mut self) {
        let Some(p) = self.pick_pool() else { return };
        let (led, pr, cf) = (self.w.svm.ledger.clone(), self.w.pools.clone(), self.w.configs.clone());
        let sdk = self.w.sdk;
        self.w.sdk = false;
        let key = *self.r.pick(&[p.key, p.config]);
        let n = 1 + self.r.below(6);
        if let Some(a) = self.w.svm.ledger.get_mut(&key) {
            for _ in 0..n {
                let i = 8 + self.r.below(a.data.len() as u64 - 8) as usize;
                a.data[i] = *self.r.pick(&[0, 1, 2, 3, 127, 128, 254, 255]);
            }
        }
        let user = self.user();
        let mut v = vec![];
        for (dir, mode) in [(Dir::Buy, 0u8), (Dir::Sell, 0), (Dir::Buy, 2), (Dir::Sell, 2), (Dir::Buy, 1)] {
            let a = self.r.log(1, u64::MAX);
            v.push(self.i_swap(&p, user, dir, mode, a, if mode == 2 { u64::MAX } else { 0 }, None, false, true));
        }
        v.push(self.i_claim(&p, true, u64::MAX, u64::MAX));
        v.push(self.i_surplus(&p, true));
        v.push(self.i_migration_fee(&p, 0));
        let i = self.r.pick(&v).clone();
        // only memory safety and panics are judged here
        let out = self.w.svm.execute(&[i.clone()]);
        self.w.c("corrupt");
        if let Some(m) = out.panic {
            let w: String = m.chars().take(160).collect();
            self.w.c(format!("corrupt:panic:{w}"));
        }
        self.w.sdk = sdk;
        self.w.svm.ledger = led;
        self.w.pools = pr;
        self.w.configs = cf;
    }

    pub fn step(&mut self) {
        let wts: Vec<u32> = self.f.weights.iter().map(|x| x.1).collect();
        let op = self.f.weights[self.r.weighted(&wts)].0;
        self.act(op);
    }

    pub fn act(&mut self, op: Op) {
        let lim = |g: &mut Gen, have: u64| match g.r.below(5) {
            0 => have,
            1 => have.saturating_sub(1),
            2 => g.r.range(0, have),
            _ => u64::MAX,
        };
        match op {
            Buy | Sell | BuyOut | SellOut | Partial | Complete => self.trade(op),
            Time => self.advance(),
            NewPool => {
                if self.pools.len() < 4 {
                    self.new_pool();
                }
            }
            NewConfig => {
                if self.cfgs.len() < 4 {
                    self.new_config();
                }
            }
            Bundle => self.bundle(),
            Layout => self.layout(),
            Operators => self.operators(),
            Metadata => self.metadata(),
            ConfigFuzz => self.config_fuzz(),
            OldTerms => self.old_terms(),
            Garbage => {
                self.garbage();
                self.corrupt();
            }
            RoundTrip => self.round_trip(),
            Op::Split => self.split(),
            Limits => self.limits(),
            Schedule => self.schedule(),
            FeeProbe => self.fee_probe(),
            _ => {
                let Some(p) = self.pick_pool() else { return };
                let n = self.cur;
                let pool = self.pool(&p);
                match op {
                    ClaimPartner | ClaimCreator => {
                        let partner = op == ClaimPartner;
                        let (hb, hq) = if partner {
                            (pool.partner_base_fee, pool.partner_quote_fee)
                        } else {
                            (pool.creator_base_fee, pool.creator_quote_fee)
                        };
                        let (mb, mq) = (lim(self, hb), lim(self, hq));
                        let i = self.i_claim(&p, partner, mb, mq);
                        self.run1(i);
                    }
                    ClaimProtocol => {
                        let (mb, mq) = (lim(self, pool.protocol_base_fee), lim(self, pool.protocol_quote_fee));
                        let o = self.operator(0);
                        let i = self.i_claim_protocol(&p, mb, mq, o);
                        self.run1(i);
                    }
                    Zap => {
                        let base = self.r.chance(50);
                        let m = lim(self, if base { pool.protocol_base_fee } else { pool.protocol_quote_fee });
                        let o = self.operator(1);
                        let i = self.i_zap(&p, base, m, o);
                        let refuse = self.r.chance(10);
                        if refuse {
                            protocol_zap::utils::ANSWER
                                .with(|a| *a.borrow_mut() = Err(protocol_zap::error::ProtozolZapError::InvalidZapOutParameters));
                        }
                        self.run1(i);
                        protocol_zap::utils::ANSWER.with(|a| *a.borrow_mut() = Ok(()));
                    }
                    CreationFee => {
                        let partner = self.r.chance(50);
                        let i = self.i_creation_fee(&p, partner);
                        self.run1(i);
                    }
                    Surplus => {
                        let partner = self.r.chance(50);
                        let i = self.i_surplus(&p, partner);
                        self.run1(i);
                    }
                    MigrationFee => {
                        let f = if self.r.chance(95) { self.r.below(2) as u8 } else { self.r.below(256) as u8 };
                        let i = self.i_migration_fee(&p, f);
                        self.run1(i);
                    }
                    Leftover => {
                        let i = self.i_leftover(&p);
                        self.run1(i);
                    }
                    Transfer => {
                        let to = match self.r.below(6) {
                            0 => self.creator(&p),
                            1 => p.c.partner(),
                            _ => *self.r.pick(&self.creators),
                        };
                        if self.pool(&p).migration_progress == 3 && p.c.migration_option == 0 && self.r.chance(50) {
                            // with some of the LP locked and released before
                            let mut order = [(true, true), (true, false), (false, true), (false, false)];
                            self.r.shuffle(&mut order);
                            let n_ops = self.r.below(5) as usize;
                            for (pa, lo) in order.into_iter().take(n_ops) {
                                if let Some(i) = self.i_v1_lp(n, pa, lo) {
                                    self.run1(i);
                                }
                            }
                        }
                        let mut i = self.i_transfer(&p, to);
                        if i.accounts.len() == 7 && self.r.chance(25) {
                            let a = self.w.acc(&i.accounts[6].pubkey);
                            if read_v1_meta(&a).is_some() {
                                i.accounts[6].pubkey = self.other_meta(a);
                            }
                        }
                        self.run1(i);
                    }
                    Locker => {
                        let i = self.i_locker(&p);
                        let f = self.fault(&["escrow"]);
                        if f.kind != FaultKind::None {
                            let j = i.clone();
                            self.w.fork(|w| {
                                w.exec_fault(&[j], f);
                            });
                        }
                        self.run1(i);
                    }
                    V1Meta => {
                        let i = self.i_v1_meta(&p);
                        self.run1(i);
                    }
                    Migrate => {
                        if self.r.chance(10) {
                            // an instruction that is there for old clients only
                            let payer = self.users[2];
                            let meta = pda(&[b"damm_v2", p.key.as_ref()], &DBC);
                            let mut i = ix(
                                "migration_damm_v2_create_metadata",
                                (),
                                vec![r(p.key), r(p.config), w(meta), ws(payer), r(SYSTEM)],
                                true,
                            );
                            if self.r.chance(30) {
                                let k = self.r.below(7) as usize;
                                i.accounts[k].pubkey = self.r.key();
                            }
                            self.w.exec(&[i]);
                        }
                        if self.r.chance(8) {
                            // towards the other exchange
                            let i = if p.c.migration_option == 0 { self.i_v2_migrate(n, true) } else { self.i_v1_migrate(n) };
                            self.w.exec(&[i]);
                            self.pools[n].v1 = p.v1.clone();
                            self.pools[n].v2 = p.v2.clone();
                        }
                        self.migrate(n);
                    }
                    Lp => {
                        let (pa, lo) = (self.r.chance(50), self.r.chance(50));
                        if let Some(i) = self.i_v1_lp(n, pa, lo) {
                            let f = self.fault(&["v1_lock"]);
                            if f.kind != FaultKind::None {
                                let j = i.clone();
                                self.w.fork(|w| {
                                    w.exec_fault(&[j], f);
                                });
                            }
                            self.run1(i);
                        }
                    }
                    Settle => self.settle(n),
                    Donate => {
                        let base = self.r.chance(40);
                        let (v, m) = if base { (p.bv, p.bm) } else { (p.qv, p.qm) };
                        let _ = m;
                        let n = self.r.log(1, 1 << 30);
                        if !base {
                            let have = self.w.tokens(&v);
                            if have < u64::MAX >> 1 {
                                self.fund(&v, have + n);
                                let n = self.w.tokens(&v) - have;
                                if let Some(r) = self.w.pools.get_mut(&p.key) {
                                    r.excess_q += n as i128;
                                }
                                self.w.c("donation:quote");
                            }
                        } else {
                            // base can only come from a holder
                            let u = self.user();
                            let t = self.ta(&u, &p.bm);
                            let have = self.w.tokens(&t);
                            let n = n.min(have);
                            if n > 0 {
                                let vb = self.w.tokens(&v);
                                let set = |w: &mut World, k: &Pubkey, x: u64| {
                                    w.svm.ledger.get_mut(k).unwrap().data[64..72].copy_from_slice(&x.to_le_bytes())
                                };
                                set(&mut self.w, &t, have - n);
                                set(&mut self.w, &v, vb + n);
                                if let Some(r) = self.w.pools.get_mut(&p.key) {
                                    r.excess_b += n as i128;
                                    if r.stage == 3 {
                                        r.donated_b += n;
                                    }
                                }
                                self.w.c("donation:base");
                            }
                        }
                    }
                    MintMore => {
                        // the mint authority is used by whoever holds it
                        let m = self.w.acc(&p.bm);
                        let Some(mv) = mint_of(&m) else { return };
                        if mv.authority.is_some() && mv.supply < 1 << 62 {
                            let u = self.user();
                            let t = self.ta(&u, &p.bm);
                            let n = self.r.log(1, 1 << 50);
                            let have = self.w.tokens(&t);
                            self.fund(&t, have.saturating_add(n));
                            let n = self.w.tokens(&t) - have;
                            let d = &mut self.w.svm.ledger.get_mut(&p.bm).unwrap().data;
                            d[36..44].copy_from_slice(&(mv.supply + n).to_le_bytes());
                            if let Some(r) = self.w.pools.get_mut(&p.key) {
                                r.supply += n;
                            }
                            self.w.c("minted by authority");
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    /// the same trade at many moments of the schedule, on copies
    pub fn schedule(&mut self) {
        let Some(p) = self.pick_pool() else { return };
        let pool = self.pool(&p);
        if complete(&p.c, &pool) {
            return;
        }
        let user = self.user();
        let qt = self.ta(&user, &p.qm);
        self.ta(&user, &p.bm);
        let rem = p.c.migration_quote_threshold - pool.quote_reserve;
        let k_ = 3 + self.r.below(50);
        let a = self.r.range(1, (rem / k_).max(1));
        self.fund(&qt, a.min(1 << 61));
        let i = self.i_swap(&p, user, Dir::Buy, 0, a, 0, None, false, true);
        let act = pool.activation_point;
        let f = p.c.second_factor.max(1);
        let n = p.c.first_factor as u64;
        let mut at: Vec<u64> = vec![act];
        let ends: &[u64] = if p.c.base_fee_mode == 2 { &[1] } else { &[0, 1, 2, 3] };
        for e in ends {
            let per = match e {
                0 => 1,
                1 => n.max(1),
                2 => self.r.range(1, n.max(1)),
                _ => n.saturating_add(self.r.below(1000)),
            };
            let per = if p.c.base_fee_mode == 2 { 1 } else { per };
            let t = act.saturating_add(per.saturating_mul(f).min(1 << 34));
            at.extend([t.saturating_sub(1), t, t + 1]);
        }
        at.push(act + (1 << 36));
        at.sort();
        at.dedup();
        let now = self.now(&p.c);
        let mut last: Option<(u64, u128)> = None;
        for t in at {
            if t < now {
                continue;
            }
            let ty = p.c.activation_type;
            let i = i.clone();
            let o = self.w.fork(|w| {
                if ty == 0 {
                    w.svm.clock.slot = t;
                } else {
                    w.svm.clock.unix_timestamp = t as i64;
                }
                w.exec(&[i])
            });
            if let (true, Some(e)) = (o.ok, o.events.iter().filter_map(swap_ev).next()) {
                // rises never as time passes, in parts per billion of the fee-bearing amount
                let fee = e.trading as u128 + e.protocol as u128 + e.referral_fee as u128;
                if p.c.dyn_init == 0 && p.c.collect_fee_mode == 0 && p.c.base_fee_mode < 2 {
                    if let Some((_, prev)) = last {
                        if fee > prev {
                            self.w.report(&["C05"], format!("fee of {a} rose from {prev} to {fee} at {t}"));
                        }
                    }
                    last = Some((t, fee));
                }
                self.w.c("schedule:probed");
            }
        }
    }

    /// many amounts at one moment, on copies
    pub fn fee_probe(&mut self) {
        let Some(p) = self.pick_pool() else { return };
        let pool = self.pool(&p);
        if complete(&p.c, &pool) {
            return;
        }
        let user = self.user();
        let qt = self.ta(&user, &p.qm);
        let bt = self.ta(&user, &p.bm);
        self.fund(&qt, 1 << 61);
        for _ in 0..6 {
            let dir = if self.r.chance(75) { Dir::Buy } else { Dir::Sell };
            let mode = self.r.below(3) as u8;
            let rf = self.referral(&p, dir);
            let a = match (dir, mode) {
                (Dir::Buy, 2) => {
                    let x = self.buy_amount(&p, &pool).clamp(1, 1 << 60);
                    self.quote(&p, Dir::Buy, Mode::Partial, x, false).map(|q| q.out).unwrap_or(1)
                }
                (Dir::Sell, 2) => self.r.log(1, pool.quote_reserve.max(1)),
                (Dir::Buy, _) => self.buy_amount(&p, &pool),
                _ => {
                    let have = self.w.tokens(&bt);
                    self.sell_amount(have)
                }
            };
            let i = self.i_swap(&p, user, dir, mode, a, if mode == 2 { u64::MAX } else { 0 }, rf, false, true);
            self.w.fork(|w| {
                w.exec(&[i]);
            });
        }
    }

    /// a long life: some hundreds of small trades and claims on one pool, then an ordinary history
    pub fn marathon(&mut self) {
        let own = std::mem::replace(
            &mut self.f.weights,
            vec![(Buy, 60), (Sell, 20), (SellOut, 6), (Time, 14), (ClaimPartner, 4), (ClaimCreator, 4), (ClaimProtocol, 4), (Transfer, 1)],
        );
        self.pools.truncate(1);
        self.cur = 0;
        self.small = true;
        for _ in 0..600 {
            self.step();
            if self.w.viol.len() > 60 {
                return;
            }
        }
        self.small = false;
        self.f.weights = own;
        self.w.c("marathon");
        if self.pools.first().cloned().is_some_and(|p| !complete(&p.c, &self.pool(&p))) {
            self.w.c("marathon: still trading after 600 steps");
        }
        self.f.late = 80;
    }

    /// one history
    pub fn history(&mut self) {
        let late = self.r.below(100) < self.f.late;
        if late && !self.pools.is_empty() {
            for _ in 0..self.r.below(6) {
                self.act(Buy);
                if self.r.chance(30) {
                    self.act(Sell);
                }
            }
            let n = self.cur.min(self.pools.len() - 1);
            self.finish(n);
            if self.r.chance(25) {
                self.aged_surplus(n);
            }
            if self.r.chance(60) && self.pool(&self.pools[n].clone()).migration_progress == 1 {
                self.act(Locker);
            }
            if self.r.chance(40) {
                self.migrate(n);
            }
        }
        for _ in 0..self.f.steps {
            self.step();
            if !self.w.viol.is_empty() && self.w.viol.len() > 60 {
                break;
            }
        }
    }
}


/// an instruction of another program that names another pool
fn o_noop(g: &mut Gen, p: &PoolG) -> Instruction {
    let u = g.user();
    Instruction { program_id: NOOP, accounts: vec![r(p.key), r(u)], data: vec![3] }
}
/// what rounding may leave of the quote after everything was withdrawn
pub fn settle_dust(c: &Config) -> i128 {
    // base tokens are whole, so what the quote side of the migrated liquidity loses to rounding is what a
    // unit or two of base is worth at the final price
    let price = (b(c.migration_sqrt_price) * b(c.migration_sqrt_price)) >> 128u32;
    to128(&((price + 1u32) * 2u32 + 2u32)).ok().and_then(|x| i128::try_from(x).ok()).unwrap_or(i128::MAX)
}

/// upper bound (floor of the exact value) of what the curve gives for an input, from a price
pub fn exact_out(c: &Config, from: u128, dir: Dir, input: u128) -> B {
    let sh = 256u32;
    // prices scaled by 2^sh
    let mut left = b(input);
    let mut pts: Vec<(u128, u128, u128)> = vec![];
    let mut p = c.sqrt_start_price;
    for (pp, l) in c.points() {
        pts.push((p, pp, l));
        p = pp;
    }
    let mut out_q = B::zero(); // scaled by 2^(128+sh)
    let mut out_b = B::zero(); // scaled by 2^sh, rounded up
    match dir {
        Dir::Buy => {
            let mut cur = b(from) << sh;
            for (_, hi, l) in pts {
                let top = b(hi) << sh;
                if top <= cur {
                    continue;
                }
                // quote to the top, rounded down so that at least as much is left
                let cost = (&top - &cur) * l; // scaled 2^(128+sh)
                let have = &left << (128 + sh);
                let (next, done) = if cost <= have {
                    left = (have - cost) >> (128 + sh);
                    // keep the fraction in favour of the bound
                    left += 1u32;
                    (top, false)
                } else {
                    (&cur + (have / l + 1u32), true)
                };
                // base: l (next-cur) 2^sh / (next cur)
                out_b += ((&next - &cur) * l << (2 * sh)) / (&next * &cur) + 1u32;
                cur = next;
                if done {
                    break;
                }
            }
            out_b >> sh
        }
        Dir::Sell => {
            let mut cur = b(from) << sh;
            for (lo, hi, l) in pts.into_iter().rev() {
                let bot = b(lo) << sh;
                if bot >= cur || b(hi) << sh < bot {
                    continue;
                }
                // base to the bottom: l (1/bot - 1/cur) 2^sh
                let cost = ((&cur - &bot) * l << sh) / (&cur * &bot); // floor
                let (next, done) = if cost <= left {
                    left -= cost;
                    (bot, false)
                } else {
                    // 1/next = 1/cur + left/(l 2^sh)
                    let num = &cur * l << sh;
                    let den = (b(l) << sh) + &left * &cur;
                    (num / den, true)
                };
                out_q += (&cur - &next) * l;
                cur = next;
                if done {
                    break;
                }
            }
            out_q >> (128 + sh)
        }
    }
}
