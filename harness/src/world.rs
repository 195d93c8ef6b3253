//! A ledger under observation. Every transaction is predicted from the ledger and the model, executed on the real
//! program, and the outcome is compared; monitors that need no prediction watch the actual state as well.
#![allow(dead_code)]

use crate::abi::*;
use crate::ext::*;
use crate::model::*;
use crate::predict::*;
use crate::svm::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program as sp;
use num_traits::{ToPrimitive, Zero};
use sp::instruction::Instruction;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<String>,
    pub what: String,
    pub log: Vec<String>,
}

/// what is remembered of a pool besides its account
#[derive(Clone, Debug)]
pub struct PoolRec {
    pub config: Pubkey,
    pub c: Config,
    pub bm: Pubkey,
    pub qm: Pubkey,
    pub bv: Pubkey,
    pub qv: Pubkey,
    pub excess_q: i128,
    pub excess_b: i128,
    /// base donated after the migration
    pub donated_b: u64,
    /// what traders (and referrers) paid in, net
    pub net_q: i128,
    pub net_b: i128,
    pub stage: u8,
    pub supply: u64,
    /// totals paid out of the trading-fee books: partner base, quote, creator base, quote
    pub paid: [u128; 4],
    /// protocol base, quote trading fees and surplus paid
    pub paid_protocol: [u128; 2],
    pub surplus_seen: [u128; 3],
    pub migration_fee_seen: [u128; 2],
    pub completions: u32,
    pub n_swaps: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub txs: u64,
    pub ok: u64,
    pub refused: u64,
    pub accounts_compared: u64,
    pub events_compared: u64,
    pub inner_calls: u64,
    pub invariants: u64,
    pub sdk_quotes: u64,
    pub unpredicted: u64,
}

pub struct World {
    pub svm: Svm,
    pub pools: BTreeMap<Pubkey, PoolRec>,
    pub configs: BTreeMap<Pubkey, Vec<u8>>,
    pub viol: Vec<Viol>,
    pub cov: BTreeMap<String, u64>,
    /// per instruction: accepted, refused
    pub ops: BTreeMap<&'static str, (u64, u64)>,
    pub stats: Stats,
    pub log: VecDeque<String>,
    pub sdk: bool,
    /// the transaction is a hostile variation
    pub varied: bool,
    /// hashes of the distinct situations seen
    pub shapes: BTreeSet<u64>,
}

pub struct Out {
    pub ok: bool,
    pub err: Option<TxError>,
    pub expected: Result<(), Stop>,
    pub swaps: Vec<SwapNote>,
    pub events: Vec<Event>,
    pub mismatch: bool,
}

pub fn describe(ix: &Instruction) -> String {
    match ix.program_id {
        DBC => {
            let n = ix_name(&ix.data).unwrap_or("?");
            let args: String = ix.data.iter().skip(8).take(40).map(|b| format!("{b:02x}")).collect();
            format!("{n}({args})")
        }
        PROXY | PROXY2 => "proxy".to_string(),
        crate::progs::NOOP => "noop".into(),
        p => format!("program {p}"),
    }
}

fn norm(a: &Acc) -> Acc {
    let mut a = a.clone();
    if a.lamports == 0 {
        return Acc::default();
    }
    if a.owner == TOKEN || a.owner == TOKEN22 {
        let d = &mut a.data;
        if d.len() == 82 || (d.len() > 165 && d[165] == 1) {
            if d[0] == 0 {
                d[4..36].fill(0);
            }
            if d[46] == 0 {
                d[50..82].fill(0);
            }
        } else if d.len() >= 165 {
            if d[72] == 0 {
                d[76..108].fill(0);
                d[121..129].fill(0);
            }
            if d[129] == 0 {
                d[133..165].fill(0);
            }
            if d[109] == 0 {
                d[113..121].fill(0);
            }
        }
    }
    a
}

fn push<'a>(t: &mut BTreeSet<&'a str>, v: &[&'a str]) {
    for x in v {
        t.insert(x);
    }
}

pub fn refused_tags(name: &str) -> Vec<Tag> {
    let mut t: Vec<Tag> = op_tags(name).to_vec();
    match name {
        "create_locker"
        | "migrate_meteora_damm"
        | "migration_damm_v2"
        | "migrate_meteora_damm_lock_lp_token"
        | "migrate_meteora_damm_claim_lp_token"
        | "migration_meteora_damm_create_metadata"
        | "claim_trading_fee"
        | "claim_creator_trading_fee"
        | "claim_protocol_fee"
        | "partner_withdraw_surplus"
        | "creator_withdraw_surplus"
        | "withdraw_migration_fee"
        | "withdraw_leftover"
        | INIT_SPL
        | INIT_22 => t.push("C13"),
        "swap" | "swap2" => t.extend(["C01", "C08", "C10", "C13"]),
        _ => {}
    }
    if matches!(name, "create_locker" | "migrate_meteora_damm" | "migration_damm_v2") {
        t.push("C11");
    }
    t
}

fn pool_field_tags(f: &str, in_swap: bool) -> &'static [Tag] {
    match f {
        x if x.starts_with("v_") => &["C07"],
        "config" | "base_mint" | "base_vault" | "quote_vault" | "pool_type" => &["C22", "C14"],
        "creator" => &["C29", "C21"],
        "base_reserve" | "quote_reserve" => &["C01", "C02"],
        "sqrt_price" => &["C01"],
        "protocol_base_fee" | "protocol_quote_fee" => {
            if in_swap {
                &["C04", "C02"]
            } else {
                &["C28", "C02"]
            }
        }
        "partner_base_fee" | "partner_quote_fee" | "creator_base_fee" | "creator_quote_fee" => {
            if in_swap {
                &["C04", "C16", "C02"]
            } else {
                &["C16", "C02"]
            }
        }
        "activation_point" => &["C14", "C05"],
        "is_migrated" => &["C11"],
        "is_partner_withdraw_surplus" | "is_creator_withdraw_surplus" => &["C17"],
        "is_protocol_withdraw_surplus" => &["C17", "C28"],
        "migration_progress" => &["C11", "C10"],
        "is_withdraw_leftover" => &["C19"],
        "migration_fee_withdraw_status" => &["C18"],
        "m_protocol_base" | "m_protocol_quote" | "m_trading_base" | "m_trading_quote" => &["C04"],
        "finish_curve_timestamp" => &["C10", "C26"],
        "legacy_creation_fee_bits" | "creation_fee_bits" => &["C20"],
        "has_swap" => &["C09"],
        "protocol_liquidity_migration_fee_bps" => &["C28", "C14", "C23", "C25"],
        "protocol_migration_base_fee" | "protocol_migration_quote_fee" => &["C28"],
        _ => &["C14"],
    }
}

/// numbers of one EvtSwap2
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SwapEv {
    pub pool: Pubkey,
    pub dir: Dir,
    pub referral: bool,
    pub a0: u64,
    pub a1: u64,
    pub mode: u8,
    pub included: u64,
    pub excluded: u64,
    pub left: u64,
    pub out: u64,
    pub next: u128,
    pub trading: u64,
    pub protocol: u64,
    pub referral_fee: u64,
    pub reserve: u64,
}
pub fn swap_ev(e: &Event) -> Option<SwapEv> {
    let d = &e.data;
    if e.name != "EvtSwap2" || d.len() < 66 + 17 + 8 * 7 + 16 + 24 {
        return None;
    }
    let u = |o: usize| u64_at(d, o);
    Some(SwapEv {
        pool: key_at(d, 0),
        dir: if d[64] == 0 { Dir::Sell } else { Dir::Buy },
        referral: d[65] == 1,
        a0: u(66),
        a1: u(74),
        mode: d[82],
        included: u(83),
        excluded: u(91),
        left: u(99),
        out: u(107),
        next: u128_at(d, 115),
        trading: u(131),
        protocol: u(139),
        referral_fee: u(147),
        reserve: u(155),
    })
}

impl World {
    pub fn new() -> World {
        let mut svm = Svm::new(crate::progs::table());
        svm.clock.slot = 1_000_000;
        svm.clock.unix_timestamp = 1_700_000_000;
        World {
            svm,
            pools: BTreeMap::new(),
            configs: BTreeMap::new(),
            viol: vec![],
            cov: BTreeMap::new(),
            ops: BTreeMap::new(),
            stats: Stats::default(),
            log: VecDeque::new(),
            sdk: true,
            varied: false,
            shapes: BTreeSet::new(),
        }
    }
    pub fn acc(&self, k: &Pubkey) -> Acc {
        self.svm.ledger.get(k).cloned().unwrap_or_default()
    }
    pub fn put(&mut self, k: Pubkey, a: Acc) {
        self.svm.ledger.insert(k, a);
    }
    pub fn pool(&self, k: &Pubkey) -> Option<Pool> {
        let a = self.svm.ledger.get(k)?;
        (a.owner == DBC).then(|| Pool::read(&a.data)).flatten()
    }
    pub fn config(&self, k: &Pubkey) -> Option<Config> {
        let a = self.svm.ledger.get(k)?;
        (a.owner == DBC).then(|| Config::read(&a.data)).flatten()
    }
    pub fn tokens(&self, k: &Pubkey) -> u64 {
        self.svm.ledger.get(k).and_then(tok_of).map(|t| t.amount).unwrap_or(0)
    }
    pub fn c(&mut self, s: impl Into<String>) {
        *self.cov.entry(s.into()).or_default() += 1;
    }
    pub fn report(&mut self, tags: &[&str], what: String) {
        let tags: BTreeSet<String> = tags.iter().map(|t| t.to_string()).collect();
        if self.viol.len() < 200 {
            self.viol.push(Viol {
                tags: tags.into_iter().collect(),
                what,
                log: self.log.iter().cloned().collect(),
            });
        }
    }
    /// runs something on a copy of the ledger
    pub fn fork<T>(&mut self, f: impl FnOnce(&mut World) -> T) -> T {
        let (l, p, c, k) = (self.svm.ledger.clone(), self.pools.clone(), self.configs.clone(), self.svm.clock.clone());
        self.log.push_back("-- fork".into());
        let r = f(self);
        self.log.push_back("-- fork ends".into());
        self.svm.ledger = l;
        self.pools = p;
        self.configs = c;
        self.svm.clock = k;
        r
    }

    pub fn exec(&mut self, ixs: &[Instruction]) -> Out {
        self.exec_fault(ixs, Fault::default())
    }

    pub fn exec_fault(&mut self, ixs: &[Instruction], fault: Fault) -> Out {
        // message-wide privileges
        let mut pv: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in ixs.iter().flat_map(|ix| &ix.accounts) {
            let e = pv.entry(m.pubkey).or_default();
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        let ixs: Vec<Instruction> = ixs
            .iter()
            .map(|ix| {
                let mut ix = ix.clone();
                for m in ix.accounts.iter_mut() {
                    (m.is_signer, m.is_writable) = pv[&m.pubkey];
                }
                ix
            })
            .collect();

        ZAPS.with(|z| z.borrow_mut().clear());
        protocol_zap::utils::REQUESTS.with(|r| r.borrow_mut().clear());
        let clock = self.svm.clock.clone();
        let rent = self.svm.rent.clone();
        // accounts the transaction does not mention keep out of the prediction
        let mut st = St {
            base: &self.svm.ledger,
            over: Accounts::new(),
            rent: &rent,
            clock: &clock,
            events: vec![],
            swaps: vec![],
            cov: vec![],
            fault,
        };
        let mut expected: Result<(), Stop> = Ok(());
        let mut exp_ix = 0;
        for (n, ix) in ixs.iter().enumerate() {
            let cx = Ctx { tops: &ixs, idx: n, height: 1, sibs: &[] };
            if let Err(e) = predict_ix(&mut st, &cx, ix) {
                expected = Err(e);
                exp_ix = n;
                break;
            }
        }
        if expected.is_ok() {
            for (k, (_, w)) in &pv {
                if !*w {
                    continue;
                }
                let a = st.get(k);
                let min = rent.minimum_balance(a.data.len());
                if a.lamports > 0 && a.lamports < min {
                    let p = self.svm.ledger.get(k).cloned().unwrap_or_default();
                    let paying = p.lamports > 0 && p.lamports < rent.minimum_balance(p.data.len());
                    if !(paying && p.data.len() == a.data.len() && a.lamports <= p.lamports) {
                        expected = Err(Stop::Fail(vec!["C20"], "below the rent minimum".into()));
                        break;
                    }
                }
            }
        }
        let St { over, events: want_events, swaps, cov, .. } = st;
        for c in cov {
            self.c(c);
        }

        FAULT.with(|f| f.set(fault));
        let out = self.svm.execute(&ixs);
        FAULT.with(|f| f.set(Fault::default()));
        let ok = out.result.is_ok();
        self.stats.txs += 1;
        self.stats.inner_calls += out.trace.iter().filter(|c| c.height > 1).count() as u64;
        if ok {
            self.stats.ok += 1;
        } else {
            self.stats.refused += 1;
        }
        let err = out.result.as_ref().err().cloned();
        for (n, ix) in ixs.iter().enumerate() {
            if ix.program_id == DBC {
                if let Some(name) = ix_name(&ix.data) {
                    let e = self.ops.entry(name).or_default();
                    match &err {
                        None => e.0 += 1,
                        Some(x) if x.ix_index == n => e.1 += 1,
                        _ => {}
                    }
                }
            }
        }
        let text = format!(
            "t={} slot={} [{}]{} -> {}",
            clock.unix_timestamp,
            clock.slot,
            ixs.iter().map(describe).collect::<Vec<_>>().join("; "),
            if fault.kind != FaultKind::None { format!(" fault {fault:?}") } else { String::new() },
            match &err {
                None => "ok".to_string(),
                Some(e) => format!("refused at {}: {:?}", e.ix_index, e.err),
            }
        );
        self.log.push_back(text);
        while self.log.len() > 60 {
            self.log.pop_front();
        }

        let events = self.events_of(&out);
        let mut r = Out { ok, err: err.clone(), expected: expected.clone(), swaps, events, mismatch: false };

        if let Some(p) = &out.panic {
            if p.contains("/verif/") {
                self.c(format!("HARNESS-PANIC:{p}"));
            } else {
                r.mismatch = true;
                self.report(&["C32"], format!("panic inside the program: {p}"));
            }
        }

        let names: Vec<&'static str> = ixs.iter().flat_map(names_in).collect();
        self.shape(&ixs, &names, &err, &expected, &out);
        match (&expected, &err) {
            (Err(Stop::May(w)), _) => {
                self.stats.unpredicted += 1;
                self.c(format!("may:{w}"));
            }
            (Err(Stop::Fail(tags, why)), None) => {
                r.mismatch = true;
                let mut tags = tags.clone();
                if why.contains("overflow") {
                    // something was cut to size
                    tags.push("C32");
                }
                self.report(&tags, format!("accepted although it must be refused (instruction {exp_ix}): {why}"));
            }
            (Err(Stop::Fail(_, why)), Some(_)) => {
                // keep why they are refused, coarsely
                let w: String = why.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                let w = w.split(" 1").next().unwrap_or("").to_string();
                self.c(format!("refuse:{}", short(&w)));
            }
            (Ok(()), Some(_)) if self.varied => {
                // nobody is promised that odd accounts are accepted
                r.mismatch = true;
                self.c("varied:refused");
            }
            (Ok(()), Some(e)) => {
                r.mismatch = true;
                let mut t: BTreeSet<&str> = BTreeSet::new();
                let hit = ixs.get(e.ix_index).map(|i| names_in(i)).unwrap_or(names.clone());
                for n in &hit {
                    push(&mut t, &refused_tags(n));
                }
                for s in &r.swaps {
                    if let Some(c) = self.config(&s.config) {
                        push(&mut t, feature_tags(&c, s.first).as_slice());
                    }
                }
                match e.custom() {
                    Some(rt::RENT_STATE) | Some(rt::EXTERNAL_LAMPORT) | Some(rt::UNBALANCED) => push(&mut t, &["C20"]),
                    Some(rt::PANIC) => push(&mut t, &["C32"]),
                    Some(x) if (2000..2100).contains(&x) || (3000..3020).contains(&x) => push(&mut t, &["C22"]),
                    _ => {}
                }
                let t: Vec<&str> = t.into_iter().collect();
                self.report(&t, format!("refused although it must succeed: {:?} (instruction {})", e.err, e.ix_index));
            }
            (Ok(()), None) => {
                self.compare(&mut r, &ixs, &names, &over, &want_events, &out);
            }
        }
        if ok {
            self.monitors(&mut r, &names, &out);
        }
        if self.sdk && !r.mismatch {
            self.sdk_quotes(&r);
        }
        r
    }

    /// remembers what kind of situation this transaction was
    fn shape(&mut self, ixs: &[Instruction], names: &[&'static str], err: &Option<TxError>, expected: &Result<(), Stop>, out: &TxOut) {
        use std::hash::{Hash, Hasher};
        if names.is_empty() {
            return;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        names.hash(&mut h);
        ixs.len().hash(&mut h);
        match err {
            None => 0u8.hash(&mut h),
            Some(e) => {
                e.ix_index.hash(&mut h);
                format!("{:?}", e.err).hash(&mut h);
            }
        }
        if let Err(Stop::Fail(_, w)) = expected {
            let w: String = short(w).chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
            w.hash(&mut h);
        }
        for k in out.pre.keys() {
            if let Some(rec) = self.pools.get(k) {
                let c = &rec.c;
                (c.base_fee_mode, c.second_factor > 0, c.dyn_init, c.collect_fee_mode, c.migration_option, c.has_vesting()).hash(&mut h);
                (c.fixed_supply, c.token_type, c.quote_token_flag, c.points().len(), c.first_swap_min_fee).hash(&mut h);
                rec.stage.hash(&mut h);
            }
        }
        self.shapes.insert(h.finish());
    }

    fn events_of(&self, out: &TxOut) -> Vec<Event> {
        thread_local! {
            static NAMES: std::collections::HashMap<[u8; 8], &'static str> =
                EVENT_NAMES.iter().map(|n| (ev_disc(n), *n)).collect();
        }
        out.trace
            .iter()
            .filter(|c| c.ok && c.height >= 2 && c.ix.program_id == DBC && c.ix.data.len() >= 16 && c.ix.data[..8] == EVENT_IX_TAG)
            .map(|c| {
                let d: [u8; 8] = c.ix.data[8..16].try_into().unwrap();
                let name = NAMES.with(|n| n.get(&d).map(|s| s.to_string())).unwrap_or_else(|| format!("{d:?}"));
                Event { name, data: c.ix.data[16..].to_vec() }
            })
            .collect()
    }

    /// predicted and real outcome of an accepted transaction
    fn compare(&mut self, r: &mut Out, ixs: &[Instruction], names: &[&'static str], over: &Accounts, want: &[Event], out: &TxOut) {
        let mut ops: BTreeSet<&str> = BTreeSet::new();
        for n in names {
            push(&mut ops, op_tags(n));
        }
        let in_swap = names.iter().any(|n| n.starts_with("swap"));
        let mut tags: BTreeSet<&str> = BTreeSet::new();
        let mut what: Vec<String> = vec![];
        let zero = Acc::default();
        let mut n_acc = 0;
        let mut keys: BTreeSet<&Pubkey> = out.post.keys().collect();
        keys.extend(over.keys());
        let mut swap_pools: Vec<Pubkey> = vec![];
        for k in keys {
            if *k == SYSVAR_IX {
                continue;
            }
            let pre = out.pre.get(k).unwrap_or(&zero);
            let got = out.post.get(k).or_else(|| self.svm.ledger.get(k)).unwrap_or(&zero);
            let exp = over.get(k).unwrap_or(pre);
            n_acc += 1;
            if got == exp {
                continue;
            }
            let (got, exp) = (norm(got), norm(exp));
            if got == exp {
                continue;
            }
            what.push(self.diff(k, &got, &exp, in_swap, &ops, &mut tags, &mut swap_pools));
        }
        self.stats.accounts_compared += n_acc;
        let mut a: Vec<&Event> = r.events.iter().collect();
        let mut e: Vec<&Event> = want.iter().collect();
        self.stats.events_compared += e.len() as u64;
        a.sort();
        e.sort();
        if a != e {
            push(&mut tags, &["C31"]);
            let miss: Vec<_> = e.iter().filter(|x| !a.contains(x)).collect();
            let extra: Vec<_> = a.iter().filter(|x| !e.contains(x)).collect();
            what.push(format!("events: missing {miss:?}, unexpected {extra:?}"));
        }
        let zaps: Vec<ZapWant> = ZAPS.with(|z| z.borrow().clone());
        let reqs = protocol_zap::utils::REQUESTS.with(|r| r.borrow().clone());
        let same = zaps.len() == reqs.len()
            && zaps.iter().zip(&reqs).all(|(z, q)| {
                z.amount == q.amount
                    && z.receiver.to_bytes() == q.receiver
                    && z.paired.to_bytes() == q.paired_destination
                    && q.treasury == TREASURY.to_bytes()
                    && q.program_id == DBC.to_bytes()
            });
        if !same {
            push(&mut tags, &["C28"]);
            what.push(format!("zap validation: expected {zaps:?}, asked {reqs:?}"));
        }
        if what.is_empty() {
            return;
        }
        r.mismatch = true;
        // what a deviating swap says about the swap's own properties
        let evs: Vec<SwapEv> = r.events.iter().filter_map(swap_ev).collect();
        let mut used = vec![false; evs.len()];
        for s in r.swaps.clone() {
            let Some(res) = s.res else { continue };
            let Some(c) = self.config(&s.config) else { continue };
            let ev = evs.iter().enumerate().find(|(n, e)| !used[*n] && e.pool == s.pool).map(|(n, e)| (n, *e));
            let Some((n, ev)) = ev else { continue };
            used[n] = true;
            let t = swap_deviation(&c, &s, &res, &ev);
            if !t.is_empty() {
                what.push(format!("swap {:?} {:?}: expected {res:?}, reported {ev:?}", s.dir, s.mode));
            }
            push(&mut tags, &t);
        }
        let _ = ixs;
        let t: Vec<&str> = tags.into_iter().collect();
        self.report(&t, format!("[{}] deviates: {}", names.join(","), what.join(" | ")));
    }

    fn diff<'a>(
        &self,
        key: &Pubkey,
        got: &Acc,
        exp: &Acc,
        in_swap: bool,
        ops: &BTreeSet<&'a str>,
        tags: &mut BTreeSet<&'a str>,
        swap_pools: &mut Vec<Pubkey>,
    ) -> String {
        let mut s = format!("{key}:");
        if got.lamports != exp.lamports {
            tags.insert("C20");
            tags.extend(ops);
            s += &format!(" lamports {} not {}", got.lamports, exp.lamports);
        }
        if got.owner != exp.owner {
            tags.extend(ops);
            if *key == POOL_AUTHORITY {
                tags.insert("C20");
            }
            s += &format!(" owner {} not {}", got.owner, exp.owner);
        }
        if got.data == exp.data {
            return s;
        }
        let owner = if exp.data.is_empty() { got.owner } else { exp.owner };
        let d8 = |a: &Acc| a.data.get(..8).map(|d| d.to_vec()).unwrap_or_default();
        if owner == DBC {
            if d8(exp) == Pool::disc() && got.data.len() == exp.data.len() {
                swap_pools.push(*key);
                for (f, o, n) in Pool::FIELDS {
                    let (x, y) = (&got.data[8 + o..8 + o + n], &exp.data[8 + o..8 + o + n]);
                    if x != y {
                        push(tags, pool_field_tags(f, in_swap));
                        if lost_bits(x, y) {
                            tags.insert("C32");
                        }
                        if !in_swap || ops.iter().any(|_| true) {
                            tags.extend(ops);
                        }
                        s += &format!(" {f}={} not {}", num(x), num(y));
                    }
                }
            } else if d8(exp) == Config::disc() && got.data.len() == exp.data.len() {
                tags.insert("C12");
                for (f, o, n) in Config::FIELDS {
                    let (x, y) = (&got.data[8 + o..8 + o + n], &exp.data[8 + o..8 + o + n]);
                    if x != y {
                        push(tags, config_field_tags(f));
                        if lost_bits(x, y) {
                            tags.insert("C32");
                        }
                        s += &format!(" {f}={} not {}", num(x), num(y));
                    }
                }
            } else {
                tags.extend(ops);
                if exp.data.len() == crate::ext::V1_META_LEN {
                    tags.extend(["C23", "C24"]);
                }
                s += &format!(" data {} not {}", hex(&got.data), hex(&exp.data));
            }
        } else if owner == TOKEN || owner == TOKEN22 {
            match (mint_of(got), mint_of(exp)) {
                (Some(g), Some(e)) => {
                    if g.supply != e.supply {
                        tags.insert("C15");
                    }
                    if g.authority != e.authority || g.freeze != e.freeze || g.decimals != e.decimals {
                        push(tags, &["C14", "C15"]);
                    }
                    tags.extend(ops);
                    s += &format!(" mint {g:?} not {e:?}");
                    if (g.supply, g.authority, g.decimals) == (e.supply, e.authority, e.decimals) {
                        s += &format!(" data {} not {}", hex(&got.data), hex(&exp.data));
                        tags.insert("C14");
                    }
                }
                _ => {
                    tags.extend(ops);
                    tags.insert("C02");
                    if let (Some(x), Some(y)) = (got.data.get(64..72), exp.data.get(64..72)) {
                        if lost_bits(x, y) {
                            tags.insert("C32");
                        }
                    }
                    if in_swap {
                        tags.insert("C08");
                    }
                    if self.pools.values().any(|p| p.bv == *key) && ops.contains("C14") {
                        tags.insert("C15");
                    }
                    s += &format!(" token {:?} not {:?}", tok_of(got), tok_of(exp));
                }
            }
        } else {
            tags.extend(ops);
            if owner == DAMM2 && !ops.contains("C27") {
                let vest = self.pools.values().any(|p| p.c.pv_init + p.c.cv_init > 0);
                if vest {
                    tags.insert("C27");
                }
            }
            if owner == crate::abi::MPL {
                tags.insert("C14");
            }
            let at = got.data.iter().zip(&exp.data).position(|(a, b)| a != b);
            s += &format!(" data of {owner} differs first at {at:?} (lengths {} and {})", got.data.len(), exp.data.len());
        }
        s
    }

    /// what must hold of the actual state whatever the prediction said
    fn monitors(&mut self, r: &mut Out, names: &[&'static str], out: &TxOut) {
        // the pool authority
        if let (Some(a), Some(b_)) = (out.pre.get(&POOL_AUTHORITY), out.post.get(&POOL_AUTHORITY)) {
            self.stats.invariants += 1;
            if b_.lamports < a.lamports || (a.lamports > 0 && b_.owner != a.owner) || b_.data.len() != a.data.len() {
                self.report(
                    &["C20"],
                    format!("[{}] pool authority went from {} lamports of {} to {} of {}", names.join(","), a.lamports, a.owner, b_.lamports, b_.owner),
                );
            }
        }
        // new and changed accounts of the program
        for (k, a) in &out.post {
            if a.owner != DBC || a.data.len() < 8 {
                continue;
            }
            if a.data[..8] == Config::disc() {
                self.stats.invariants += 1;
                match self.configs.get(k) {
                    None => {
                        self.configs.insert(*k, a.data.clone());
                    }
                    Some(d) if *d != a.data => {
                        self.report(&["C12"], format!("[{}] configuration {k} changed", names.join(",")));
                    }
                    _ => {}
                }
            } else if a.data[..8] == Pool::disc() {
                if let (false, Some(p)) = (self.pools.contains_key(k), Pool::read(&a.data)) {
                    let config = crate::abi::k(&p.config);
                    if let Some(c) = self.config(&config) {
                        self.pools.insert(
                            *k,
                            PoolRec {
                                config,
                                c,
                                bm: crate::abi::k(&p.base_mint),
                                qm: c.quote(),
                                bv: crate::abi::k(&p.base_vault),
                                qv: crate::abi::k(&p.quote_vault),
                                excess_q: 0,
                                excess_b: 0,
                                donated_b: 0,
                                net_q: 0,
                                net_b: 0,
                                stage: 0,
                                supply: self.svm.ledger.get(&crate::abi::k(&p.base_mint)).and_then(mint_of).map(|m| m.supply).unwrap_or(0),
                                paid: [0; 4],
                                paid_protocol: [0; 2],
                                surplus_seen: [0; 3],
                                migration_fee_seen: [0; 2],
                                completions: 0,
                                n_swaps: 0,
                            },
                        );
                    }
                }
            }
        }
        for (k, a) in &out.pre {
            if self.configs.contains_key(k) && a.owner == DBC && self.svm.ledger.get(k).map(|x| x.owner) != Some(DBC) {
                self.report(&["C12"], format!("configuration {k} disappeared"));
            }
        }
        let keys: Vec<Pubkey> = self
            .pools
            .iter()
            .filter(|(k, p)| [*k, &p.bv, &p.qv, &p.bm].iter().any(|x| out.post.contains_key(*x)))
            .map(|(k, _)| *k)
            .collect();
        for k in keys {
            self.pool_monitors(&k, r, names, out);
        }
    }

    fn pool_monitors(&mut self, key: &Pubkey, r: &mut Out, names: &[&'static str], out: &TxOut) {
        let Some(p) = self.pool(key) else {
            self.report(&["C11", "C22"], format!("pool {key} disappeared"));
            return;
        };
        let mut rec = self.pools[key].clone();
        let c = rec.c;
        let pre = out.pre.get(key).filter(|a| a.owner == DBC).and_then(|a| Pool::read(&a.data));
        let mut bad: Vec<(Vec<&str>, String)> = vec![];
        self.stats.invariants += 8;

        // what is owed
        let fees_q = p.protocol_quote_fee as u128 + p.partner_quote_fee as u128 + p.creator_quote_fee as u128;
        let fees_b = p.protocol_base_fee as u128 + p.partner_base_fee as u128 + p.creator_base_fee as u128;
        let (vault_q, vault_b) = (self.tokens(&rec.qv) as u128, self.tokens(&rec.bv) as u128);
        let done = complete(&c, &p);
        let (owed_q, owed_b);
        if !done {
            owed_q = p.quote_reserve as u128 + fees_q;
            owed_b = p.base_reserve as u128 + fees_b;
        } else {
            let mut q = fees_q;
            let (s0, s1, s2) = surplus(&c, &p);
            for (flag, n) in [
                (p.is_protocol_withdraw_surplus, s0),
                (p.is_partner_withdraw_surplus, s1),
                (p.is_creator_withdraw_surplus, s2),
            ] {
                if flag == 0 {
                    q += n as u128;
                }
            }
            let (mp, mc) = migration_fee(&c);
            if p.migration_fee_withdraw_status & 4 == 0 {
                q += mp as u128;
            }
            if p.migration_fee_withdraw_status & 2 == 0 {
                q += mc as u128;
            }
            let mut bb = fees_b;
            if p.migration_progress == 3 {
                q += p.protocol_migration_quote_fee as u128;
                bb += p.protocol_migration_base_fee as u128;
            } else {
                q += migration_quote(&c) as u128;
                bb += c.migration_base_threshold as u128;
                if p.migration_progress < 2 {
                    bb += c.vesting_total();
                }
            }
            owed_q = q;
            owed_b = bb;
        }
        let (ex_q, ex_b) = (vault_q as i128 - owed_q as i128, vault_b as i128 - owed_b as i128);
        if ex_q < 0 || ex_b < 0 {
            bad.push((vec!["C02"], format!("vaults hold {vault_q} quote and {vault_b} base but {owed_q} and {owed_b} are owed")));
        } else if pre.is_some() && ex_q < rec.excess_q {
            bad.push((vec!["C02"], format!("quote vault lost {} that no record explains", rec.excess_q - ex_q)));
        } else if pre.is_some() && !done && ex_b < rec.excess_b {
            bad.push((vec!["C02"], format!("base vault lost {} that no record explains", rec.excess_b - ex_b)));
        }
        if std::env::var_os("DBC_TRACE").is_some() { eprintln!("{names:?} {key} done {done} vault {vault_q} owed {owed_q} ex {ex_q} was {} reserve {} fees {fees_q} thr {} stage {} withdrawn {} {} {}", rec.excess_q, p.quote_reserve, c.migration_quote_threshold, p.migration_progress, p.is_protocol_withdraw_surplus, p.is_partner_withdraw_surplus, p.is_creator_withdraw_surplus); }
        rec.excess_q = ex_q;
        rec.excess_b = ex_b;

        // enough quote to buy back what was sold
        if p.migration_progress == 0 {
            let mut need = B::zero();
            let mut lo = c.sqrt_start_price;
            for (pp, l) in c.points() {
                let hi = pp.min(p.sqrt_price);
                if hi > lo {
                    need += quote_delta(lo, hi, l, false);
                    lo = hi;
                }
            }
            if need > b(p.quote_reserve) {
                bad.push((vec!["C02", "C03"], format!("reserve {} does not cover buying back at the curve: {need}", p.quote_reserve)));
            }
        }
        if p.sqrt_price < c.sqrt_start_price || (p.sqrt_price > c.migration_sqrt_price && p.migration_progress == 0) {
            bad.push((vec!["C01"], format!("price {} outside the curve", p.sqrt_price)));
        }

        // stages
        let expect_stage = |s: u8| match s {
            0 => !done,
            _ => done,
        };
        if !expect_stage(p.migration_progress) {
            bad.push((vec!["C10", "C11"], format!("stage {} with reserve {} and threshold {}", p.migration_progress, p.quote_reserve, c.migration_quote_threshold)));
        }
        if p.migration_progress != rec.stage {
            let n = |x: &str| names.iter().any(|m| *m == x);
            let legal = match (rec.stage, p.migration_progress) {
                (0, 1) => c.has_vesting() && (n("swap") || n("swap2")),
                (0, 2) => (!c.has_vesting() && (n("swap") || n("swap2"))) || (n("swap") || n("swap2")) && n("create_locker"),
                (1, 2) => n("create_locker"),
                (2, 3) => n("migrate_meteora_damm") && c.migration_option == 0 || n("migration_damm_v2") && c.migration_option == 1,
                (0, 3) | (1, 3) => names.len() > 1,
                _ => false,
            };
            if !legal {
                bad.push((vec!["C11"], format!("stage went from {} to {}", rec.stage, p.migration_progress)));
            }
            self.c(format!("stage:{}->{}", rec.stage, p.migration_progress));
            rec.stage = p.migration_progress;
        }
        if (p.migration_progress == 3) != (p.is_migrated == 1) {
            bad.push((vec!["C11"], "migrated flag and stage disagree".to_string()));
        }
        // supply
        if let Some(m) = self.svm.ledger.get(&rec.bm).and_then(mint_of) {
            let allowed = c.token_authority >= 3 && !names.iter().any(|n| op_tags(n).len() > 0 || n.starts_with("swap"));
            if m.supply > rec.supply && !allowed {
                bad.push((vec!["C15"], format!("base supply grew from {} to {}", rec.supply, m.supply)));
            }
            rec.supply = m.supply;
            if c.fixed_supply == 1 && c.token_authority < 3 && p.migration_progress == 3 && m.supply < c.post_supply {
                bad.push((vec!["C15"], format!("supply {} fell below the configured {}", m.supply, c.post_supply)));
            }
        }

        // books of the trading fees
        if let Some(q) = pre {
            let dec = |a: u64, b_: u64| a.saturating_sub(b_) as u128;
            rec.paid[0] += dec(q.partner_base_fee, p.partner_base_fee);
            rec.paid[1] += dec(q.partner_quote_fee, p.partner_quote_fee);
            rec.paid[2] += dec(q.creator_base_fee, p.creator_base_fee);
            rec.paid[3] += dec(q.creator_quote_fee, p.creator_quote_fee);
            rec.paid_protocol[0] += dec(q.protocol_base_fee, p.protocol_base_fee);
            rec.paid_protocol[1] += dec(q.protocol_quote_fee, p.protocol_quote_fee);
            if names.len() == 1 {
                for (n, a, b_) in [
                    ("base", rec.paid[0] + rec.paid[2] + p.partner_base_fee as u128 + p.creator_base_fee as u128, p.m_trading_base),
                    ("quote", rec.paid[1] + rec.paid[3] + p.partner_quote_fee as u128 + p.creator_quote_fee as u128, p.m_trading_quote),
                ] {
                    if a != b_ as u128 && !self.cov.contains_key("books:mixed") {
                        bad.push((vec!["C04", "C16"], format!("{n} trading fees: {b_} charged in total, {a} paid or claimable")));
                    }
                }
                for (n, a, b_) in [
                    ("base", rec.paid_protocol[0] + p.protocol_base_fee as u128, p.m_protocol_base),
                    ("quote", rec.paid_protocol[1] + p.protocol_quote_fee as u128, p.m_protocol_quote),
                ] {
                    if a != b_ as u128 && !self.cov.contains_key("books:mixed") {
                        bad.push((vec!["C04", "C28"], format!("{n} protocol fees: {b_} charged in total, {a} paid or claimable")));
                    }
                }
            } else if names.len() > 1 && names.iter().any(|n| !n.starts_with("swap") && !n.starts_with("init")) {
                // several operations in one transaction: net changes cannot be told apart
                *self.cov.entry("books:mixed".into()).or_default() += 1;
            }
        }

        // trades
        let evs: Vec<SwapEv> = r.events.iter().filter_map(swap_ev).filter(|e| e.pool == *key).collect();
        let mut price = pre.map(|q| q.sqrt_price).unwrap_or(c.sqrt_start_price);
        for e in &evs {
            rec.n_swaps += 1;
            let fee = e.trading as u128 + e.protocol as u128 + e.referral_fee as u128;
            let (on_in, on_base) = fees_on(&c, e.dir);
            let (tin, tout) = (e.included as i128, e.out as i128);
            let rf = e.referral_fee as i128;
            let (mut dq, mut db) = if e.dir == Dir::Buy { (tin, -tout) } else { (-tout, tin) };
            if on_base {
                db -= rf;
            } else {
                dq -= rf;
            }
            rec.net_q += dq;
            rec.net_b += db;
            if (rec.net_q < 0 && rec.net_b <= 0) || (rec.net_q <= 0 && rec.net_b < 0) {
                bad.push((vec!["C03"], format!("traders are up {} quote and {} base", -rec.net_q, -rec.net_b)));
            }
            let gross = if on_in { e.out as u128 } else { e.out as u128 + fee };
            let rising = e.next >= price;
            if rising != (e.dir == Dir::Buy) && e.next != price {
                bad.push((vec!["C01"], format!("{:?} moved the price from {price} to {}", e.dir, e.next)));
            }
            if let Some(why) = against_integral(&c, price, e.next, e.dir, e.excluded, gross) {
                bad.push((vec!["C01", "C03"], why));
            }
            price = e.next;
            // cash flows are those reported
            let inc_ok = if on_in { e.included as u128 == e.excluded as u128 + fee } else { e.included == e.excluded };
            if !inc_ok {
                bad.push((vec!["C04", "C08"], format!("reported input {} is not {} plus fee {fee}", e.included, e.excluded)));
            }
            match e.mode {
                0 if e.included != e.a0 || e.out < e.a1 => bad.push((vec!["C08"], format!("exact input: {e:?}"))),
                1 if e.included > e.a0 || e.out < e.a1 => bad.push((vec!["C08"], format!("partial fill: {e:?}"))),
                2 if e.out != e.a0 || e.included > e.a1 => bad.push((vec!["C08"], format!("exact output: {e:?}"))),
                _ => {}
            }
        }
        if evs.len() == 1 && names.len() == 1 {
            if let (Some(s), Some(e)) = (r.swaps.first(), evs.first()) {
                let bal = |m: &Accounts, k: &Pubkey| m.get(k).and_then(tok_of).map(|t| t.amount as i128).unwrap_or(0);
                let d = |k: &Pubkey| bal(&out.post, k) - bal(&out.pre, k);
                let vault = [s.input, s.output].iter().any(|x| *x == rec.bv || *x == rec.qv);
                let aliased = s.referral_acc.map(|x| x == s.input || x == s.output).unwrap_or(false) || vault;
                if aliased && !vault && s.input != s.output {
                    // the trader is its own referrer, with one of the accounts it trades with
                    let extra = |x: &Pubkey| if s.referral_acc == Some(*x) { e.referral_fee as i128 } else { 0 };
                    let (wi, wo) = (extra(&s.input) - e.included as i128, extra(&s.output) + e.out as i128);
                    if d(&s.input) != wi || d(&s.output) != wo {
                        bad.push((
                            vec!["C04", "C08"],
                            format!("own referrer: trader's accounts changed by {} and {}, not by {wi} and {wo}", d(&s.input), d(&s.output)),
                        ));
                    }
                }
                if !aliased && s.input != s.output {
                    if d(&s.input) != -(e.included as i128) || d(&s.output) != e.out as i128 {
                        bad.push((vec!["C08"], format!("trader paid {} and got {} but {e:?} was reported", -d(&s.input), d(&s.output))));
                    }
                    if let Some(rk) = s.referral_acc {
                        if rk != rec.bv && rk != rec.qv && d(&rk) != e.referral_fee as i128 {
                            bad.push((vec!["C04"], format!("referrer got {} but {e:?} was reported", d(&rk))));
                        }
                    }
                }
            }
        }
        let finished = r.events.iter().filter(|e| e.name == "EvtCurveComplete" && e.data.len() >= 32 && key_at(&e.data, 0) == *key).count() as u32;
        rec.completions += finished;
        if rec.completions > 1 || (done && rec.completions == 0) {
            bad.push((vec!["C10", "C31"], format!("completion announced {} times", rec.completions)));
        }
        if let Some(q) = pre {
            if complete(&c, &q) && (q.sqrt_price, q.quote_reserve, q.base_reserve) != (p.sqrt_price, p.quote_reserve, p.base_reserve) {
                bad.push((vec!["C10"], "price or reserves changed after completion".to_string()));
            }
            if q.finish_curve_timestamp != 0 && q.finish_curve_timestamp != p.finish_curve_timestamp {
                bad.push((vec!["C10"], "completion time changed".to_string()));
            }
            for (n, a, b_) in [
                ("config", q.config, p.config),
                ("base mint", q.base_mint, p.base_mint),
                ("base vault", q.base_vault, p.base_vault),
                ("quote vault", q.quote_vault, p.quote_vault),
            ] {
                if a != b_ {
                    bad.push((vec!["C22"], format!("{n} of the pool changed")));
                }
            }
            if c.dyn_init == 0 && (p.v_acc, p.v_ref, p.v_ref_price, p.v_last_update) != (0, 0, 0, 0) {
                bad.push((vec!["C07"], "volatility state without dynamic fee".to_string()));
            }
            if c.dyn_init == 1 && p.v_acc > c.dyn_max_vol as u128 {
                bad.push((vec!["C07"], format!("accumulator {} above its maximum", p.v_acc)));
            }
        }
        let act = self.svm.ledger.get(key).cloned().unwrap_or_default();
        let owed_l = self.svm.rent_min(8 + 416)
            + if p.creation_fee_bits & 1 == 0 { (c.pool_creation_fee as u128 * 10 / 100) as u64 } else { 0 }
            + if p.creation_fee_bits & 2 == 0 { c.pool_creation_fee - (c.pool_creation_fee as u128 * 10 / 100) as u64 } else { 0 };
        let owed_l = owed_l + if p.legacy_creation_fee_bits & 3 == 1 { 10_000_000 } else { 0 };
        if act.lamports < owed_l {
            bad.push((vec!["C20"], format!("pool holds {} lamports but rent and unclaimed creation fees are {owed_l}", act.lamports)));
        }
        self.pools.insert(*key, rec);
        for (t, w) in bad {
            r.mismatch = true;
            self.report(&t, format!("[{}] pool {key}: {w}", names.join(",")));
        }
    }

    /// the SDK must quote what the program does
    fn sdk_quotes(&mut self, r: &Out) {
        for s in &r.swaps {
            let fail = match &r.expected {
                Ok(()) => false,
                // the quote itself must not exist
                Err(Stop::Fail(_, w)) if s.res.is_none() => {
                    if !w.contains("swap: ") {
                        continue;
                    }
                    true
                }
                _ => s.res.is_none(),
            };
            if s.res.is_none() && !fail {
                continue;
            }
            let Some(c) = self.config(&s.config) else { continue };
            self.stats.sdk_quotes += 1;
            let got = sdk_quote(&s.before, &c, s);
            let bad = match (&got, &s.res) {
                (Err(e), None) if e == "panic" => Some(format!("SDK {:?} {:?} {:?} panics", s.dir, s.mode, s.amounts)),
                (Err(_), None) => None,
                (Ok(q), Some(m)) if q == &sdk_expect(s, m) => None,
                (Err(e), Some(_)) if e == "panic" => Some(format!("SDK {:?} {:?} {:?} panics", s.dir, s.mode, s.amounts)),
                _ => Some(format!("SDK {:?} {:?} {:?}: quotes {got:?}, program does {:?}", s.dir, s.mode, s.amounts, s.res)),
            };
            if let Some(w) = bad {
                self.report(&["C30"], w);
            }
            // nothing is for sale once the curve is complete
            if let (Some(p), Some(m)) = (&s.after, &s.res) {
                if complete(&c, p) && s.res.is_some() {
                    let mut t = s.clone();
                    for dir in [Dir::Buy, Dir::Sell] {
                        for mode in [Mode::ExactIn, Mode::Partial, Mode::ExactOut] {
                            for a in [1u64, m.out / 3 + 1, m.included_in / 2 + 1] {
                                (t.dir, t.mode, t.amounts, t.first) = (dir, mode, (a, 0), false);
                                self.stats.sdk_quotes += 1;
                                if let Ok(q) = sdk_quote(p, &c, &t) {
                                    self.report(&["C30"], format!("SDK {dir:?} {mode:?} {a}: quotes {q:?} on a complete pool"));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn short(w: &str) -> String {
    // keys are replaced, the text stays
    w.split(' ').map(|x| if x.len() > 30 { "_" } else { x }).collect::<Vec<_>>().join(" ")
}
fn hex(d: &[u8]) -> String {
    d.iter().take(400).map(|b| format!("{b:02x}")).collect()
}
fn num(d: &[u8]) -> String {
    match d.len() {
        1 | 2 | 4 | 8 | 16 => {
            let mut b = [0u8; 16];
            b[..d.len()].copy_from_slice(d);
            u128::from_le_bytes(b).to_string()
        }
        _ => hex(&d[..d.len().min(32)]),
    }
}

pub fn names_in(ix: &Instruction) -> Vec<&'static str> {
    if ix.program_id == DBC {
        return ix_name(&ix.data).into_iter().collect();
    }
    if ix.program_id == PROXY || ix.program_id == PROXY2 {
        use borsh::BorshDeserialize;
        if let Ok(v) = Vec::<crate::progs::ProxyCall>::try_from_slice(&ix.data) {
            return v
                .iter()
                .flat_map(|c| {
                    names_in(&Instruction {
                        program_id: ix.accounts.get(c.program as usize).map(|m| m.pubkey).unwrap_or_default(),
                        accounts: c.accounts.iter().filter_map(|n| ix.accounts.get(*n as usize).cloned()).collect(),
                        data: c.data.clone(),
                    })
                })
                .collect();
        }
    }
    vec![]
}

pub fn feature_tags(c: &Config, first: bool) -> Vec<Tag> {
    let mut t = vec![];
    match c.base_fee_mode {
        2 => t.push("C06"),
        _ if c.second_factor > 0 => t.push("C05"),
        _ => {}
    }
    if c.dyn_init == 1 {
        t.push("C07");
    }
    if first || c.first_swap_min_fee == 1 {
        t.push("C09");
    }
    t
}

fn config_field_tags(f: &str) -> &'static [Tag] {
    match f {
        "cliff" | "first_factor" | "second_factor" | "third_factor" | "base_fee_mode" => &["C12", "C05", "C06"],
        x if x.starts_with("dyn_") => &["C12", "C07"],
        x if x.starts_with("pv_") || x.starts_with("cv_") => &["C12", "C27", "C25"],
        "partner_perm_pct" | "creator_perm_pct" => &["C12", "C27", "C25", "C23", "C24"],
        "partner_liq_pct" | "creator_liq_pct" => &["C12", "C25", "C23", "C24"],
        x if x.starts_with("lv_") => &["C12", "C26"],
        "swap_base_amount" | "migration_base_threshold" | "migration_sqrt_price" => &["C12", "C13", "C14", "C23", "C25"],
        "migration_quote_threshold" => &["C12", "C10", "C13", "C18"],
        "collect_fee_mode" => &["C12", "C04"],
        "activation_type" => &["C12", "C05", "C06"],
        "creator_fee_pct" => &["C12", "C04", "C16", "C17"],
        "migration_fee_pct" | "creator_migration_fee_pct" => &["C12", "C18"],
        "migration_option" => &["C12", "C11", "C23", "C25"],
        "migration_fee_option" => &["C12", "C23", "C25"],
        "first_swap_min_fee" => &["C12", "C09"],
        "pool_creation_fee" => &["C12", "C20"],
        "token_decimal" | "token_type" | "token_authority" => &["C12", "C14"],
        "fixed_supply" | "pre_supply" | "post_supply" => &["C12", "C14", "C15", "C19"],
        "leftover_receiver" => &["C12", "C19"],
        "fee_claimer" => &["C12", "C16", "C21"],
        "quote_mint" | "quote_token_flag" => &["C12", "C22"],
        x if x.starts_with("migrated_") => &["C12", "C25"],
        "sqrt_start_price" | "curve" => &["C12", "C01", "C14"],
        _ => &["C12"],
    }
}

/// which of the swap's properties a deviating report contradicts
fn swap_deviation(c: &Config, s: &SwapNote, m: &SwapR, e: &SwapEv) -> Vec<Tag> {
    let mut t: Vec<Tag> = vec![];
    let fee = |a: u64, b_: u64, d: u64| a as u128 + b_ as u128 + d as u128;
    let (fm, fe) = (fee(m.split.trading, m.split.protocol, m.split.referral), fee(e.trading, e.protocol, e.referral_fee));
    if fm != fe {
        t.push("C04");
        t.extend(feature_tags(c, s.first));
        if s.referral {
            t.push("C08");
        }
    } else if (m.split.trading, m.split.protocol, m.split.referral) != (e.trading, e.protocol, e.referral_fee) {
        t.push("C04");
    }
    let (on_in, _) = fees_on(c, s.dir);
    let gross = if on_in { e.out as u128 } else { e.out as u128 + fe };
    // does the walk hold for the amount the program said it put on the curve
    let walk = match (s.dir, s.mode) {
        (Dir::Buy, Mode::ExactOut) => u64::try_from(gross).ok().and_then(|g| walk_buy_out(c, s.before.sqrt_price, g).ok()).map(|w| (w.amount, w.next, gross as u64)),
        (Dir::Sell, Mode::ExactOut) => u64::try_from(gross).ok().and_then(|g| walk_sell_out(c, s.before.sqrt_price, g).ok()).map(|w| (w.amount, w.next, gross as u64)),
        (Dir::Buy, _) => walk_buy_in(c, s.before.sqrt_price, e.excluded).ok().map(|w| (e.excluded, w.next, w.amount)),
        (Dir::Sell, _) => walk_sell_in(c, s.before.sqrt_price, e.excluded).ok().map(|w| (e.excluded, w.next, w.amount)),
    };
    match walk {
        Some((i, n, o)) if i == e.excluded && n == e.next && o as u128 == gross => {}
        _ => t.push("C01"),
    }
    let favoured = (e.out > m.out && e.included <= m.included_in) || (e.out >= m.out && e.included < m.included_in);
    if favoured && s.mode != Mode::Partial {
        t.push("C03");
    }
    if e.included != m.included_in || e.out != m.out || e.left != m.left {
        t.push("C08");
    }
    t
}

/// exact comparison with the real-valued curve integral between two prices
pub fn against_integral(c: &Config, from: u128, to: u128, dir: Dir, paid: u64, got: u128) -> Option<String> {
    let (lo, hi) = (from.min(to), from.max(to));
    let mut p = c.sqrt_start_price;
    // quote: sum L (b - a) / 2^128; base: sum L (b - a) / (a b)
    let mut q = B::zero();
    let mut bn = B::zero();
    let mut bd = b(1u32);
    for (pp, l) in c.points() {
        let (x, y) = (p.max(lo), pp.min(hi));
        if y > x {
            q += b(l) * b(y - x);
            let d = b(x) * b(y);
            bn = bn * &d + b(l) * b(y - x) * &bd;
            bd *= d;
        }
        p = pp;
    }
    let two128 = b(1u32) << 128u32;
    match dir {
        Dir::Buy => {
            if b(got) * &bd > bn {
                return Some(format!("buy from price {from} to {to} gave {got} base, more than the curve holds ({})", &bn / &bd));
            }
            if b(paid) * &two128 < q {
                return Some(format!("buy from price {from} to {to} paid {paid}, less than the curve costs ({})", &q >> 128u32));
            }
        }
        Dir::Sell => {
            if b(got) * &two128 > q {
                return Some(format!("sale from price {from} to {to} gave {got} quote, more than the curve pays ({})", &q >> 128u32));
            }
            if b(paid) * &bd < bn {
                return Some(format!("sale from price {from} to {to} took {paid} base, less than the curve needs ({})", &bn / &bd));
            }
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------------------ SDK

pub type SdkNumbers = (u64, u64, u64, u64, u128, u64, u64, u64);
pub fn sdk_expect(s: &SwapNote, m: &SwapR) -> SdkNumbers {
    // the exact-output quote does not know of referrers
    let (p, r) = if s.mode == Mode::ExactOut { (m.split.protocol + m.split.referral, 0) } else { (m.split.protocol, m.split.referral) };
    (m.included_in, m.excluded_in, m.left, m.out, m.next, m.split.trading, p, r)
}

pub fn sdk_quote(p: &Pool, c: &Config, s: &SwapNote) -> Result<SdkNumbers, String> {
    use dynamic_bonding_curve::state::{PoolConfig, VirtualPool};
    let pool: VirtualPool = bytemuck::pod_read_unaligned(bytemuck::bytes_of(p));
    let config: PoolConfig = bytemuck::pod_read_unaligned(bytemuck::bytes_of(c));
    // the clock the configuration does not use may show anything
    let any = match s.amounts.0 % 4 {
        0 => 0,
        1 => u64::MAX,
        2 => s.now / 2,
        _ => s.ts,
    };
    let (ts, slot) = if c.activation_type == 0 { (any, s.now) } else { (s.now, any) };
    let sell = s.dir == Dir::Sell;
    let a = s.amounts.0;
    IN_PROGRAM.with(|p| p.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s.mode {
        Mode::ExactIn => dynamic_bonding_curve_sdk::quote_exact_in::quote_exact_in(&pool, &config, sell, ts, slot, a, s.referral, s.first),
        Mode::Partial => {
            dynamic_bonding_curve_sdk::quote_partial_fill::quote_partial_fill(&pool, &config, sell, ts, slot, a, s.referral, s.first)
        }
        Mode::ExactOut => dynamic_bonding_curve_sdk::quote_exact_out::quote_exact_out(&pool, &config, sell, ts, slot, a, s.first),
    }));
    IN_PROGRAM.with(|p| p.set(false));
    match r {
        Err(_) => Err("panic".into()),
        Ok(Err(e)) => Err(e.to_string()),
        Ok(Ok(q)) => Ok((
            q.included_fee_input_amount,
            q.excluded_fee_input_amount,
            q.amount_left,
            q.output_amount,
            q.next_sqrt_price,
            q.trading_fee,
            q.protocol_fee,
            q.referral_fee,
        )),
    }
}

pub fn f64_of(x: &B) -> f64 {
    x.to_f64().unwrap_or(f64::INFINITY)
}

/// whether a number is off by so much that bits of it, or of something it was computed from, must have been lost
fn lost_bits(got: &[u8], exp: &[u8]) -> bool {
    if got.len() != exp.len() || !matches!(got.len(), 8 | 16) {
        return false;
    }
    let v = |d: &[u8]| d.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128);
    let (g, e) = (v(got), v(exp));
    let (lo, hi) = (g.min(e), g.max(e));
    hi - lo >= 200 && lo <= hi / 2
}
