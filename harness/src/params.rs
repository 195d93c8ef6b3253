//! Configuration parameters: mostly acceptable ones from many regimes, and ones just inside or outside the limits.
#![allow(dead_code)]

use crate::abi::*;
use crate::model::*;
use crate::rng::Rng;
use num_traits::ToPrimitive;

#[derive(Clone, Debug, Default)]
pub struct Bias {
    /// Some(m): base fee mode
    pub fee_mode: Option<u8>,
    pub dynamic: Option<bool>,
    pub first_min: bool,
    pub vesting: Option<bool>,
    pub option: Option<u8>,
    pub liq_vesting: bool,
    pub fixed: Option<bool>,
    pub creation_fee: bool,
    pub migration_fee: bool,
    pub token_type: Option<u8>,
    pub collect: Option<u8>,
    pub many_points: bool,
    pub compounding: bool,
    pub extreme: bool,
}

pub fn quote_of(r: &mut Rng, key: [u8; 32], is_2022: bool) -> QuoteInfo {
    let _ = r;
    QuoteInfo { key, supported: true, is_2022 }
}

fn near(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    match r.below(6) {
        0 => lo,
        1 => hi,
        2 => (lo + 1).min(hi),
        3 => hi.saturating_sub(1).max(lo),
        _ => r.range(lo, hi),
    }
}

/// integer 2^(x/16)
fn exp2_16(x: u64) -> f64 {
    (x as f64 / 16.0).exp2()
}

fn curve(r: &mut Rng, bias: &Bias) -> (u128, Vec<(u128, u128)>, u64) {
    let n = match r.below(10) {
        0..=3 => 1 + r.below(3),
        4..=6 => 2 + r.below(6),
        7 => 16,
        8 => 15,
        _ => 1 + r.below(16),
    } as usize;
    let n = if bias.many_points { n.max(4) } else { n };
    if r.chance(if bias.extreme { 60 } else { 8 }) {
        // anything
        let start = match r.below(3) {
            0 => MIN_SQRT_PRICE + r.below(3) as u128,
            _ => r.log128(MIN_SQRT_PRICE, MAX_SQRT_PRICE - 1),
        };
        let mut pts = vec![];
        let mut p = start;
        for i in 0..n {
            if p >= MAX_SQRT_PRICE {
                break;
            }
            let next = match r.below(6) {
                0 => p + 1 + r.below(5) as u128,
                1 => (p + (p >> (1 + r.below(30))) + 1).min(MAX_SQRT_PRICE),
                2 if i + 1 == n => MAX_SQRT_PRICE,
                _ => r.log128(p + 1, MAX_SQRT_PRICE),
            };
            let l = match r.below(8) {
                0 => 1 + r.below(3) as u128,
                1 => u128::MAX - r.below(3) as u128,
                _ => r.log128(1, u128::MAX),
            };
            pts.push((next, l));
            p = next;
        }
        let mut total = b(0u32);
        let mut q = start;
        for (pp, l) in &pts {
            total += quote_delta(q, *pp, *l, true);
            q = *pp;
        }
        let cap = total.to_u64().unwrap_or(u64::MAX).max(1);
        let t = match r.below(5) {
            0 => cap,
            1 => cap.saturating_sub(1).max(1),
            2 => 1 + r.below(10),
            _ => r.log(1, cap),
        };
        return (start, pts, t);
    }
    // a sensible launch: threshold 2^tq quote units for 2^tb base units
    let (tq, tb) = if r.chance(75) {
        (r.range(20 * 16, 48 * 16), r.range(36 * 16, 56 * 16))
    } else {
        (r.range(1, 62 * 16), r.range(4 * 16, 61 * 16))
    };
    let t = exp2_16(tq).max(1.0);
    let base = exp2_16(tb);
    let price = t / base;
    let p_mid = price.sqrt() * 18446744073709551616.0;
    let spread = match r.below(6) {
        0 => 1.0 + r.below(1000) as f64 / 1e6,
        1 => 1.0 + r.below(1000) as f64 / 1e3,
        2 => 2.0 + r.below(20) as f64,
        _ => 1.1 + r.below(400) as f64 / 100.0,
    };
    let lo = (p_mid / spread).max(MIN_SQRT_PRICE as f64 + 2.0);
    let mut start = lo as u128;
    start = start.clamp(MIN_SQRT_PRICE, MAX_SQRT_PRICE - 1000);
    if r.chance(4) {
        start = MIN_SQRT_PRICE;
    }
    let mut pts: Vec<(u128, u128)> = vec![];
    let mut p = start;
    let total_ratio = spread * spread;
    // room beyond the threshold
    let over = match r.below(6) {
        0 => 1.0,
        1 => 1.0 + r.below(100) as f64 / 1e4,
        2 => 5.0,
        _ => 1.0 + r.below(300) as f64 / 100.0,
    };
    for i in 0..n {
        let f = total_ratio.powf(1.0 / n as f64);
        let next = ((p as f64) * f) as u128;
        let mut next = next.max(p + 1).min(MAX_SQRT_PRICE);
        if i + 1 == n && r.chance(15) {
            next = MAX_SQRT_PRICE;
        }
        if next <= p {
            break;
        }
        // quote of this range
        let share = t * over / n as f64 * (0.2 + r.below(160) as f64 / 100.0);
        let l = share * 2f64.powi(128) / (next - p) as f64;
        let l = if l >= 3.4e38 { u128::MAX } else { (l as u128).max(1) };
        let l = l.saturating_add(r.below(1000) as u128);
        pts.push((next, l));
        p = next;
    }
    let mut deltas = vec![];
    let mut q = start;
    for (pp, l) in &pts {
        deltas.push(quote_delta(q, *pp, *l, true).to_u64().unwrap_or(u64::MAX / 32));
        q = *pp;
    }
    let cap: u64 = deltas.iter().fold(0u64, |a, x| a.saturating_add(*x));
    let mut th = match r.below(10) {
        0 => cap,
        1 => {
            // exactly at the end of a range, or one off
            let k = r.below(deltas.len() as u64) as usize;
            let s = deltas[..=k].iter().fold(0u64, |a, x| a.saturating_add(*x));
            match r.below(3) {
                0 => s,
                1 => s.saturating_sub(1),
                _ => s.saturating_add(1),
            }
        }
        _ => (t as u64).min(cap),
    };
    th = th.max(1);
    (start, pts, th)
}

fn base_fee(r: &mut Rng, bias: &Bias, collect: &mut u8, activation: u8, threshold: u64) -> BaseFeeP {
    let mode = bias.fee_mode.unwrap_or_else(|| [0, 0, 1, 1, 2][r.below(5) as usize]);
    let cliff = match r.below(8) {
        0 => MIN_FEE,
        1 => MAX_FEE,
        2 => MIN_FEE + 1 + r.below(1000),
        3 => r.range(400_000_000, MAX_FEE),
        _ => r.range(5_000_000, 200_000_000),
    };
    let freq = match r.below(32) {
        0..=7 => 1,
        8..=15 => r.range(1, 10),
        16 => r.log(3600, u64::MAX),
        17 => (1u64 << *r.pick(&[8u32, 16, 31, 32, 32, 48, 63])) + r.below(50),
        _ => r.range(5, 3600),
    };
    match mode {
        0 => {
            if r.chance(if bias.fee_mode.is_some() { 5 } else { 30 }) {
                return BaseFeeP { cliff, mode, ..Default::default() };
            }
            let n = match r.below(4) {
                0 => 1,
                1 => 65535,
                _ => r.range(2, 200),
            };
            let max_red = (cliff - MIN_FEE.min(cliff)) / n;
            let third = match r.below(4) {
                0 => max_red,
                _ => r.range(1, max_red.max(1)),
            };
            BaseFeeP { cliff, first: n as u16, second: freq, third, mode }
        }
        1 => {
            if r.chance(if bias.fee_mode.is_some() { 5 } else { 30 }) {
                return BaseFeeP { cliff, mode, ..Default::default() };
            }
            // reduction so that it stays above the minimum
            let n = match r.below(4) {
                0 => 1,
                1 => r.range(200, 5000),
                _ => r.range(2, 120),
            };
            let mut third = match r.below(3) {
                0 => r.range(1, 10),
                _ => {
                    let room = (cliff as f64 / MIN_FEE as f64).ln() / n as f64;
                    ((1.0 - (-room).exp()) * 10_000.0 * (0.3 + r.below(70) as f64 / 100.0)) as u64
                }
            };
            third = third.clamp(1, 9_999);
            for _ in 0..20 {
                let f = BaseFee { mode: 1, cliff, first: n as u16, second: freq, third };
                if f.min_fee().map(|m| m >= MIN_FEE).unwrap_or(false) {
                    break;
                }
                third = (third / 2).max(1);
            }
            BaseFeeP { cliff, first: n as u16, second: freq, third, mode }
        }
        _ => {
            *collect = 0;
            if r.chance(8) {
                return BaseFeeP { cliff, mode, ..Default::default() };
            }
            let max = if activation == 0 { 108_000 } else { 43_200 };
            let cliff = cliff.min(MAX_FEE - 100_000);
            let first = match r.below(5) {
                0 => 1,
                1 => 9_900,
                _ => r.range(1, 3000),
            } as u16;
            let third = match r.below(6) {
                0 => 1,
                1 => r.log(1, u64::MAX),
                _ => r.log((threshold / 1000).max(1), threshold.max(2)),
            };
            BaseFeeP { cliff, first, second: near(r, 1, max), third, mode }
        }
    }
}

fn percentages(r: &mut Rng, parts: usize) -> Vec<u8> {
    let mut v = vec![0u8; parts];
    match r.below(5) {
        0 => v[r.below(parts as u64) as usize] = 100,
        1 => {
            let (a, c) = (r.below(parts as u64) as usize, r.below(parts as u64) as usize);
            let x = r.range(0, 100) as u8;
            v[a] += x;
            v[c] += 100 - x;
        }
        _ => {
            let mut left = 100;
            for x in v.iter_mut().take(parts - 1) {
                let n = r.range(0, left);
                *x = n as u8;
                left -= n;
            }
            v[parts - 1] = left as u8;
            // mix
            for i in (1..parts).rev() {
                let j = r.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
        }
    }
    v
}

fn liq_vesting(r: &mut Rng, pct: u8) -> LiqVestingP {
    if pct == 0 {
        return LiqVestingP::default();
    }
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 10),
        _ => r.range(2, 365),
    };
    let bps = if n == 0 {
        0
    } else {
        match r.below(4) {
            0 => 10_000 / n,
            1 => 1,
            _ => r.range(1, (10_000 / n).max(1)),
        }
    };
    let total = 63_072_000u64;
    let cliff = match r.below(5) {
        0 => 0,
        1 => 86_400,
        2 => 86_399 + r.below(3),
        3 => r.range(1, total / 2),
        _ => r.range(0, 10 * 86_400),
    };
    let freq = if n == 0 {
        0
    } else {
        match r.below(4) {
            0 => (total - cliff) / n,
            1 => 86_400.min((total - cliff) / n),
            _ => r.range(1, ((total - cliff) / n).max(1)),
        }
    };
    LiqVestingP { pct, bps: bps as u16, n: n as u16, cliff: cliff.max((n == 0) as u64) as u32, freq: freq as u32 }
}

pub fn try_params(r: &mut Rng, bias: &Bias, is_2022: bool) -> ConfigP {
    let (start, pts, th) = curve(r, bias);
    let mut p = ConfigP::default();
    p.sqrt_start_price = start;
    p.curve = pts;
    p.migration_quote_threshold = th;
    p.activation_type = r.below(2) as u8;
    p.collect_fee_mode = bias.collect.unwrap_or_else(|| r.below(2) as u8);
    p.base_fee = base_fee(r, bias, &mut p.collect_fee_mode, p.activation_type, th);
    if bias.dynamic.unwrap_or_else(|| r.chance(40)) {
        let decay = match r.below(4) {
            0 => 1,
            1 => 65535,
            _ => r.range(2, 600),
        };
        let filter = near(r, 0, decay - 1);
        p.dynamic = Some(DynFeeP {
            bin_step: 1,
            bin_step_u128: 1844674407370955,
            filter: filter as u16,
            decay: decay as u16,
            reduction: near(r, 0, 10_000) as u16,
            max_vol: match r.below(3) {
                0 => 0xffffff,
                1 => r.log(1, 0xffffff),
                _ => r.range(10_000, 4_000_000),
            } as u32,
            control: match r.below(3) {
                0 => r.log(1, 0xffffff),
                1 => near(r, 0, 0xffffff),
                _ => r.range(1, 100_000),
            } as u32,
        });
    }
    p.migration_option = bias.option.unwrap_or_else(|| if is_2022 { 1 } else { r.below(3).min(1) as u8 });
    if is_2022 {
        p.migration_option = 1;
    }
    p.token_type = bias.token_type.unwrap_or_else(|| if p.migration_option == 0 { 0 } else { r.below(2) as u8 });
    if p.migration_option == 0 {
        p.token_type = 0;
    }
    p.token_decimal = r.range(6, 9) as u8;
    if p.migration_option == 0 {
        let v = percentages(r, 4);
        (p.partner_liq, p.partner_perm, p.creator_liq, p.creator_perm) = (v[0], v[1], v[2], v[3]);
        p.migration_fee_option = r.below(6) as u8;
    } else {
        let v = if bias.liq_vesting || r.chance(40) {
            percentages(r, 6)
        } else {
            let mut v = percentages(r, 4);
            v.extend([0, 0]);
            v
        };
        (p.partner_liq, p.partner_perm, p.creator_liq, p.creator_perm) = (v[0], v[1], v[2], v[3]);
        p.partner_vesting = liq_vesting(r, v[4]);
        p.creator_vesting = liq_vesting(r, v[5]);
        p.migration_fee_option = if bias.compounding || r.chance(55) { 6 } else { r.below(6) as u8 };
        if p.migration_fee_option == 6 {
            p.migrated_bps = near(r, 10, 1000) as u16;
            p.migrated_collect = if bias.compounding { 2 } else { r.below(3) as u8 };
            p.migrated_dynamic = r.below(2) as u8;
            if p.migrated_collect == 2 {
                p.compounding_bps = near(r, 1, 10_000) as u16;
            }
            p.migrated_base_fee_mode = [0, 1, 3, 4][r.below(4) as usize];
            if p.migrated_base_fee_mode >= 3 {
                let n = r.range(1, 30);
                let cliff = p.migrated_bps as u64 * 100_000;
                p.market_cap = MarketCapP {
                    number_of_period: n as u16,
                    sqrt_price_step_bps: r.range(1, 1000) as u16,
                    expiration: r.range(1, 1_000_000) as u32,
                    reduction: if p.migrated_base_fee_mode == 3 {
                        r.range(1, (cliff / n).max(1))
                    } else {
                        r.range(1, 800)
                    },
                };
            }
        }
    }
    if bias.vesting.unwrap_or_else(|| r.chance(35)) {
        let unit = 1u64 << r.range(0, 44);
        p.locked_vesting = LockedVestingP {
            amount_per_period: if r.chance(80) { r.range(1, unit) } else { 0 },
            cliff_duration: near(r, 0, 1_000_000),
            frequency: near(r, 1, 100_000),
            number_of_period: if r.chance(85) { r.range(1, 1000) } else { 0 },
            cliff_unlock: if r.chance(60) { r.range(0, unit) } else { 0 },
        };
    }
    p.creator_fee_pct = match r.below(4) {
        0 => 0,
        1 => 100,
        _ => r.range(0, 100) as u8,
    };
    p.token_authority = r.below(5) as u8;
    if bias.migration_fee || r.chance(50) {
        p.migration_fee_pct = near(r, 1, 99) as u8;
        p.creator_migration_fee_pct = near(r, 0, 100) as u8;
    }
    if bias.creation_fee || r.chance(30) {
        p.pool_creation_fee = match r.below(4) {
            0 => 1_000_000,
            1 => 100_000_000_000,
            _ => r.log(1_000_000, 100_000_000_000),
        };
    }
    p.first_swap_min_fee = bias.first_min || r.chance(25);
    p
}

/// adds a token supply around the minimum the curve needs
pub fn add_supply(r: &mut Rng, p: &mut ConfigP, q: &QuoteInfo) {
    p.token_supply = None;
    let Ok(c) = derive_config(p, q, [1; 32], [2; 32]) else { return };
    let Ok(with) = initial_supply(&c) else { return };
    let Ok(without) = total_supply(c.swap_base_amount, c.migration_base_threshold, c.vesting_total()) else { return };
    let pre = match r.below(4) {
        0 => with,
        1 => with.saturating_add(r.log(1, with.max(1))),
        2 => with.saturating_add(r.below(10)),
        _ => with.saturating_add(with / 4),
    };
    let post = match r.below(5) {
        0 => without.min(pre),
        1 => pre,
        2 => (without + (with - without) / 2).min(pre),
        _ => r.range(without.min(pre), pre),
    };
    p.token_supply = Some((pre, post));
}

pub fn good_params(r: &mut Rng, bias: &Bias, q: &QuoteInfo) -> ConfigP {
    for _ in 0..60 {
        let mut p = try_params(r, bias, q.is_2022);
        if bias.fixed.unwrap_or_else(|| r.chance(40)) {
            add_supply(r, &mut p, q);
        }
        if let Ok(c) = derive_config(&p, q, [1; 32], [2; 32]) {
            if initial_supply(&c).is_ok() {
                return p;
            }
        }
    }
    let mut p = ConfigP {
        base_fee: BaseFeeP { cliff: 10_000_000, ..Default::default() },
        migration_option: 1,
        token_type: 0,
        token_decimal: 6,
        partner_liq: 50,
        creator_perm: 50,
        migration_quote_threshold: 85_000_000_000,
        sqrt_start_price: 97_539_491_000_000_000,
        curve: vec![(397_539_491_000_000_000, 1_000_000_000_000_000_000_000_000_000_000_000)],
        ..Default::default()
    };
    p.migration_fee_option = 2;
    p
}

/// one change that may or may not matter
pub fn nudge(r: &mut Rng, p: &mut ConfigP) -> &'static str {
    macro_rules! set {
        ($f:expr, $($v:expr),+) => {{
            let c = [$($v),+];
            $f = c[r.below(c.len() as u64) as usize];
        }};
    }
    macro_rules! off {
        ($f:expr) => {
            $f = if r.chance(50) { $f.wrapping_add(1) } else { $f.wrapping_sub(1) }
        };
    }
    match r.below(57) {
        0 => { set!(p.activation_type, 0, 1, 2, 255); "activation_type" }
        1 => { set!(p.base_fee.cliff, MIN_FEE - 1, MIN_FEE, MAX_FEE, MAX_FEE + 1, 0, DENOM, u64::MAX); "cliff" }
        2 => { off!(p.base_fee.third); "fee third" }
        3 => { off!(p.base_fee.first); "fee first" }
        4 => { off!(p.base_fee.second); "fee second" }
        5 => { set!(p.base_fee.mode, 0, 1, 2, 3, 4, 5, 255); "fee mode" }
        6 => { set!(p.base_fee.first, 0, 1, 9_999, 10_000, 10_001, u16::MAX); "fee first" }
        7 => { set!(p.base_fee.second, 0, 1, 43_200, 43_201, 108_000, 108_001, u64::MAX); "fee second" }
        8 => { set!(p.base_fee.third, 0, 1, 9_999, 10_000, 10_001, u64::MAX); "fee third" }
        9 => { if let Some(d) = &mut p.dynamic { set!(d.bin_step, 0, 1, 2, u16::MAX); } "bin step" }
        10 => { if let Some(d) = &mut p.dynamic { off!(d.bin_step_u128); } "bin step 128" }
        11 => { if let Some(d) = &mut p.dynamic { d.filter = d.decay.wrapping_sub(r.below(3) as u16); } "filter" }
        12 => { if let Some(d) = &mut p.dynamic { set!(d.reduction, 0, 10_000, 10_001, u16::MAX); } "reduction" }
        13 => { if let Some(d) = &mut p.dynamic { set!(d.control, 0, 0xffffff, 0x1000000, u32::MAX); } "control" }
        14 => { if let Some(d) = &mut p.dynamic { set!(d.max_vol, 0, 0xffffff, 0x1000000, u32::MAX); } "max vol" }
        15 => { set!(p.creator_fee_pct, 0, 100, 101, 255); "creator fee pct" }
        16 => { set!(p.migration_fee_pct, 0, 1, 98, 99, 100, 255); "migration fee pct" }
        17 => { set!(p.creator_migration_fee_pct, 0, 1, 100, 101, 255); "creator migration fee pct" }
        18 => { set!(p.collect_fee_mode, 0, 1, 2, 255); "collect fee mode" }
        19 => { set!(p.migration_option, 0, 1, 2, 255); "migration option" }
        20 => { set!(p.migration_fee_option, 0, 1, 2, 3, 4, 5, 6, 7, 255); "migration fee option" }
        21 => { set!(p.token_type, 0, 1, 2, 255); "token type" }
        22 => { set!(p.token_authority, 0, 1, 2, 3, 4, 5, 255); "token authority" }
        23 => { set!(p.token_decimal, 0, 5, 6, 9, 10, 255); "decimals" }
        24 => { off!(p.partner_liq); "partner liq" }
        25 => { off!(p.creator_perm); "creator perm" }
        26 => {
            // keep the sum but move weight away from what is locked
            let n = p.partner_perm.min(r.range(1, 100) as u8);
            p.partner_perm -= n;
            p.partner_liq = p.partner_liq.wrapping_add(n);
            "unlock partner"
        }
        27 => {
            let n = p.creator_perm.min(r.range(1, 100) as u8);
            p.creator_perm -= n;
            p.creator_liq = p.creator_liq.wrapping_add(n);
            "unlock creator"
        }
        28 => {
            // around the ten percent that must stay locked
            let n = 8 + r.below(4) as u8;
            p.partner_vesting = LiqVestingP::default();
            p.creator_vesting = LiqVestingP::default();
            if r.chance(50) {
                (p.partner_perm, p.creator_perm, p.partner_liq, p.creator_liq) = (n, 0, 100 - n, 0);
            } else {
                let k = r.below(n as u64 + 1) as u8;
                (p.partner_perm, p.creator_perm, p.partner_liq, p.creator_liq) = (k, n - k, 40, 60 - n);
            }
            "minimum lock"
        }
        29 => {
            let n = 8 + r.below(5) as u8;
            let v = liq_vesting(r, n);
            p.creator_vesting = LiqVestingP::default();
            p.partner_vesting = LiqVestingP::default();
            if r.chance(50) { p.partner_vesting = v } else { p.creator_vesting = v }
            (p.partner_perm, p.creator_perm, p.partner_liq, p.creator_liq) = (0, 0, 100 - n, 0);
            "minimum lock by vesting"
        }
        30 => { p.migration_quote_threshold = 0; "threshold zero" }
        31 => { p.migration_quote_threshold = p.migration_quote_threshold.saturating_mul(1 + r.below(5)); "threshold up" }
        32 => { set!(p.locked_vesting.frequency, 0, 1, u64::MAX); "vesting frequency" }
        33 => { set!(p.locked_vesting.amount_per_period, 0, 1, u64::MAX); "vesting amount" }
        34 => { set!(p.locked_vesting.number_of_period, 0, 1, u64::MAX); "vesting periods" }
        35 => { set!(p.locked_vesting.cliff_unlock, 0, 1, u64::MAX); "vesting cliff" }
        36 => { set!(p.pool_creation_fee, 0, 1, 999_999, 1_000_000, 100_000_000_000, 100_000_000_001, u64::MAX); "creation fee" }
        37 => { set!(p.sqrt_start_price, 0, MIN_SQRT_PRICE - 1, MIN_SQRT_PRICE, MAX_SQRT_PRICE - 1, MAX_SQRT_PRICE); "start price" }
        38 => {
            let i = r.below(p.curve.len().max(1) as u64) as usize;
            if i < p.curve.len() {
                match r.below(4) {
                    0 => p.curve[i].1 = 0,
                    1 => p.curve[i].0 = if i == 0 { p.sqrt_start_price } else { p.curve[i - 1].0 },
                    2 => p.curve[i].0 = 0,
                    _ => p.curve[i].0 = p.curve[i].0.wrapping_sub(1),
                }
            }
            "curve point"
        }
        39 => { if let Some(l) = p.curve.last_mut() { set!(l.0, MAX_SQRT_PRICE - 1, MAX_SQRT_PRICE, MAX_SQRT_PRICE + 1, u128::MAX); } "curve end" }
        40 => { p.curve.clear(); "curve empty" }
        41 => {
            while p.curve.len() < 15 + r.below(4) as usize {
                let l = p.curve.last().copied().unwrap_or((p.sqrt_start_price, 1));
                p.curve.push((l.0.saturating_add(1 + r.below(1000) as u128), l.1.max(1)));
            }
            "curve long"
        }
        42 => { set!(p.migrated_bps, 0, 9, 10, 1000, 1001, u16::MAX); "migrated bps" }
        43 => { set!(p.migrated_collect, 0, 1, 2, 3, 255); "migrated collect" }
        44 => { set!(p.migrated_dynamic, 0, 1, 2, 255); "migrated dynamic" }
        45 => { set!(p.compounding_bps, 0, 1, 10_000, 10_001, u16::MAX); "compounding bps" }
        46 => { set!(p.migrated_base_fee_mode, 0, 1, 2, 3, 4, 5, 255); "migrated fee mode" }
        47 => {
            match r.below(4) {
                0 => { set!(p.market_cap.number_of_period, 0, 1, u16::MAX); }
                1 => { set!(p.market_cap.sqrt_price_step_bps, 0, 1, u16::MAX); }
                2 => { set!(p.market_cap.expiration, 0, 1, u32::MAX); }
                _ => { set!(p.market_cap.reduction, 0, 1, 9_999, 10_000, 10_001, u64::MAX); }
            }
            "market cap"
        }
        48 => {
            if let Some((a, c)) = &mut p.token_supply {
                match r.below(4) {
                    0 => off!(*a),
                    1 => off!(*c),
                    2 => *a = *c,
                    _ => *c = a.wrapping_add(1),
                }
            }
            "supply"
        }
        49 => {
            let v = if r.chance(50) { &mut p.partner_vesting } else { &mut p.creator_vesting };
            match r.below(5) {
                0 => { set!(v.pct, 0, 1, 100, 101, 255); }
                1 => { set!(v.bps, 0, 1, 10_000, 10_001, u16::MAX); }
                2 => { set!(v.n, 0, 1, 10_000, u16::MAX); }
                3 => { set!(v.cliff, 0, 1, 86_400, 86_401, 63_072_000, 63_072_001, u32::MAX); }
                _ => { set!(v.freq, 0, 1, 63_072_000, u32::MAX); }
            }
            "liquidity vesting"
        }
        51..=53 => {
            // a threshold just within or just beyond what the curve takes, in all or up to one of its points
            let ordered = p.sqrt_start_price < p.curve.first().map(|x| x.0).unwrap_or(0) && p.curve.windows(2).all(|w| w[0].0 < w[1].0);
            if ordered {
                if r.chance(60) && p.curve.len() > 1 {
                    p.curve.truncate(1 + r.below(p.curve.len() as u64) as usize);
                }
                let k = if r.chance(70) { p.curve.len() } else { 1 + r.below(p.curve.len() as u64) as usize };
                let (mut at, mut sum) = (p.sqrt_start_price, b(0u32));
                for (pp, l) in &p.curve[..k] {
                    sum += quote_delta(at, *pp, *l, true);
                    at = *pp;
                }
                let d = r.below(6);
                let sum = if r.chance(50) { sum + b(d) } else if sum > b(d) { sum - b(d) } else { sum };
                if let Ok(x) = to64(&sum) {
                    p.migration_quote_threshold = x;
                }
            }
            "curve capacity"
        }
        54 | 55 => {
            // the same curve so much deeper that its supply lies about the largest amount there is
            if r.chance(70) {
                p.token_supply = None;
            }
            if r.chance(70) {
                p.locked_vesting = Default::default();
            }
            let ordered = p.sqrt_start_price >= MIN_SQRT_PRICE
                && p.sqrt_start_price < p.curve.first().map(|x| x.0).unwrap_or(0)
                && p.curve.windows(2).all(|w| w[0].0 < w[1].0);
            if !ordered {
                return "supply edge";
            }
            let Ok(mp) = migration_price(&p.curve, p.sqrt_start_price, p.migration_quote_threshold) else { return "supply edge" };
            if mp <= MIN_SQRT_PRICE || mp >= MAX_SQRT_PRICE {
                return "supply edge";
            }
            let sb = swap_base_amount(&p.curve, p.sqrt_start_price, mp);
            let max = swap_base_amount(&p.curve, p.sqrt_start_price, MAX_SQRT_PRICE);
            let buf = (b(sb.clone()) * 125u32 / 100u32).min(max);
            let concentrated = p.migration_option == 1 && p.migrated_collect != 2;
            let keep = (p.migration_quote_threshold as u128 * 100u128.saturating_sub(p.migration_fee_pct as u128) / 100) as u64;
            let base = migration_base(concentrated, mp, keep).map(b).unwrap_or_default();
            let of = match r.below(5) {
                0 => sb,
                1 => buf,
                2 => sb + base,
                _ => buf + base,
            };
            let part = 9_700 + r.below(600);
            if of < b(1000u32) {
                return "supply edge";
            }
            let top = b(u64::MAX) * part / 10_000u32;
            let t = (b(p.migration_quote_threshold) * &top / &of).to_u64();
            let ls: Option<Vec<u128>> = p.curve.iter().map(|(_, l)| (b(*l) * &top / &of).to_u128()).collect();
            if let (Some(t), Some(ls)) = (t, ls) {
                p.migration_quote_threshold = t;
                for (c, l) in p.curve.iter_mut().zip(ls) {
                    c.1 = l;
                }
            }
            "supply edge"
        }
        50 => { p.first_swap_min_fee = !p.first_swap_min_fee; "first swap" }
        _ => { p.padding = [1, 2]; "padding" }
    }
}
