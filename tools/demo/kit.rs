//! short words for scripted scenarios
pub use crate::abi::*;
pub use crate::ext::*;
pub use crate::gen::*;
pub use crate::model::*;
pub use crate::params::Bias;
pub use crate::predict::NameParams;
pub use crate::svm::*;
pub use crate::world::*;
pub use names::{AccountMeta, Instruction, Pubkey};
mod names {
    pub use anchor_lang::prelude::Pubkey;
    pub use anchor_lang::solana_program::instruction::{AccountMeta, Instruction};
}
pub type T = Result<(), String>;

pub fn start() -> Gen {
    let f = Focus { bias: Bias::default(), hostile: 0, steps: 0, weights: base_weights(), late: 0, faults: 0, q22: None };
    Gen::new(7, f)
}
/// a plain launch: 1% fee, DAMM v2, price 4x between start and the end
pub fn params() -> ConfigP {
    ConfigP {
        base_fee: BaseFeeP { cliff: 10_000_000, ..Default::default() },
        migration_option: 1,
        token_type: 0,
        token_decimal: 6,
        partner_perm: 50,
        creator_perm: 50,
        migration_fee_option: 2,
        migration_quote_threshold: 85_000_000_000,
        sqrt_start_price: 97_539_491_000_000_000,
        curve: vec![
            (200_000_000_000_000_000, 20_000_000_000_000_000_000_000_000_000_000u128),
            (397_539_491_000_000_000_000, 40_000_000_000_000_000_000_000_000_000_000u128),
        ],
        ..Default::default()
    }
}
pub fn say(o: &Out) -> String {
    format!("{:?}", o.err)
}
pub fn need(b: bool, s: &str) -> T {
    if b { Ok(()) } else { Err(s.to_string()) }
}
/// must be accepted
pub fn go(g: &mut Gen, i: Instruction, what: &str) -> Result<Out, String> {
    let o = g.w.exec(&[i]);
    if o.ok { Ok(o) } else { Err(format!("{what} was refused: {}", say(&o))) }
}
pub fn launch_on(g: &mut Gen, p: &ConfigP, quote: usize) -> Result<usize, String> {
    let key = g.r.key();
    let (partner, q) = (g.partners[0], g.quotes[quote].mint);
    let i = g.i_create_config(key, p, q, partner, partner);
    go(g, i, "the configuration")?;
    let c = g.w.config(&key).ok_or("no configuration")?;
    let (bm, creator) = (g.r.key(), g.creators[0]);
    let np = NameParams { name: "a".into(), symbol: "b".into(), uri: "c".into() };
    let i = g.i_init(key, &c, bm, creator, &np);
    go(g, i, "the pool")?;
    let p = g.pool_of(key, &c, bm);
    g.pools.push(p);
    Ok(g.pools.len() - 1)
}
/// configuration and pool with wrapped SOL as quote
pub fn launch(g: &mut Gen, p: &ConfigP) -> Result<usize, String> {
    launch_on(g, p, 0)
}
pub fn swap(g: &mut Gen, n: usize, user: Pubkey, dir: Dir, mode: u8, a0: u64, a1: u64, referral: bool) -> Out {
    let p = g.pools[n].clone();
    let (bt, qt) = (g.ta(&user, &p.bm), g.ta(&user, &p.qm));
    let _ = bt;
    if dir == Dir::Buy {
        g.fund(&qt, 1 << 60);
    }
    let rf = if referral {
        let who = g.users[3];
        let base = dir == Dir::Buy && p.c.collect_fee_mode == 1;
        Some(g.ta(&who, if base { &p.bm } else { &p.qm }))
    } else {
        None
    };
    let i = g.i_swap(&p, user, dir, mode, a0, a1, rf, false, true);
    g.w.exec(&[i])
}
pub fn buy(g: &mut Gen, n: usize, amount: u64) -> Result<SwapEv, String> {
    let u = g.users[1];
    let o = swap(g, n, u, Dir::Buy, 0, amount, 0, false);
    ev(&o)
}
pub fn ev(o: &Out) -> Result<SwapEv, String> {
    if !o.ok {
        return Err(format!("the swap was refused: {}", say(o)));
    }
    o.events.iter().find_map(swap_ev).ok_or("no swap event".to_string())
}
pub fn bal(g: &mut Gen, user: &Pubkey, mint: &Pubkey) -> u64 {
    let k = g.ta(user, mint);
    g.w.tokens(&k)
}
pub fn complete_it(g: &mut Gen, n: usize) -> T {
    let u = g.users[1];
    let o = swap(g, n, u, Dir::Buy, 1, 1 << 59, 0, false);
    ev(&o).map(|_| ())
}
pub fn wait(g: &mut Gen, secs: u64) {
    g.w.svm.clock.unix_timestamp += secs as i64;
    g.w.svm.clock.slot += secs * 2;
}
pub fn data(g: &Gen, k: &Pubkey) -> Vec<u8> {
    g.w.acc(k).data
}
