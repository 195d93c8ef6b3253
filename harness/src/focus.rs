//! What each property's workload leans towards. Every property runs whole histories; the mix differs.
use crate::gen::{base_weights, Focus, Op, Op::*};
use crate::params::Bias;
use crate::rng::Rng;

pub const PROPS: [&str; 34] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34",
];

/// only these, with these weights
fn only(v: &[(Op, u32)]) -> Vec<(Op, u32)> {
    v.to_vec()
}
fn more(v: &[(Op, u32)]) -> Vec<(Op, u32)> {
    let mut w = base_weights();
    for (o, k) in v {
        match w.iter_mut().find(|x| x.0 == *o) {
            Some(x) => x.1 = *k,
            None => w.push((*o, *k)),
        }
    }
    w
}
const TRADES: [(Op, u32); 10] =
    [
    (Buy, 18),
    (Sell, 12),
    (BuyOut, 9),
    (SellOut, 8),
    (Partial, 8),
    (Complete, 2),
    (Time, 12),
    (NewPool, 3),
    (Limits, 2),
    (MintMore, 1),
];
fn trades(extra: &[(Op, u32)]) -> Vec<(Op, u32)> {
    let mut w = TRADES.to_vec();
    for (o, k) in extra {
        match w.iter_mut().find(|x| x.0 == *o) {
            Some(x) => x.1 = *k,
            None => w.push((*o, *k)),
        }
    }
    w
}

/// the mix for one case of a property
pub fn focus(prop: &str, r: &mut Rng) -> Focus {
    let mut f = Focus { bias: Bias::default(), hostile: 4, steps: 30, weights: base_weights(), late: 15, faults: 4, q22: None };
    // now and then a plain mixed history, whatever the property
    if r.chance(12) {
        f.late = 40;
        f.bias.extreme = r.chance(15);
        return f;
    }
    f.bias.extreme = r.chance(10);
    let sc = |r: &mut Rng| Some(if r.chance(50) { 0u8 } else { 1 });
    match prop {
        "C01" => {
            f.weights = trades(&[(Complete, 3), (Split, 1)]);
            f.bias.many_points = r.chance(60);
            f.bias.extreme = r.chance(35);
            f.late = 0;
            f.hostile = 1;
            f.weights.push((ConfigFuzz, 1));
        }
        "C02" => {
            f.weights = more(&[(Buy, 22), (Sell, 14), (Donate, 3)]);
            f.late = 40;
            f.bias.migration_fee = r.chance(50);
        }
        "C03" => {
            f.weights = trades(&[(RoundTrip, 12), (Split, 12), (Complete, 0), (BuyOut, 12), (SellOut, 12)]);
            f.bias.many_points = r.chance(50);
            f.bias.extreme = r.chance(40);
            f.late = 0;
            f.steps = 22;
            f.hostile = 0;
        }
        "C04" => {
            f.weights = trades(&[(FeeProbe, 4), (ClaimPartner, 2), (ClaimCreator, 2), (ClaimProtocol, 2)]);
            f.late = 0;
            f.bias.collect = Some(r.below(2) as u8);
        }
        "C05" => {
            f.bias.fee_mode = sc(r);
            f.bias.dynamic = Some(r.chance(20));
            f.weights = trades(&[(Schedule, 10), (Time, 20)]);
            f.late = 0;
            f.steps = 24;
            f.weights.push((ConfigFuzz, 2));
            f.weights.push((OldTerms, 3));
        }
        "C06" => {
            f.bias.fee_mode = Some(2);
            f.bias.dynamic = Some(r.chance(30));
            f.weights = trades(&[(FeeProbe, 8), (Layout, 10), (BuyOut, 16), (Time, 8), (Bundle, 4), (Schedule, 2)]);
            f.late = 0;
            f.steps = 24;
            f.weights.push((ConfigFuzz, 2));
        }
        "C07" => {
            f.bias.dynamic = Some(!r.chance(8));
            f.weights = trades(&[(Time, 30), (FeeProbe, 3)]);
            f.late = 0;
            f.steps = 40;
            f.weights.push((ConfigFuzz, 2));
        }
        "C08" => {
            f.weights = trades(&[(Limits, 20), (Partial, 14), (Complete, 4), (FeeProbe, 2)]);
            f.late = 0;
        }
        "C09" => {
            f.bias.first_min = !r.chance(15);
            f.weights = more(&[(Layout, 30), (Bundle, 20), (NewPool, 12), (NewConfig, 3)]);
            f.late = 5;
            f.steps = 18;
        }
        "C10" => {
            f.weights = more(&[(Complete, 22), (NewPool, 8), (Partial, 10), (BuyOut, 10), (Limits, 6)]);
            f.late = 5;
            f.bias.vesting = Some(r.chance(50));
        }
        "C11" => {
            f.weights = more(&[
                (Complete, 8),
                (Locker, 10),
                (Migrate, 10),
                (Surplus, 8),
                (MigrationFee, 8),
                (Leftover, 8),
                (Lp, 8),
                (V1Meta, 5),
                (Transfer, 5),
                (NewPool, 6),
            ]);
            f.late = 55;
            f.hostile = 10;
            f.bias.vesting = Some(r.chance(60));
        }
        "C12" => {
            f.weights = only(&[(ConfigFuzz, 10), (NewConfig, 2)]);
            f.steps = 70;
            f.late = 0;
            f.weights.push((OldTerms, 2));
        }
        "C13" => {
            f.weights = more(&[(Settle, 16), (NewConfig, 6), (NewPool, 6)]);
            f.bias.extreme = r.chance(50);
            f.late = 20;
            f.steps = 14;
            f.weights.push((ConfigFuzz, 8));
        }
        "C14" => {
            f.weights = more(&[(NewPool, 40), (NewConfig, 12), (Bundle, 4), (Metadata, 2)]);
            f.late = 0;
            f.hostile = 12;
            f.bias.fixed = Some(r.chance(50));
            f.bias.token_type = Some(r.below(2) as u8);
            f.steps = 14;
            f.weights.push((ConfigFuzz, 4));
            f.weights.push((OldTerms, 8));
        }
        "C15" => {
            f.weights = more(&[(Migrate, 14), (Leftover, 6), (MintMore, 4), (Settle, 3)]);
            f.late = 75;
            f.bias.fixed = Some(r.chance(60));
            f.weights.push((ConfigFuzz, 2));
        }
        "C16" => {
            f.weights = more(&[(ClaimPartner, 22), (ClaimCreator, 22), (Transfer, 5)]);
            f.late = 40;
            f.hostile = 12;
        }
        "C17" => {
            f.weights = more(&[(Surplus, 26), (ClaimProtocol, 12), (Complete, 8), (Migrate, 8), (Transfer, 4)]);
            f.late = 75;
            f.hostile = 10;
        }
        "C18" => {
            f.weights = more(&[(MigrationFee, 26), (Complete, 8), (Migrate, 10), (Transfer, 4)]);
            f.late = 75;
            f.hostile = 10;
            f.bias.migration_fee = !r.chance(15);
            f.weights.push((ConfigFuzz, 1));
        }
        "C19" => {
            f.weights = more(&[(Leftover, 26), (Migrate, 16), (ClaimProtocol, 8), (ClaimCreator, 6), (ClaimPartner, 6)]);
            f.late = 80;
            f.hostile = 12;
            f.bias.fixed = Some(!r.chance(15));
            f.weights.push((ConfigFuzz, 2));
        }
        "C20" => {
            f.bias.creation_fee = !r.chance(15);
            f.weights = more(&[(CreationFee, 24), (NewPool, 10), (Migrate, 12), (Lp, 6), (Locker, 6)]);
            f.late = 40;
            f.faults = 35;
            f.weights.push((ConfigFuzz, 1));
            if r.chance(25) {
                // the old creation fee
                f.bias.collect = Some(1);
                f.bias.token_type = Some(1);
                f.bias.creation_fee = false;
            }
        }
        "C21" => {
            f.hostile = 45;
            f.late = 50;
            f.weights = more(&[
                (ClaimPartner, 10),
                (ClaimCreator, 10),
                (ClaimProtocol, 10),
                (Zap, 6),
                (CreationFee, 8),
                (Surplus, 10),
                (MigrationFee, 10),
                (Transfer, 8),
                (Operators, 8),
                (Metadata, 5),
                (Lp, 6),
                (NewPool, 5),
            ]);
        }
        "C22" => {
            f.hostile = 60;
            f.late = 50;
            f.weights = more(&[
                (ClaimPartner, 8),
                (ClaimCreator, 8),
                (ClaimProtocol, 8),
                (Zap, 6),
                (CreationFee, 6),
                (Surplus, 8),
                (MigrationFee, 8),
                (Leftover, 8),
                (Migrate, 10),
                (Lp, 8),
                (V1Meta, 4),
                (Locker, 6),
                (NewPool, 5),
                (NewConfig, 2),
                (Metadata, 4),
                (Operators, 3),
            ]);
        }
        "C23" => {
            f.bias.option = Some(0);
            f.late = 85;
            f.hostile = 10;
            f.weights = more(&[(Migrate, 30), (V1Meta, 12), (Locker, 8), (Settle, 3)]);
            f.bias.migration_fee = r.chance(50);
            f.steps = 20;
            f.weights.push((ConfigFuzz, 3));
        }
        "C24" => {
            f.bias.option = Some(0);
            f.late = 90;
            f.hostile = 14;
            f.weights = more(&[(Migrate, 14), (V1Meta, 8), (Lp, 34), (Transfer, 5)]);
        }
        "C25" => {
            f.bias.option = Some(1);
            f.late = 85;
            f.hostile = 10;
            f.faults = 15;
            f.bias.liq_vesting = r.chance(50);
            f.bias.compounding = r.chance(40);
            f.bias.migration_fee = r.chance(40);
            f.weights = more(&[(Migrate, 30), (Locker, 8), (Settle, 3), (NewPool, 6)]);
            f.steps = 20;
            f.weights.push((ConfigFuzz, 3));
        }
        "C26" => {
            f.bias.vesting = Some(!r.chance(12));
            f.late = 60;
            f.hostile = 10;
            f.weights = more(&[(Locker, 30), (Complete, 14), (NewPool, 6), (Transfer, 4)]);
            f.weights.push((ConfigFuzz, 3));
        }
        "C27" => {
            f.bias.liq_vesting = true;
            f.bias.option = if r.chance(85) { Some(1) } else { None };
            f.late = 60;
            f.weights = more(&[(ConfigFuzz, 24), (NewConfig, 12), (NewPool, 8), (Migrate, 14)]);
            f.steps = 24;
            f.weights.push((OldTerms, 10));
        }
        "C28" => {
            f.late = 60;
            f.hostile = 16;
            f.weights = more(&[(ClaimProtocol, 28), (Zap, 22), (Surplus, 5), (Migrate, 8), (CreationFee, 3)]);
        }
        "C29" => {
            f.late = 65;
            f.hostile = 12;
            if r.chance(60) {
                f.bias.option = Some(0);
            }
            f.weights = more(&[(Transfer, 40), (ClaimCreator, 8), (Lp, 16), (Migrate, 14), (V1Meta, 6), (Surplus, 6), (MigrationFee, 6)]);
        }
        "C30" => {
            f.weights = trades(&[(FeeProbe, 4), (Complete, 3), (Layout, 2), (Bundle, 1)]);
            f.late = 0;
            f.bias.extreme = r.chance(30);
            f.bias.many_points = r.chance(30);
        }
        "C31" => {
            f.late = 50;
            f.weights = more(&[(ClaimPartner, 6), (ClaimCreator, 6), (ClaimProtocol, 6), (Surplus, 6), (MigrationFee, 6), (Leftover, 5)]);
        }
        "C32" => {
            f.hostile = 30;
            f.late = 40;
            f.bias.extreme = r.chance(40);
            f.weights = more(&[(Garbage, 70), (ConfigFuzz, 6), (Migrate, 8)]);
            f.steps = 45;
        }
        "C33" => {
            f.weights = only(&[(Operators, 30), (ClaimProtocol, 10), (Zap, 4), (CreationFee, 6), (Buy, 6), (Complete, 1), (Time, 2)]);
            f.hostile = 12;
            f.late = 20;
        }
        "C34" => {
            f.weights = only(&[(Metadata, 30), (NewPool, 6), (Transfer, 8), (Buy, 3), (Operators, 1)]);
            f.hostile = 15;
            f.late = 15;
        }
        _ => {}
    }
    f.weights.retain(|x| x.1 > 0);
    f
}
