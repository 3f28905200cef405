//! Recorded findings, reproduced.

use crate::client as c;
use crate::curve::{self, b};
use crate::ops::{Cfg, PoolCfg};
use crate::world::World;
use svm::pbt::Stats;

fn stable(amp: u64, fee: u16, first: Vec<u64>) -> Option<World> {
    let pool = PoolCfg { dim: first.len() as u8, amp, fee, first, existing: None, rot: 0 };
    let mut w = World::new(&Cfg { pools: vec![pool], discounts: vec![], rich: false });
    w.setup(&mut Stats::default()).ok()?.then_some(w)
}

/// Somebody sells a token which the stable pool is short of.
pub fn scarce_token() -> Option<String> {
    let mut w = stable(1000, 10_000, vec![1_000_000_000_000, 10_000_000_000])?;
    let worth = |w: &World| -> Option<svm::big::Big> {
        let y = c::read_pool(&w.svm, &c::pool(0))?;
        let x: Vec<u64> = y.reserves[..y.dimension as usize].iter().map(|r| r.tokens.amount).collect();
        let supply = svm::tok::read_mint(&w.svm, &c::lp_mint(0))?.supply;
        Some(&curve::root(1000, &curve::fine(&x)) / &b(supply))
    };
    let before = worth(&w)?;
    let (m0, m1) = (w.pools[0].mints[0], w.pools[0].mints[1]);
    c::send(&mut w.svm, &c::swap(0, 1, m1, m0, 5_000_000_000, 0)).ok()?;
    let after = worth(&w)?;
    (after < before).then(|| {
        format!("a swap of 5e9 for a fee of 1 % in reserves of 1e12 and 1e10: the invariant per LP token went from {} to {} (e-18)", before, after)
    })
}

/// A pool which is legitimate, though very imbalanced, refuses to let most of
/// its liquidity go.
pub fn imbalanced_redemption() -> Option<String> {
    let mut w = stable(10, 0, vec![900_000_000_000, 60_000_000, 60_000_000, 60_000_000])?;
    let mints = w.pools[0].mints.clone();
    let have = w.bal(&c::lp_wallet(0, 0));
    let burn = (have as u128 * 9988 / 10000) as u64;
    let mins: Vec<(usize, u64)> = mints.iter().map(|m| (*m, 0)).collect();
    match c::send(&mut w.svm, &c::redeem(0, 0, burn, &mins, &mints)) {
        Ok(()) => None,
        Err(e) => Some(format!("burning 99.88 % of the LP tokens of reserves of 9e11 and three times 6e7 fails: {}", e)),
    }
}
