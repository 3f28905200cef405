//! Metamorphic check: additional permissionless updates change nothing.

use crate::client as c;
use crate::ops::{self, Amt, Case, Cfg, Op, Start, Weights, EVEN};
use crate::world::{Mismatch, Res, World, RING};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use svm::pbt::{Check, Stats, Sub, Tier};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Extra {
    /// before which operation, as a fraction
    at: u16,
    f: u8,
    u: u8,
    until: Option<i32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Twin {
    base: Case,
    extra: Vec<Extra>,
}

const QUIET: Weights = Weights {
    harvest: 0,
    farmer: 0,
    airdrop: 0,
    compound: 0,
    whitelist: 0,
    admin: 0,
    period: 8,
    snap: 16,
    unstake: 8,
    update: 5,
    // an additional update would spare the rounding of these
    until: 0,
    ..EVEN
};

fn strategy(t: Tier) -> BoxedStrategy<Twin> {
    let extra = (any::<u16>(), 0u8..2, 0u8..4, prop::option::weighted(0.2, -40i32..4))
        .prop_map(|(at, f, u, until)| Extra { at, f, u, until });
    (ops::case(QUIET, 0, ops::len(t, 50)), vec(extra, 1..ops::len(t, 25)))
        .prop_map(|(mut base, extra)| {
            // what somebody earns is not fed back into what they do
            base.cfg.stake_is_harvest = false;
            base.cfg.harvests = base.cfg.harvests.clamp(1, 3);
            for op in base.ops.iter_mut() {
                match op {
                    Op::Claim { to, .. } => *to = 0,
                    Op::Period { m, by, .. } => {
                        *m = *m % 3 + 2;
                        *by = 0;
                    }
                    Op::Periods { m, .. } => *m = *m % 3 + 2,
                    Op::Stake { by, .. } => *by = 0,
                    _ => (),
                }
            }
            Twin { base, extra }
        })
        .boxed()
}

type Earned = BTreeMap<(usize, usize, usize), u128>;

/// Returns the world after everybody was settled, how often each farmer was by
/// the additional updates, or None if the history is too long for the program.
fn history(id: &'static str, t: &Twin, with: bool, st: &mut Stats) -> Res<(World, BTreeMap<(usize, usize), u128>)> {
    let mut w = World::new(&t.base, false, id);
    w.parity = true;
    let mut pieces: BTreeMap<(usize, usize), u128> = BTreeMap::new();
    w.setup(st)?;
    for (i, op) in t.base.ops.iter().enumerate() {
        w.even();
        if with {
            for e in &t.extra {
                if e.at as usize * t.base.ops.len() / 65536 == i {
                    let f = e.f as usize % w.farms.len();
                    let u = e.u as usize % c::USERS;
                    if !w.farmers.contains_key(&(f, u)) {
                        continue;
                    }
                    let before = w.farmers[&(f, u)].cursor;
                    let until = e.until.map(|d| (w.slot() as i128 + d as i128).max(0) as u64);
                    w.update(f, u, until, st)?;
                    if w.farmers[&(f, u)].cursor > before {
                        *pieces.entry((f, u)).or_default() += 1;
                        st.hit("additional_settlement");
                    }
                }
            }
        }
        w.step(op, st)?;
    }
    w.even();
    for (f, u) in w.farmers.keys().copied().collect::<Vec<_>>() {
        w.update(f, u, None, st)?;
    }
    Ok((w, pieces))
}

fn compare(a: &World, b: &World, pieces: &BTreeMap<(usize, usize), u128>) -> Res {
    let bad = |msg: String| Err(Mismatch { tags: vec!["F04"], msg });
    if a.slot() != b.slot() || a.farmers.len() != b.farmers.len() {
        return bad("the histories cannot be compared".into());
    }
    for (k @ (f, u), x) in &a.farmers {
        let y = &b.farmers[k];
        if (x.staked, x.vested) != (y.staked, y.vested) {
            return bad(format!(
                "additional updates changed the deposit (staked, vested) of farmer {} of farm {} from {:?} to {:?}",
                u, f, (x.staked, x.vested), (y.staked, y.vested)
            ));
        }
        for m in 0..c::MINTS {
            let get = |e: &Earned| e.get(&(*f, *u, m)).copied().unwrap_or(0);
            let (p, q) = (get(&a.earned), get(&b.earned));
            // each additional settlement splits one window into two, each of
            // which is rounded down
            let slack = pieces.get(k).copied().unwrap_or(0);
            if q > p || q + slack < p {
                return bad(format!(
                    "with {} additional updates farmer {} of farm {} earned {} of mint {} instead of {}",
                    slack, u, f, q, m, p
                ));
            }
        }
    }
    Ok(())
}

pub fn updates(id: &'static str) -> Box<dyn Sub> {
    Check::boxed("updates", 20_000, 240_000, strategy, move |t: &Twin, st: &mut Stats| {
        let mut quiet = Stats::default();
        let r = history(id, t, false, &mut quiet).and_then(|(a, _)| {
            if a.farms.iter().any(|f| f.snaps.len() >= RING - 1) {
                st.hit("history_too_long");
                return Ok(());
            }
            st.note(|| "the same with additional updates:".into());
            let (b, pieces) = history(id, t, true, st)?;
            st.nontrivial = pieces.values().sum::<u128>() >= 2 && b.earned.values().any(|x| *x > 0);
            compare(&a, &b, &pieces)
        });
        crate::props::verdict(id, r, st)
    })
}

fn small(joined: Vec<Amt>) -> Cfg {
    Cfg {
        farms: 1,
        same_stake: false,
        harvests: 1,
        stake_is_harvest: false,
        window: 1,
        start_slot: 100,
        prewrap: 0,
        joined,
        period: None,
        scale: 40,
    }
}

fn replay(cfg: Cfg, ops: Vec<Op>, focus: &'static str) -> Option<World> {
    let case = Case { cfg, ops };
    let mut st = Stats::default();
    let (w, r) = crate::world::run(&case, false, focus, &mut st, &mut |_, _, _| Ok(()));
    r.ok().map(|_| w)
}

/// Farmer 0 is settled by the old snapshot for the slot in which farmer 1 is by
/// the new one.
pub fn same_slot_snapshot() -> Option<String> {
    let ops = vec![
        Op::Warp(1),
        Op::Snap { f: 0, wait: true, extra: 0 },
        Op::CreateFarmer { f: 0, u: 1, payer: 0 },
        Op::Stake { f: 0, u: 1, by: 0, amt: Amt::Small(900) },
        Op::Warp(1),
        Op::Period { f: 0, m: 2, by: 0, start: Start::Zero, len: 2, tps: Amt::Small(1000) },
        Op::Warp(1),
        Op::Update { f: 0, u: 0 },
        Op::Snap { f: 0, wait: true, extra: 0 },
        Op::Warp(1),
        Op::Update { f: 0, u: 0 },
        Op::Update { f: 0, u: 1 },
    ];
    let w = replay(small(vec![Amt::Small(100)]), ops, "F06")?;
    let sum = w.accrued_sum(0, 2);
    (sum > 2000).then(|| format!("farmers were credited {} of the 2000 tokens of a period", sum))
}

/// A farmer is settled in the slot in which a period starts, just before it is
/// opened.
pub fn same_slot_period() -> Option<String> {
    let ops = |update: bool| {
        let mut v = vec![Op::Warp(1), Op::Snap { f: 0, wait: true, extra: 0 }, Op::Warp(1)];
        if update {
            v.push(Op::Update { f: 0, u: 0 });
        }
        v.push(Op::Period { f: 0, m: 2, by: 0, start: Start::Zero, len: 2, tps: Amt::Small(1000) });
        v.push(Op::Warp(5));
        v.push(Op::Update { f: 0, u: 0 });
        v
    };
    let joined = vec![Amt::Small(100)];
    let a = replay(small(joined.clone()), ops(false), "F04")?.accrued_sum(0, 2);
    let b = replay(small(joined), ops(true), "F04")?.accrued_sum(0, 2);
    (a != b).then(|| format!("a farmer earned {} instead of {} after an additional update", b, a))
}
