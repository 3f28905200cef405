//! One trader against a pool: whatever they do, in the end they have not
//! gained anything, and those who stayed have not lost anything.
//!
//! Nothing is assumed about single operations here, only the outcome counts.

use crate::client as c;
use crate::client::{pool, wallet, Ix, USERS};
use crate::curve::{self, b};
use crate::ops::{self, Amt, Cfg, PoolCfg, Weights, EVEN};
use crate::world::{self, bad, restore, save, Res, World};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use svm::big::Big;
use svm::pbt::{Check, Stats, Sub, Tier};
use svm::tok;

const TRADER: usize = 1;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Swap { s: u8, b: u8, amt: Amt },
    /// sell what was bought by the last swap
    Back,
    Deposit { size: Amt, jit: Option<(u8, Amt)> },
    Redeem { amt: Amt },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    cfg: Cfg,
    /// of the trader, in permillions
    discount: u32,
    bystander: Amt,
    acts: Vec<Act>,
    /// a swap which is compared to the same in two parts
    split: (u8, u8, Amt, u16),
}

fn act() -> BoxedStrategy<Act> {
    prop_oneof![
        6 => (0u8..4, 0u8..4, ops::amt()).prop_map(|(s, b, amt)| Act::Swap { s, b, amt }),
        4 => Just(Act::Back),
        4 => (ops::amt(), prop::option::weighted(0.5, (0u8..4, ops::amt())))
            .prop_map(|(size, jit)| Act::Deposit { size, jit }),
        3 => prop_oneof![Just(Amt::Frac(65535)).boxed(), ops::amt()].prop_map(|amt| Act::Redeem { amt }),
    ]
    .boxed()
}

fn calm(mut p: PoolCfg) -> PoolCfg {
    if p.amp > 0 {
        // what is gained by the imprecision of a calculation stays below one
        // token as long as no token is worth much less than another
        let top = (*p.first.iter().max().unwrap()).min(10_000_000_000_000);
        for v in p.first.iter_mut() {
            *v = (*v).min(top).max(top / 1000).max(1);
        }
        p.amp = p.amp.min(100_000);
    }
    p
}

pub fn strategy(t: Tier) -> BoxedStrategy<Round> {
    const W: Weights = Weights { discounted: 0, extreme: 35, ..EVEN };
    (
        ops::cfg(W),
        prop_oneof![3 => Just(1_000_000u32), 2 => 0u32..1_000_000, 2 => Just(0u32)],
        ops::amt(),
        vec(act(), 1..ops::len(t, 14)),
        (0u8..4, 0u8..4, ops::amt(), any::<u16>()),
    )
        .prop_map(|(mut cfg, discount, bystander, acts, split)| {
            cfg.pools.truncate(1);
            let p = calm(cfg.pools.remove(0));
            cfg.pools.push(p);
            Round { cfg, discount, bystander, acts, split }
        })
        .boxed()
}

struct State {
    x: Vec<u64>,
    supply: u64,
}

fn state(w: &World) -> State {
    let p = c::read_pool(&w.svm, &pool(0)).unwrap();
    State {
        x: p.reserves[..p.dimension as usize].iter().map(|r| r.tokens.amount).collect(),
        supply: tok::read_mint(&w.svm, &c::lp_mint(0)).unwrap().supply,
    }
}

fn holdings(w: &World, u: usize) -> Vec<u64> {
    w.pools[0].mints.iter().map(|m| tok::amount(&w.svm, &wallet(u, *m))).collect()
}

fn ends(n: usize, s: u8, b: u8) -> (usize, usize) {
    let si = s as usize % n;
    let bi = b as usize % n;
    (si, if si == bi { (si + 1) % n } else { bi })
}

fn deposit_ix(w: &World, u: usize, size: Amt, jit: Option<(u8, Amt)>) -> Ix {
    let mints = &w.pools[0].mints;
    let x = state(w).x;
    let mut max: Vec<(usize, u64)> = mints.iter().zip(&x).map(|(m, x)| (*m, size.of(*x))).collect();
    if let Some((i, a)) = jit {
        let i = i as usize % max.len();
        max[i].1 = a.of(x[i]);
    }
    c::deposit(0, u, &max, mints)
}

/// Value per LP token did not decrease.
fn kept(amp: u64, a: &State, z: &State, rel: f64) -> bool {
    let n = a.x.len() as u32;
    let (s0, s1) = (b(a.supply), b(z.supply));
    if amp == 0 {
        let f = |x: &[u64]| curve::product(&x.iter().map(|v| b(*v)).collect::<Vec<_>>());
        &f(&z.x) * &s0.pow(n) >= &f(&a.x) * &s1.pow(n)
    } else {
        // but for the precision, and a tenth of a token
        let d = curve::root(amp, &curve::fine(&a.x));
        let due = &(&d * &s1) / &s0;
        let slack: Big = &world::part(&due, rel) + &Big::pow10(17);
        curve::at_least(amp, &curve::fine(&z.x), &due.sat_sub(&slack))
    }
}

fn play(r: &Round, st: &mut Stats) -> Res {
    let mut w = World::new(&r.cfg);
    if r.cfg.pools.is_empty() || !w.setup(st)? {
        return Ok(());
    }
    let mut quiet = Stats::default();
    w.step(&ops::Op::Discount { by: 0, user: TRADER as u8, amount: r.discount, valid: 100 }, &mut quiet)?;
    let i = deposit_ix(&w, 2, r.bystander, None);
    let _ = c::send(&mut w.svm, &i);
    let amp = w.pools[0].amp();
    let mints = w.pools[0].mints.clone();
    let n = mints.len();
    let lpk = c::lp_wallet(TRADER, 0);

    // The invariant is precise to a small part of a token. Only then is what
    // can be gained by the imprecision less than a token.
    let fine = |x: &[u64]| amp == 0 || world::precision(x) * (*x.iter().max().unwrap() as f64) < 0.01;
    let slack = |_: &[u64]| if amp > 0 { 1 } else { 0 };
    // the parts of a swap don't give more than the swap; not so if the fee of a
    // part moves the stable curve of more than two tokens in between
    let free = w.pools[0].fee == 0 || r.discount == 1_000_000;
    if amp == 0 || free {
        let (s, bi, amt, part) = &r.split;
        let (si, bi) = ends(n, *s, *bi);
        let x = state(&w).x;
        let whole = amt.of(x[si]);
        let first = (whole as u128 * *part as u128 / 65535) as u64;
        let second = whole - first;
        let mut out = |w: &mut World, parts: &[u64]| -> Option<u64> {
            let ixs: Vec<Ix> = parts.iter().map(|a| c::swap(0, TRADER, mints[si], mints[bi], *a, 0)).collect();
            let saved = save(&w.svm, ixs.first()?);
            let h = holdings(w, TRADER)[bi];
            let ok = ixs.iter().all(|i| c::send(&mut w.svm, i).is_ok());
            let got = holdings(w, TRADER)[bi] - h;
            restore(&mut w.svm, saved);
            ok.then_some(got)
        };
        if first > 0 && second > 0 && fine(&x) {
            if let (Some(a), Some(p)) = (out(&mut w, &[whole]), out(&mut w, &[first, second])) {
                st.hit("split");
                if p > a.saturating_add(slack(&x)) {
                    return bad(
                        &["A12"],
                        format!(
                            "selling {} of reserve {} for {} in {:?} (amplifier {}) gives {}, but {} if sold as {} and {}",
                            whole, si, bi, x, amp, a, p, first, second
                        ),
                    );
                }
            }
            // nor does selling less give more
            if let (Some(a), Some(p)) = (out(&mut w, &[whole]), out(&mut w, &[first])) {
                if p > a {
                    return bad(
                        &["A12", "A02", "A03"],
                        format!(
                            "selling {} of reserve {} for {} in {:?} (amplifier {}) gives {}, but {} for {}",
                            whole, si, bi, x, amp, a, p, first
                        ),
                    );
                }
            }
        }
    }

    let before = holdings(&w, TRADER);
    let start = state(&w);
    let mut log = vec![];
    let mut last: Option<(usize, usize, u64)> = None;
    let mut excused = false;
    let (mut swaps, mut shares) = (0, 0);
    let mut imprecise = false;
    let mut rel = world::precision(&start.x);
    for a in &r.acts {
        let x = state(&w).x;
        imprecise |= !fine(&x);
        let (ix, sb) = match a {
            Act::Swap { s, b, amt } => {
                let (si, bi) = ends(n, *s, *b);
                (c::swap(0, TRADER, mints[si], mints[bi], amt.of(x[si]), 0), Some((si, bi)))
            }
            Act::Back => match last {
                Some((si, bi, got)) => (c::swap(0, TRADER, mints[bi], mints[si], got, 0), Some((bi, si))),
                None => continue,
            },
            Act::Deposit { size, jit } => (deposit_ix(&w, TRADER, *size, *jit), None),
            Act::Redeem { amt } => {
                let have = tok::amount(&w.svm, &lpk);
                let zero: Vec<(usize, u64)> = mints.iter().map(|m| (*m, 0)).collect();
                (c::redeem(0, TRADER, amt.of(have).min(have), &zero, &mints), None)
            }
        };
        let h = holdings(&w, TRADER);
        if c::send(&mut w.svm, &ix).is_err() {
            continue;
        }
        if std::env::var("VERIF_DEBUG").is_ok() {
            log.push(format!("{:?} -> {:?} {}", a, state(&w).x, state(&w).supply));
        } else {
            log.push(format!("{:?}", a));
        }
        if let Some((si, bi)) = sb {
            last = Some((si, bi, holdings(&w, TRADER)[bi] - h[bi]));
            swaps += 1;
            // recorded finding of A10
            let sold = h[si] - holdings(&w, TRADER)[si];
            if amp > 0 && w.toll_exceeds_fee(0, &x, si, w.fee_of(0, TRADER, sold)) {
                excused = true;
            }
        } else {
            shares += 1;
        }
        let x = state(&w).x;
        if amp > 0 && x.iter().all(|v| *v > 0) {
            rel += 2.0 * world::precision(&x);
            imprecise |= !fine(&x);
        }
    }
    // out of the pool
    let have = tok::amount(&w.svm, &lpk);
    if have > 0 {
        let zero: Vec<(usize, u64)> = mints.iter().map(|m| (*m, 0)).collect();
        if c::send(&mut w.svm, &c::redeem(0, TRADER, have, &zero, &mints)).is_err() {
            st.hit("not_out");
            return Ok(());
        }
        shares += 1;
    }
    if swaps >= 2 {
        st.hit("swapped_twice");
    }
    if swaps >= 1 && shares >= 2 {
        st.hit("mixed");
    }
    let after = holdings(&w, TRADER);
    let end = state(&w);
    let what = || {
        format!(
            "the trader went from {:?} to {:?} with reserves {:?} ({} LP) becoming {:?} ({} LP), amplifier {}, by {}",
            before,
            after,
            start.x,
            start.supply,
            end.x,
            end.supply,
            amp,
            log.join(", ")
        )
    };
    if imprecise {
        st.hit("imprecise");
    }
    let gained = !imprecise && (0..n).all(|i| after[i] >= before[i]) && after != before;
    if gained {
        return bad(&["A12"], what());
    }
    if excused {
        st.hit("short_of_sold");
    } else if !kept(amp, &start, &end, rel) {
        return bad(&["A12"], format!("LP tokens lost value: {}", what()));
    }
    // and so it goes that bystanders can get out
    let others: u64 = (0..USERS).filter(|u| *u != TRADER).map(|u| tok::amount(&w.svm, &c::lp_wallet(u, 0))).sum();
    if others + tok::amount(&w.svm, &c::toll_wallet(0)) != end.supply {
        return bad(&["A12", "A11"], format!("LP tokens do not add up: {}", what()));
    }
    Ok(())
}

pub fn check(id: &'static str, quick: u32) -> Box<dyn Sub> {
    Check::boxed("arbitrage", quick, quick * 12, strategy, move |r: &Round, st: &mut Stats| {
        let res = play(r, st);
        let n = |k| st.n.get(k).copied().unwrap_or(0);
        st.nontrivial = n("swapped_twice") >= 1 || n("mixed") >= 1;
        crate::props::verdict(id, res, st)
    })
}
