//! What decides each farming property.

use crate::create;
use crate::meta;
use crate::ops::{self, Case, Op, Weights, EVEN};
use crate::subst;
use crate::world::{self, Mismatch, Res, World};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use svm::pbt::{Check, Property, Stats, Sub, Tier};

type After = fn(&mut World, &Op, &mut Stats) -> Res;
type End = fn(&mut World, &mut Stats) -> Res;

/// A history based check: the model in lock step, disagreements tagged with
/// `id` are violations.
struct H {
    name: &'static str,
    id: &'static str,
    quick: u32,
    thorough: u32,
    gen: fn(Tier) -> BoxedStrategy<Case>,
    avoid_same_slot: bool,
    nontrivial: fn(&Stats) -> bool,
    after: After,
    end: End,
    /// judges the state in which a disagreement about another property left the
    /// accounts
    last: fn(&World) -> Res,
}

impl H {
    fn new(
        name: &'static str,
        id: &'static str,
        quick: u32,
        gen: fn(Tier) -> BoxedStrategy<Case>,
        nontrivial: fn(&Stats) -> bool,
    ) -> H {
        H {
            name,
            id,
            quick,
            thorough: quick * 12,
            gen,
            avoid_same_slot: false,
            nontrivial,
            after: |_, _, _| Ok(()),
            end: |w, _| w.compare_all(&[]),
            last: |_| Ok(()),
        }
    }
    fn after(mut self, f: After) -> H {
        self.after = f;
        self
    }
    fn end(mut self, f: End) -> H {
        self.end = f;
        self
    }
    fn last(mut self, f: fn(&World) -> Res) -> H {
        self.last = f;
        self
    }
    fn apart(mut self) -> H {
        self.avoid_same_slot = true;
        self
    }
    fn sub(self) -> Box<dyn Sub> {
        let H { name, id, quick, thorough, gen, avoid_same_slot, nontrivial, after, end, last } = self;
        Check::boxed(name, quick, thorough, gen, move |case: &Case, st: &mut Stats| {
            let (mut w, mut r) = world::run(case, avoid_same_slot, id, st, &mut |w, o, s| after(w, o, s));
            r = r.and_then(|_| end(&mut w, st));
            if let Err(e) = &r {
                if !e.tags.contains(&id) {
                    r = last(&w).and(r);
                }
            }
            st.nontrivial = nontrivial(st);
            verdict(id, r, st)
        })
    }
}

pub fn verdict(id: &str, r: Res, st: &mut Stats) -> Result<(), String> {
    match r {
        Ok(()) => Ok(()),
        Err(Mismatch { tags, msg }) if tags.contains(&id) => Err(msg),
        Err(Mismatch { msg, tags }) => {
            st.hit("ended_by_another_property");
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("OTHER {:?} {}", tags, msg);
            }
            st.note(|| msg);
            st.nontrivial = false;
            Ok(())
        }
    }
}

fn n(st: &Stats, k: &'static str) -> u64 {
    st.n.get(k).copied().unwrap_or(0)
}

const STAKING: Weights = Weights { stake: 14, unstake: 12, compound: 6, whitelist: 4, ..EVEN };
const ACCRUAL: Weights = Weights { period: 8, update: 14, until: 5, snap: 14, warp: 12, bulk: 40, ..EVEN };
const DEEP: Weights = Weights { bulk: 1100, snaps: 4, ..ACCRUAL };
const VESTING: Weights = Weights { stake: 16, snap: 16, update: 14, until: 5, unstake: 6, compound: 8, whitelist: 4, ..EVEN };
const VESTING_DEEP: Weights = Weights { bulk: 1100, snaps: 6, ..VESTING };
const SOLVENCY: Weights = Weights { period: 12, periods: 2, update: 16, claim: 10, snap: 14, harvest: 2, ..EVEN };
const CLAIMING: Weights = Weights { period: 6, update: 12, claim: 24, snap: 10, airdrop: 5, foreign: 15, ..EVEN };
const SNAPSHOTS: Weights = Weights { snap: 40, snaps: 4, stake: 14, unstake: 10, admin: 5, donate: 3, bulk: 40, ..EVEN };
const SNAPSHOTS_DEEP: Weights = Weights { bulk: 1100, snaps: 10, ..SNAPSHOTS };
const PERIODS: Weights = Weights { period: 40, periods: 10, snap: 8, snaps: 3, bulk: 30, update: 4, foreign: 4, ..EVEN };
const PERIODS_DEEP: Weights = Weights { bulk: 1100, ..PERIODS };
const COMPOUNDING: Weights = Weights { compound: 30, whitelist: 3, snap: 14, warp: 12, period: 8, update: 4, claim: 1, unstake: 2, ..EVEN };
const AIRDROPS: Weights = Weights { airdrop: 30, update: 8, claim: 8, harvest: 4, ..EVEN };
const LIFECYCLE: Weights = Weights { farmer: 30, unstake: 14, claim: 14, stake: 10, all: 6, ..EVEN };
const REGISTRY: Weights = Weights { harvest: 40, period: 6, claim: 6, update: 6, all: 4, foreign: 15, ..EVEN };
const ADMIN: Weights =
    Weights { admin: 30, period: 14, harvest: 14, whitelist: 20, snap: 3, update: 3, foreign: 55, ..EVEN };

fn s_staking(t: Tier) -> BoxedStrategy<Case> {
    ops::case(STAKING, 0, ops::len(t, 60))
}
fn s_accrual(t: Tier) -> BoxedStrategy<Case> {
    ops::case(ACCRUAL, 0, ops::len(t, 60))
}
fn s_deep(t: Tier) -> BoxedStrategy<Case> {
    ops::case(DEEP, 1003, ops::len(t, 40))
}
fn s_vesting(t: Tier) -> BoxedStrategy<Case> {
    ops::case(VESTING, 0, ops::len(t, 60))
}
fn s_vesting_deep(t: Tier) -> BoxedStrategy<Case> {
    ops::case(VESTING_DEEP, 1003, ops::len(t, 40))
}
fn s_solvency(t: Tier) -> BoxedStrategy<Case> {
    ops::case(SOLVENCY, 0, ops::len(t, 60))
}
fn s_claiming(t: Tier) -> BoxedStrategy<Case> {
    ops::case(CLAIMING, 0, ops::len(t, 50))
}
fn s_snapshots(t: Tier) -> BoxedStrategy<Case> {
    ops::case(SNAPSHOTS, 0, ops::len(t, 60))
}
fn s_snapshots_deep(t: Tier) -> BoxedStrategy<Case> {
    ops::case(SNAPSHOTS_DEEP, 1003, ops::len(t, 40))
}
fn s_periods(t: Tier) -> BoxedStrategy<Case> {
    ops::case(PERIODS, 0, ops::len(t, 60))
}
fn s_periods_deep(t: Tier) -> BoxedStrategy<Case> {
    ops::case(PERIODS_DEEP, 1003, ops::len(t, 30))
}
/// A first period which began before the oldest snapshot that is remembered and
/// ended around it, and then more of them than are remembered.
fn s_eviction(t: Tier) -> BoxedStrategy<Case> {
    let round = (2u32..7, 0u32..3, 0u16..4, any::<u16>());
    (ops::case(PERIODS_DEEP, 0, ops::len(t, 10)), 20u32..200, 0u32..40, any::<bool>(), vec(round, 8..14), any::<bool>())
        .prop_map(|(mut c, len, d, near_end, rounds, late)| {
            c.cfg.farms = 1;
            c.cfg.harvests = c.cfg.harvests.clamp(1, 2);
            c.cfg.window = 1;
            c.cfg.period = Some((len, ops::Amt::Small(3)));
            // the oldest snapshot is taken about as many slots after the first one
            let oldest = if near_end { (len + 10).saturating_sub(d) } else { d };
            let mut ops = vec![Op::Snaps { f: 0, n: (1000 + oldest) as u16, gap: 0 }];
            for (i, (len, gap, snaps, tps)) in rounds.into_iter().enumerate() {
                ops.push(Op::Period { f: 0, m: 0, by: 0, start: ops::Start::Zero, len, tps: ops::Amt::Small(tps % 9) });
                if late && i >= 8 && snaps > 0 {
                    ops.push(Op::Snaps { f: 0, n: snaps, gap: 0 });
                }
                ops.push(Op::Warp(len + gap));
            }
            ops.append(&mut c.ops);
            c.ops = ops;
            c
        })
        .boxed()
}
/// Both farms are there, and their admins have permitted what there is to be.
fn s_compounding(t: Tier) -> BoxedStrategy<Case> {
    (ops::case(COMPOUNDING, 0, ops::len(t, 60)), 0u8..16)
        .prop_map(|(mut c, wl)| {
            c.cfg.farms = 2;
            let mut ops = vec![];
            for (i, (s, t)) in [(0, 1), (1, 0), (0, 0), (1, 1)].into_iter().enumerate() {
                if wl >> i & 1 == 1 {
                    ops.push(Op::Whitelist { s, t, by: 0 });
                }
            }
            ops.append(&mut c.ops);
            c.ops = ops;
            c
        })
        .boxed()
}
fn s_airdrops(t: Tier) -> BoxedStrategy<Case> {
    ops::case(AIRDROPS, 0, ops::len(t, 50))
}
fn s_lifecycle(t: Tier) -> BoxedStrategy<Case> {
    ops::case(LIFECYCLE, 0, ops::len(t, 60))
}
/// Also farms with (almost) as many harvest mints as there may be.
fn s_registry(t: Tier) -> BoxedStrategy<Case> {
    (ops::case(REGISTRY, 0, ops::len(t, 60)), prop_oneof![2 => Just(None), 1 => (8u8..11, any::<u8>()).prop_map(Some)])
        .prop_map(|(mut c, full)| {
            if let Some((n, x)) = full {
                c.cfg.harvests = n;
                c.cfg.farms = 1;
                if c.cfg.joined.is_empty() {
                    c.cfg.joined.push(ops::Amt::Small(100));
                }
                for (i, op) in c.ops.iter_mut().enumerate() {
                    match op {
                        Op::AddHarvest { m, .. } | Op::RemoveHarvest { m, .. } | Op::Airdrop { m, .. } => {
                            *m = ((*m as usize * 5 + i * 3 + x as usize) % 13) as u8
                        }
                        _ => (),
                    }
                }
                // those with a low and those with a high address get something
                c.ops.insert(0, Op::Update { f: 0, u: 0 });
                for k in 0..3u8 {
                    let m = (x >> (2 * k)) % 13;
                    c.ops.insert(1, Op::Airdrop { f: 0, u: 0, m, by: 0, amt: ops::Amt::Small(50) });
                }
            }
            c
        })
        .boxed()
}
fn s_admin(t: Tier) -> BoxedStrategy<Case> {
    ops::case(ADMIN, 0, ops::len(t, 50))
}
fn s_even(t: Tier) -> BoxedStrategy<Case> {
    ops::case(EVEN, 0, ops::len(t, 70))
}
fn s_even_deep(t: Tier) -> BoxedStrategy<Case> {
    ops::case(Weights { bulk: 1100, snaps: 3, ..EVEN }, 1003, ops::len(t, 40))
}

const SVM: &str = "transactions run in an in-process model of the Solana runtime (account ownership, \
    privileges, rent-free lamports, CPI into the real spl-token processor), not in a validator";
const STANDIN: &str = "the decimal crate is a stand-in for solana-decimal 0.4.0 which passes the repository's unit tests";
const APART_PERIOD: &str = "no period is opened in a slot up to which a farmer was already settled (recorded finding of F04)";
const APART: &str = "no snapshot is taken in a slot up to which a farmer was already settled (recorded finding of F06)";

pub fn find(id: &str) -> Option<Property> {
    let p = match id {
        "F01" => Property {
            id: "F01",
            rule: "a case is a history (up to 60 operations of 4 farmers on up to 2 farms) in which at least two \
                deposits and one withdrawal were executed; distinct by content",
            assumptions: &[SVM],
            subs: vec![H::new("stake_vault", "F01", 60_000, s_staking, |st| n(st, "staked") >= 2 && n(st, "unstaked") >= 1)
                .after(|w, _, _| w.stakes_backed())
                .last(|w| w.stakes_backed())
                .sub(), subst::check("F01", subst::BACKING, 5000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F02" => Property {
            id: "F02",
            rule: "histories in which somebody both deposited and withdrew tokens",
            assumptions: &[SVM],
            subs: vec![H::new("deposits", "F02", 60_000, s_staking, |st| n(st, "staked") >= 1 && n(st, "unstaked") >= 1)
                .sub(), subst::check("F02", subst::STAKE, 3000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F03" => Property {
            id: "F03",
            rule: "histories in which settlements credited harvest at least twice",
            assumptions: &[SVM, STANDIN],
            subs: vec![
                H::new("accrual", "F03", 60_000, s_accrual, |st| n(st, "credited") >= 2).sub(),
                H::new("accrual_deep", "F03", 1_000, s_deep, |st| n(st, "credited") >= 2).sub(),
                subst::check("F03", subst::SETTLE, 2000),
            ],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F04" => Property {
            id: "F04",
            rule: "pairs of histories which differ in at least two additional permissionless updates that settled \
                something, and in which harvest was credited",
            assumptions: &[SVM, STANDIN, APART, APART_PERIOD],
            subs: vec![meta::updates("F04"), subst::check("F04", subst::SETTLE, 2000)],
            probes: vec![("same-slot-period", meta::same_slot_period)],
            min_nontrivial: 1000,
        },
        "F05" => Property {
            id: "F05",
            rule: "histories in which vested tokens were promoted and others were deposited on top of vested ones",
            assumptions: &[SVM, STANDIN],
            subs: vec![
                H::new("vesting", "F05", 60_000, s_vesting, |st| n(st, "promoted") >= 1 && n(st, "staked") >= 2).sub(),
                H::new("vesting_deep", "F05", 1_000, s_vesting_deep, |st| n(st, "promoted") >= 1).sub(),
            ],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F06" => Property {
            id: "F06",
            rule: "histories in which harvest was credited at least twice",
            assumptions: &[SVM, STANDIN, APART],
            subs: vec![H::new("solvency", "F06", 50_000, s_solvency, |st| n(st, "credited") >= 2)
                .after(|w, _, _| w.invariants())
                .end(|w, st| {
                    w.everybody_claims(st)?;
                    w.invariants()
                })
                .last(|w| w.accruals_backed())
                .apart()
                .sub(), subst::check("F06", subst::SPENDING, 3000)],
            probes: vec![("same-slot-snapshot", meta::same_slot_snapshot)],
            min_nontrivial: 5000,
        },
        "F07" => Property {
            id: "F07",
            rule: "histories with at least four settlements, two of which credited harvest",
            assumptions: &[SVM, STANDIN],
            subs: vec![
                H::new("once", "F07", 60_000, s_accrual, |st| n(st, "settled") >= 4 && n(st, "credited") >= 2).sub(),
                H::new("once_deep", "F07", 800, s_deep, |st| n(st, "settled") >= 4).sub(),
                subst::check("F07", subst::SETTLE, 2000),
            ],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F08" => Property {
            id: "F08",
            rule: "histories in which a farmer claimed a positive amount",
            assumptions: &[SVM],
            subs: vec![H::new("claims", "F08", 60_000, s_claiming, |st| n(st, "claimed") >= 1).sub(), subst::check("F08", subst::CLAIM, 3000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F09" => Property {
            id: "F09",
            rule: "histories with at least three snapshots taken after the stake had changed",
            assumptions: &[SVM],
            subs: vec![
                H::new("snapshots", "F09", 40_000, s_snapshots, |st| n(st, "snapshot") >= 3 && n(st, "staked") >= 1).sub(),
                H::new("snapshots_deep", "F09", 800, s_snapshots_deep, |st| n(st, "snapshot_wrapped") >= 1).sub(),
                subst::check("F09", subst::SNAPSHOT, 1500)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F10" => Property {
            id: "F10",
            rule: "histories in which at least three periods were opened and one request was rejected or replaced a \
                scheduled one",
            assumptions: &[SVM],
            subs: vec![
                H::new("periods", "F10", 40_000, s_periods, |st| {
                    n(st, "period_opened") >= 3
                        && n(st, "period_overlap_rejected")
                            + n(st, "scheduled_period_overwritten")
                            + n(st, "period_limit_rejected")
                            >= 1
                })
                .sub(),
                H::new("periods_deep", "F10", 800, s_periods_deep, |st| n(st, "period_evicted") >= 1).sub(),
                H::new("periods_eviction", "F10", 1500, s_eviction, |st| {
                    n(st, "period_evicted") + n(st, "period_limit_rejected") >= 1
                })
                .sub(),
                subst::check("F10", subst::CONFIG, 2000),
            ],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F11" => Property {
            id: "F11",
            rule: "histories in which at least two periods were paid for, and one was replaced or could not be paid",
            assumptions: &[SVM],
            subs: vec![H::new("funding", "F11", 50_000, s_periods, |st| {
                n(st, "period_opened") >= 2 && n(st, "scheduled_period_overwritten") + n(st, "period_not_funded") >= 1
            })
            .sub(), subst::check("F11", subst::PERIOD, 2000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F12" => Property {
            id: "F12",
            rule: "histories in which a positive amount was compounded",
            assumptions: &[SVM],
            subs: vec![H::new("compounding", "F12", 60_000, s_compounding, |st| n(st, "compounded_some") >= 1).sub(), subst::check("F12", subst::COMPOUND, 4000)],
            probes: vec![],
            min_nontrivial: 2000,
        },
        "F13" => Property {
            id: "F13",
            rule: "histories in which an airdrop reached a farmer",
            assumptions: &[SVM],
            subs: vec![H::new("airdrops", "F13", 40_000, s_airdrops, |st| n(st, "airdropped") >= 1).sub(), subst::check("F13", subst::AIRDROP, 3000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F14" => Property {
            id: "F14",
            rule: "histories in which a farmer account was closed and the closing of another one was refused",
            assumptions: &[SVM],
            subs: vec![H::new("lifecycle", "F14", 40_000, s_lifecycle, |st| {
                n(st, "farmer_closed") >= 1 && n(st, "close_rejected") >= 1
            })
            .sub(), subst::check("F14", subst::FARMER, 3000)],
            probes: vec![],
            min_nontrivial: 2000,
        },
        "F15" => Property {
            id: "F15",
            rule: "histories in which the admin added a harvest mint while running and one was removed or refused",
            assumptions: &[SVM],
            subs: vec![H::new("registry", "F15", 40_000, s_registry, |st| {
                n(st, "harvest_added") >= 2
                    && n(st, "harvest_removed") + n(st, "harvest_removal_rejected") + n(st, "harvest_add_rejected") >= 1
            })
            .sub(), subst::check("F15", subst::HARVEST, 2000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F16" => Property {
            id: "F16",
            rule: "histories with at least three attempts of somebody else than the admin and one of the admin",
            assumptions: &[SVM],
            subs: vec![H::new("admins", "F16", 40_000, s_admin, |st| {
                n(st, "unauthorised_attempt") >= 3
                    && n(st, "owner_changed") + n(st, "whitelisted") + n(st, "period_opened") >= 1
            })
            .after(|w, _, _| w.farms_unchanged())
            .sub(), subst::check("F16", subst::ADMIN, 5000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F17" => Property {
            id: "F17",
            rule: "a case is a history plus altered instructions; it counts if the original of at least one altered \
                instruction was accepted in the state it was tried in",
            assumptions: &[SVM, APART],
            subs: vec![subst::check("F17", subst::ALL, 12_000)],
            probes: vec![],
            min_nontrivial: 2000,
        },
        "F18" => Property {
            id: "F18",
            rule: "histories in which at least one farmer got out completely, closing the account, at the end",
            assumptions: &[SVM, APART],
            subs: vec![
                H::new("liveness", "F18", 40_000, s_even, |st| n(st, "got_out") >= 1)
                    .end(|w, st| w.everybody_leaves(st))
                    .apart()
                    .sub(),
                H::new("liveness_deep", "F18", 800, s_even_deep, |st| n(st, "got_out") >= 1)
                    .end(|w, st| w.everybody_leaves(st))
                    .apart()
                    .sub(),
            ],
            probes: vec![],
            min_nontrivial: 5000,
        },
        "F19" => Property {
            id: "F19",
            rule: "requests to create a farm with at most one defect (one of twelve kinds) in the given accounts",
            assumptions: &[SVM],
            subs: vec![create::check("F19", 100_000)],
            probes: vec![],
            min_nontrivial: 5000,
        },
        _ => return None,
    };
    Some(p)
}
