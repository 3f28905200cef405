//! The operations histories are made of, and their generators.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};
use svm::pbt::Tier;

/// An amount relative to some reference value.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Amt {
    Small(u16),
    /// n / 65535 of the reference
    Frac(u16),
    /// value with about as many bits
    Bits(u8, u64),
    /// reference plus
    Over(u8),
}

impl Amt {
    pub fn of(&self, reference: u64) -> u64 {
        match *self {
            Amt::Small(n) => n as u64,
            Amt::Frac(n) => (reference as u128 * n as u128 / 65535) as u64,
            Amt::Bits(b, v) => {
                let b = (b % 64) as u32;
                (v & ((1u64 << b) - 1)) | (1u64 << b)
            }
            Amt::Over(n) => reference.saturating_add(n as u64),
        }
    }
}

/// Where a harvest period starts.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Start {
    /// 0, which stands for now
    Zero,
    /// relative to now
    Now(i32),
    /// relative to the end of the newest period
    End(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Op {
    Warp(u32),
    /// take a snapshot; `wait`: as soon as it is allowed plus `extra`
    Snap { f: u8, wait: bool, extra: u16 },
    Snaps { f: u8, n: u16, gap: u8 },
    Period { f: u8, m: u8, by: u8, start: Start, len: u32, tps: Amt },
    /// several short periods back to back
    Periods { f: u8, m: u8, n: u8, len: u8, tps: u8 },
    AddHarvest { f: u8, m: u8, by: u8 },
    RemoveHarvest { f: u8, m: u8, by: u8 },
    CreateFarmer { f: u8, u: u8, payer: u8 },
    Close { f: u8, u: u8, by: u8 },
    Stake { f: u8, u: u8, by: u8, amt: Amt },
    Unstake { f: u8, u: u8, by: u8, amt: Amt },
    Update { f: u8, u: u8 },
    UpdateUntil { f: u8, u: u8, until: i32 },
    /// `shape`: in which order, how often the pairs are presented
    Claim {
        f: u8,
        u: u8,
        by: u8,
        mask: u16,
        to: u8,
        #[serde(default)]
        shape: u8,
    },
    Airdrop { f: u8, u: u8, m: u8, by: u8, amt: Amt },
    CompSame { f: u8, u: u8 },
    CompAcross { s: u8, t: u8, su: u8, tu: u8 },
    Whitelist { s: u8, t: u8, by: u8 },
    Dewhitelist { s: u8, t: u8, by: u8 },
    SetOwner { f: u8, by: u8, new: u8, cosign: bool },
    SetWindow { f: u8, by: u8, slots: u32 },
    DonateStake { f: u8, amt: u16 },
    DonateHarvest { f: u8, m: u8, amt: u16 },
    /// lamports are sent to where an account is (to be): of a farmer, of
    /// harvest, of a whitelisting
    Dust { f: u8, kind: u8, x: u8, lamports: u32 },
    /// everybody updates, claims what they can
    ClaimAll { f: u8 },
    /// everybody unstakes everything
    ExitAll { f: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub farms: u8,
    /// the stake mint of both farms is the same one
    pub same_stake: bool,
    /// number of harvest mints added to the farms at the start
    pub harvests: u8,
    /// the first harvest mint is the stake mint
    pub stake_is_harvest: bool,
    pub window: u32,
    pub start_slot: u64,
    /// snapshots taken before anybody joins
    pub prewrap: u16,
    /// farmers who join at the start: stake of each
    pub joined: Vec<Amt>,
    /// a period for each harvest mint, scheduled right at the start
    pub period: Option<(u32, Amt)>,
    /// balances are about 2^scale
    pub scale: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

pub fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => (0u16..200).prop_map(Amt::Small),
        5 => any::<u16>().prop_map(Amt::Frac),
        3 => (0u8..62, any::<u64>()).prop_map(|(b, v)| Amt::Bits(b, v)),
        1 => (0u8..3).prop_map(Amt::Over),
    ]
    .boxed()
}

/// Mostly what leads to a meaningful stake.
pub fn stake_amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => (1u16..200).prop_map(Amt::Small),
        6 => (1u16..20000).prop_map(Amt::Frac),
        3 => (0u8..60, any::<u64>()).prop_map(|(b, v)| Amt::Bits(b, v)),
    ]
    .boxed()
}

fn tps() -> BoxedStrategy<Amt> {
    prop_oneof![
        1 => Just(Amt::Small(0)),
        6 => (1u16..2000).prop_map(Amt::Small),
        5 => (0u8..40, any::<u64>()).prop_map(|(b, v)| Amt::Bits(b, v)),
        3 => (1u16..30000).prop_map(Amt::Frac),
        1 => (1u8..3).prop_map(Amt::Over),
    ]
    .boxed()
}

fn slots() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => 1u32..4,
        6 => 1u32..60,
        3 => 1u32..2000,
        1 => 1u32..3_000_000,
    ]
    .boxed()
}

fn by(foreign: u32) -> BoxedStrategy<u8> {
    // 0: whom it belongs to
    prop_oneof![100 - foreign => Just(0u8), foreign => 1u8..8].boxed()
}

/// Relative frequency of the operations, to aim histories at a property.
#[derive(Clone, Copy)]
pub struct Weights {
    pub warp: u32,
    pub snap: u32,
    pub snaps: u32,
    pub period: u32,
    pub periods: u32,
    pub harvest: u32,
    pub farmer: u32,
    pub stake: u32,
    pub unstake: u32,
    pub update: u32,
    pub until: u32,
    pub claim: u32,
    pub airdrop: u32,
    pub compound: u32,
    pub whitelist: u32,
    pub admin: u32,
    pub donate: u32,
    pub all: u32,
    /// largest number of snapshots of a bulk
    pub bulk: u16,
    /// percentage of operations by somebody they are none of the business of
    pub foreign: u32,
}

pub const EVEN: Weights = Weights {
    warp: 8,
    snap: 10,
    snaps: 1,
    period: 5,
    periods: 1,
    harvest: 1,
    farmer: 2,
    stake: 8,
    unstake: 4,
    update: 8,
    until: 2,
    claim: 4,
    airdrop: 2,
    compound: 3,
    whitelist: 2,
    admin: 1,
    donate: 1,
    all: 1,
    bulk: 5,
    foreign: 10,
};

pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let f = || 0u8..2;
    let u = || 0u8..4;
    let m = || prop_oneof![6 => 0u8..3, 1 => 0u8..13];
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (w.warp, slots().prop_map(Op::Warp).boxed()),
        (
            w.snap,
            (f(), prop::bool::weighted(0.9), prop_oneof![5 => Just(0u16), 3 => 0u16..5, 2 => 0u16..3000])
                .prop_map(|(f, wait, extra)| Op::Snap { f, wait, extra })
                .boxed(),
        ),
        (
            w.snaps,
            (f(), 1u16..=w.bulk.max(1), 0u8..4).prop_map(|(f, n, gap)| Op::Snaps { f, n, gap }).boxed(),
        ),
        (
            w.period,
            (
                f(),
                m(),
                by(w.foreign),
                prop_oneof![
                    3 => Just(Start::Zero),
                    2 => (-3i32..200).prop_map(Start::Now),
                    3 => (-2i32..40).prop_map(Start::End),
                ],
                prop_oneof![1 => Just(0u32), 1 => Just(1u32), 8 => 2u32..60, 4 => 2u32..3000, 1 => any::<u32>()],
                tps(),
            )
                .prop_map(|(f, m, by, start, len, tps)| Op::Period { f, m, by, start, len, tps })
                .boxed(),
        ),
        (
            w.periods,
            (f(), 0u8..3, 1u8..14, 2u8..7, any::<u8>())
                .prop_map(|(f, m, n, len, tps)| Op::Periods { f, m, n, len, tps })
                .boxed(),
        ),
        (
            w.harvest,
            (f(), m(), by(w.foreign), any::<bool>())
                .prop_map(|(f, m, by, add)| {
                    if add {
                        Op::AddHarvest { f, m, by }
                    } else {
                        Op::RemoveHarvest { f, m, by }
                    }
                })
                .boxed(),
        ),
        (
            w.farmer,
            (f(), u(), by(w.foreign), any::<bool>())
                .prop_map(|(f, u, by, create)| {
                    if create {
                        Op::CreateFarmer { f, u, payer: by }
                    } else {
                        Op::Close { f, u, by }
                    }
                })
                .boxed(),
        ),
        (
            w.stake,
            (f(), u(), by(w.foreign), prop_oneof![6 => stake_amt(), 1 => amt()])
                .prop_map(|(f, u, by, amt)| Op::Stake { f, u, by, amt })
                .boxed(),
        ),
        (
            w.unstake,
            (f(), u(), by(w.foreign), prop_oneof![4 => amt(), 1 => Just(Amt::Frac(65535)), 1 => Just(Amt::Over(1))])
                .prop_map(|(f, u, by, amt)| Op::Unstake { f, u, by, amt })
                .boxed(),
        ),
        (w.update, (f(), u()).prop_map(|(f, u)| Op::Update { f, u }).boxed()),
        (
            w.until,
            (f(), u(), prop_oneof![4 => -40i32..4, 1 => -3000i32..10])
                .prop_map(|(f, u, until)| Op::UpdateUntil { f, u, until })
                .boxed(),
        ),
        (
            w.claim,
            (
                f(),
                u(),
                by(w.foreign),
                prop_oneof![2 => Just(u16::MAX), 1 => any::<u16>()],
                prop_oneof![3 => Just(0u8), 1 => 0u8..8],
                prop_oneof![2 => Just(0u8), 1 => 0u8..6],
            )
                .prop_map(|(f, u, by, mask, to, shape)| Op::Claim { f, u, by, mask, to, shape })
                .boxed(),
        ),
        (
            w.airdrop,
            (f(), u(), m(), by(w.foreign), amt()).prop_map(|(f, u, m, by, amt)| Op::Airdrop { f, u, m, by, amt }).boxed(),
        ),
        (
            w.compound,
            prop_oneof![
                (f(), u()).prop_map(|(f, u)| Op::CompSame { f, u }),
                (f(), u(), u(), prop::bool::weighted(0.85), prop::bool::weighted(0.9)).prop_map(
                    |(s, su, tu, same, other)| Op::CompAcross {
                        s,
                        t: if other { 1 - s } else { s },
                        su,
                        tu: if same { su } else { tu }
                    }
                ),
            ]
            .boxed(),
        ),
        (
            w.whitelist,
            (f(), f(), by(w.foreign), prop::bool::weighted(0.75))
                .prop_map(|(s, t, by, add)| {
                    if add {
                        Op::Whitelist { s, t, by }
                    } else {
                        Op::Dewhitelist { s, t, by }
                    }
                })
                .boxed(),
        ),
        (
            w.admin,
            prop_oneof![
                (f(), by(w.foreign), 0u8..7, prop::bool::weighted(0.8))
                    .prop_map(|(f, by, new, cosign)| Op::SetOwner { f, by, new, cosign }),
                (f(), by(w.foreign), prop_oneof![Just(0u32), 1u32..30, 1u32..20000])
                    .prop_map(|(f, by, slots)| Op::SetWindow { f, by, slots }),
            ]
            .boxed(),
        ),
        (
            w.donate,
            prop_oneof![
                (f(), 1u16..1000).prop_map(|(f, amt)| Op::DonateStake { f, amt }),
                (f(), m(), 1u16..1000).prop_map(|(f, m, amt)| Op::DonateHarvest { f, m, amt }),
                (f(), 0u8..3, m(), prop_oneof![Just(1u32), 1u32..4_000_000])
                    .prop_map(|(f, kind, x, lamports)| Op::Dust { f, kind, x, lamports }),
            ]
            .boxed(),
        ),
        (
            w.all,
            prop_oneof![f().prop_map(|f| Op::ClaimAll { f }), f().prop_map(|f| Op::ExitAll { f })].boxed(),
        ),
    ];
    v.retain(|(w, _)| *w > 0);
    Union::new_weighted(v).boxed()
}

pub fn cfg(max_prewrap: u16) -> BoxedStrategy<Cfg> {
    (
        (
            prop_oneof![2 => Just(1u8), 1 => Just(2u8)],
            any::<bool>(),
            prop_oneof![6 => 1u8..4, 1 => 0u8..11],
            prop::bool::weighted(0.6),
            prop_oneof![4 => 1u32..3, 4 => 1u32..40, 1 => Just(0u32), 1 => 1u32..10000],
        ),
        (
            prop_oneof![3 => 1u64..100, 2 => 1u64..100_000_000, 1 => 1u64..(1 << 40)],
            if max_prewrap == 0 {
                prop_oneof![4 => Just(0u16), 1 => 0u16..4].boxed()
            } else {
                prop_oneof![
                    30 => Just(0u16),
                    10 => 0u16..4,
                    2 => (max_prewrap.min(996))..=max_prewrap,
                ]
                .boxed()
            },
            vec(stake_amt(), 0..=4),
            prop::option::weighted(0.8, (prop_oneof![2u32..100, 2u32..5000, 2u32..2_000_000], tps())),
            prop_oneof![1 => 8u8..30, 3 => 30u8..45, 1 => 45u8..=60],
        ),
    )
        .prop_map(
            |(
                (farms, same_stake, harvests, stake_is_harvest, window),
                (start_slot, prewrap, joined, period, scale),
            )| Cfg {
                farms,
                same_stake,
                harvests,
                stake_is_harvest,
                window,
                start_slot,
                prewrap,
                joined,
                period,
                scale,
            },
        )
        .boxed()
}

pub fn case(w: Weights, max_prewrap: u16, max_ops: usize) -> BoxedStrategy<Case> {
    (cfg(max_prewrap), vec(op(w), 1..max_ops)).prop_map(|(cfg, ops)| Case { cfg, ops }).boxed()
}

pub fn len(tier: Tier, quick: usize) -> usize {
    match tier {
        Tier::Quick => quick,
        Tier::Thorough => quick * 2,
    }
}
