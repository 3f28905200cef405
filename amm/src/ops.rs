//! The operations histories are made of, and their generators.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};
use svm::pbt::Tier;

/// An amount relative to some reference value.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Amt {
    Small(u16),
    /// n / 65535 of the reference
    Frac(u16),
    /// value with about as many bits
    Bits(u8, u64),
    /// reference plus
    Over(u8),
    /// reference minus
    Under(u8),
    /// all the user has, and so much more or less
    Wallet(i8),
}

impl Amt {
    pub fn of(&self, reference: u64) -> u64 {
        self.of2(reference, reference)
    }
    pub fn of2(&self, reference: u64, wallet: u64) -> u64 {
        match *self {
            Amt::Wallet(n) => wallet.saturating_add_signed(n as i64),
            Amt::Small(n) => n as u64,
            Amt::Frac(n) => (reference as u128 * n as u128 / 65535) as u64,
            Amt::Bits(b, v) => {
                let b = (b % 64) as u32;
                (v & ((1u64 << b) - 1)) | (1u64 << b)
            }
            Amt::Over(n) => reference.saturating_add(n as u64),
            Amt::Under(n) => reference.saturating_sub(n as u64),
        }
    }
}

/// What a depositor is willing to give of a single token, relative to what
/// would be proportional.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Jit {
    Same,
    Plus(u8),
    Minus(u8),
    /// times n / 64
    Times(u16),
    Max,
    Raw(Amt),
    /// all the user has, and so much more or less
    Wallet(i8),
}

/// What the user insists on.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Min {
    None,
    /// exactly what is quoted
    Quote,
    /// of one token, one more than what is quoted
    More(u8),
    /// any amounts
    Raw([u64; 4]),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Op {
    Warp(u32),
    Deposit { p: u8, u: u8, size: Amt, jit: [Jit; 4], perm: u8 },
    Redeem { p: u8, u: u8, amt: Amt, min: Min, perm: u8 },
    Swap { p: u8, u: u8, s: u8, b: u8, amt: Amt, min: Min },
    /// one swap in several parts, by the same user
    Fee { p: u8, by: u8, fee: Amt },
    Discount { by: u8, user: u8, amount: u32, valid: i32 },
    /// tokens sent to a vault without the program
    Donate { p: u8, m: u8, amt: u32 },
    BurnLp { p: u8, u: u8, amt: Amt },
    MoveLp { p: u8, u: u8, to: u8, amt: Amt },
    /// the owner of the toll redeems
    Toll { p: u8, amt: Amt },
    /// everybody redeems everything
    ExitAll { p: u8 },
    /// a user is left with so much of a token
    Purse { p: u8, u: u8, m: u8, keep: Amt },
    /// somebody else acts with the tokens of the user, as a delegate of up to
    /// so many tokens
    Delegated { by: u8, allow: Amt, op: Box<Op> },
    /// lamports are sent to where the discount of a user is (to be)
    Dust { u: u8, lamports: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PoolCfg {
    pub dim: u8,
    /// 0: constant product
    pub amp: u64,
    pub fee: u16,
    /// first deposit
    pub first: Vec<u64>,
    /// liquidity and LP tokens existed before the pool was created
    pub existing: Option<u64>,
    /// which tokens
    pub rot: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub pools: Vec<PoolCfg>,
    /// users 0.. have this discount, valid for so many slots
    pub discounts: Vec<(u32, u16)>,
    /// user 0 owns most tokens there can be, and reserves may be as large
    #[serde(default)]
    pub rich: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy)]
pub struct Weights {
    pub deposit: u32,
    pub redeem: u32,
    pub swap: u32,
    pub fee: u32,
    pub discount: u32,
    pub warp: u32,
    pub donate: u32,
    pub burn: u32,
    pub movelp: u32,
    pub toll: u32,
    pub exit: u32,
    pub purse: u32,
    pub dust: u32,
    /// percentage of deposits, redemptions and swaps by a delegate
    pub delegated: u8,
    /// percentage of histories with amounts close to the limit
    pub rich: u8,
    /// percentage of administrative operations by somebody else
    pub foreign: u8,
    /// percentage of stable pools
    pub stable: u8,
    /// reserves which are likely to be at the ends of what is possible
    pub extreme: u8,
    /// how often users get a discount from the start, in percent
    pub discounted: u8,
}

pub const EVEN: Weights = Weights {
    deposit: 14,
    redeem: 10,
    swap: 30,
    fee: 3,
    discount: 4,
    warp: 3,
    donate: 2,
    burn: 1,
    movelp: 2,
    toll: 2,
    exit: 1,
    purse: 3,
    dust: 1,
    delegated: 8,
    rich: 8,
    foreign: 15,
    stable: 50,
    extreme: 25,
    discounted: 40,
};

pub fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => (0u16..300).prop_map(Amt::Small),
        8 => any::<u16>().prop_map(Amt::Frac),
        3 => (1u16..700).prop_map(Amt::Frac),
        3 => (0u8..64, any::<u64>()).prop_map(|(b, v)| Amt::Bits(b, v)),
        1 => (0u8..3).prop_map(Amt::Over),
        1 => (0u8..4).prop_map(Amt::Under),
        1 => (-2i8..3).prop_map(Amt::Wallet),
    ]
    .boxed()
}

fn jit() -> BoxedStrategy<Jit> {
    prop_oneof![
        8 => Just(Jit::Same),
        3 => (0u8..3).prop_map(Jit::Plus),
        2 => (0u8..3).prop_map(Jit::Minus),
        4 => (0u16..512).prop_map(Jit::Times),
        2 => Just(Jit::Max),
        1 => amt().prop_map(Jit::Raw),
        2 => (-1i8..3).prop_map(Jit::Wallet),
    ]
    .boxed()
}

fn min() -> BoxedStrategy<Min> {
    prop_oneof![
        5 => Just(Min::None),
        3 => Just(Min::Quote),
        3 => (0u8..4).prop_map(Min::More),
        1 => any::<[u64; 4]>().prop_map(Min::Raw),
    ]
    .boxed()
}

fn foreign(w: Weights) -> BoxedStrategy<u8> {
    let f = w.foreign.clamp(1, 99) as u32;
    prop_oneof![(100 - f) => Just(0u8), f => 1u8..16].boxed()
}

pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let all = plain(w);
    if w.delegated == 0 {
        return all;
    }
    let d = w.delegated.min(99) as u32;
    let some = plain(Weights { fee: 0, discount: 0, warp: 0, donate: 0, burn: 0, movelp: 0, toll: 0, exit: 0, purse: 0, dust: 0, ..w });
    let allow = prop_oneof![3 => Just(Amt::Wallet(0)), 1 => (-2i8..2).prop_map(Amt::Wallet), 1 => amt()];
    let delegated = (1u8..4, allow, some).prop_map(|(by, allow, op)| Op::Delegated { by, allow, op: Box::new(op) });
    prop_oneof![(100 - d) => all, d => delegated].boxed()
}

fn plain(w: Weights) -> BoxedStrategy<Op> {
    let p = || prop_oneof![4 => Just(0u8), 1 => Just(1u8)];
    let u = || 0u8..4;
    let all: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (
            w.deposit,
            (p(), u(), amt(), [jit(), jit(), jit(), jit()], any::<u8>())
                .prop_map(|(p, u, size, jit, perm)| Op::Deposit { p, u, size, jit, perm })
                .boxed(),
        ),
        (
            w.redeem,
            (p(), u(), amt(), min(), any::<u8>())
                .prop_map(|(p, u, amt, min, perm)| Op::Redeem { p, u, amt, min, perm })
                .boxed(),
        ),
        (
            w.swap,
            (p(), u(), 0u8..4, 0u8..4, amt(), min())
                .prop_map(|(p, u, s, b, amt, min)| Op::Swap { p, u, s, b, amt, min })
                .boxed(),
        ),
        (
            w.fee,
            (
                p(),
                foreign(w),
                prop_oneof![
                    6 => (0u16..=10_000).prop_map(Amt::Small),
                    2 => Just(Amt::Small(10_000)),
                    2 => (10_001u16..10_003).prop_map(Amt::Small),
                    2 => amt()
                ],
            )
                .prop_map(|(p, by, fee)| Op::Fee { p, by, fee })
                .boxed(),
        ),
        (
            w.discount,
            (
                foreign(w),
                u(),
                prop_oneof![4 => 0u32..=1_000_000, 2 => 0u32..1_100_000, 1 => 999_999u32..1_000_002, 1 => Just(0)],
                prop_oneof![3 => -3i32..4, 3 => 0i32..200],
            )
                .prop_map(|(by, user, amount, valid)| Op::Discount { by, user, amount, valid })
                .boxed(),
        ),
        (w.warp, prop_oneof![3 => 1u32..4, 1 => 1u32..150].prop_map(Op::Warp).boxed()),
        (w.donate, (p(), 0u8..4, 1u32..100_000).prop_map(|(p, m, amt)| Op::Donate { p, m, amt }).boxed()),
        (w.burn, (p(), u(), amt()).prop_map(|(p, u, amt)| Op::BurnLp { p, u, amt }).boxed()),
        (w.movelp, (p(), u(), u(), amt()).prop_map(|(p, u, to, amt)| Op::MoveLp { p, u, to, amt }).boxed()),
        (w.toll, (p(), amt()).prop_map(|(p, amt)| Op::Toll { p, amt }).boxed()),
        (w.exit, p().prop_map(|p| Op::ExitAll { p }).boxed()),
        (w.purse, (p(), u(), 0u8..4, amt()).prop_map(|(p, u, m, keep)| Op::Purse { p, u, m, keep }).boxed()),
        (w.dust, (u(), prop_oneof![3 => 1u32..1000, 1 => 1u32..5_000_000]).prop_map(|(u, lamports)| Op::Dust { u, lamports }).boxed()),
    ];
    Union::new_weighted(all.into_iter().filter(|x| x.0 > 0).collect::<Vec<_>>()).boxed()
}

/// What a single user may own.
pub const MOST: u64 = 14_000_000_000_000_000_000;

/// Reserves: a magnitude, and how unequal they are.
fn first(w: Weights) -> BoxedStrategy<Vec<u64>> {
    let e = w.extreme.clamp(1, 99) as u32;
    let magnitude = prop_oneof![
        (100 - e) => 3u32..14,
        e => prop_oneof![0u32..4, 13u32..20],
    ];
    let ratio = prop_oneof![
        3 => Just(0u32),
        4 => Just(1u32),
        3 => 1u32..4,
        1 => 1u32..9,
    ];
    (magnitude, ratio, vec((any::<u32>(), 0u32..9, any::<bool>()), 4))
        .prop_map(|(m, r, parts)| {
            let base = 10u64.pow(m);
            let lead = base as u128 * (1_000 + parts[0].0 as u128 % 8_000) / 1_000;
            parts
                .iter()
                .map(|(x, d, round)| {
                    let v = match r {
                        // equal
                        0 => lead,
                        // of the same magnitude
                        1 => base as u128 * (1_000 + *x as u128 % 8_000) / 1_000,
                        _ => base as u128 * (1_000 + *x as u128 % 8_000) / 1_000 / 10u128.pow(*d % (r + 1)),
                    };
                    let v = if *round { v - v % (base as u128 / 10).max(1) } else { v };
                    v.clamp(1, MOST as u128) as u64
                })
                .collect()
        })
        .boxed()
}

fn pool(w: Weights) -> BoxedStrategy<PoolCfg> {
    let s = w.stable.min(100) as u32;
    let amp = if s == 0 {
        Just(0u64).boxed()
    } else if s == 100 {
        amplifier()
    } else {
        prop_oneof![(100 - s) => Just(0u64), s => amplifier()].boxed()
    };
    (
        prop_oneof![4 => Just(2u8), 3 => Just(3u8), 2 => Just(4u8)],
        amp,
        prop_oneof![3 => Just(0u16), 5 => 0u16..=10_000, 1 => Just(10_000u16), 1 => 1u16..100],
        first(w),
        prop::option::weighted(0.12, prop_oneof![1u64..1000, 1u64..(1 << 40), any::<u64>()]),
        0u8..6,
    )
        .prop_map(|(dim, amp, fee, mut first, existing, rot)| {
            first.truncate(dim as usize);
            PoolCfg { dim, amp, fee, first, existing, rot }
        })
        .boxed()
}

fn amplifier() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => Just(1u64),
        6 => 1u64..300,
        2 => prop_oneof![Just(10u64), Just(85), Just(100), Just(1000)],
        1 => 1u64..1_000_000,
    ]
    .boxed()
}

pub fn len(t: Tier, quick: usize) -> usize {
    match t {
        Tier::Quick => quick,
        Tier::Thorough => quick * 3,
    }
}

pub fn cfg(w: Weights) -> BoxedStrategy<Cfg> {
    let d = w.discounted.min(100) as f64 / 100.0;
    let rich = w.rich.min(100) as u32;
    let pools = prop_oneof![3 => vec(pool(w), 1), 1 => vec(pool(w), 2)].prop_map(|p| (false, p)).boxed();
    let huge = (vec(pool(Weights { extreme: 99, ..w }), 1), prop_oneof![2 => Just(0u8), 1 => 0u8..16]).prop_map(|(mut p, not)| {
        for (i, x) in p.iter_mut().flat_map(|p| p.first.iter_mut()).enumerate() {
            // of the order of what there can be
            if not >> i & 1 == 1 {
                continue;
            }
            *x = (*x).saturating_mul(10u64.pow(18u32.saturating_sub(x.ilog10()))).min(MOST);
        }
        (true, p)
    }).boxed();
    let pools = if rich == 0 { pools } else { prop_oneof![(100 - rich) => pools, rich => huge].boxed() };
    (
        pools,
        prop::bool::weighted(d),
        vec((prop_oneof![1 => Just(0u32), 6 => 0u32..=1_000_000, 2 => Just(1_000_000u32)], 0u16..60), 0..4),
    )
        .prop_map(|((rich, pools), any, discounts)| Cfg { pools, discounts: if any { discounts } else { vec![] }, rich })
        .boxed()
}

pub fn case(w: Weights, max: usize) -> BoxedStrategy<Case> {
    (cfg(w), vec(op(w), 0..max)).prop_map(|(cfg, ops)| Case { cfg, ops }).boxed()
}
