//! Altered instructions: accounts are substituted, signatures dropped or given
//! by somebody else. Whatever the program makes of it, nobody who did not sign
//! may be worse off, nor may the vaults cover less of what is owed.

use crate::client as c;
use crate::client::{farm, farmer, harvest_vault, mint, signer, stake_vault, wallet, who, Ix};
use crate::ops::{self, Case, Op, Weights, EVEN};
use crate::world::{self, Mismatch, Res, Tags, World};
use anchor_lang::prelude::Pubkey;
use anchor_lang::Discriminator;
use anchor_lang::solana_program::{instruction::AccountMeta, system_program};
use farming::models::{Farm, Farmer};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use svm::pbt::{Check, Stats, Sub, Tier};
use svm::tok;
use svm::vm::{Acct, Svm};

const ATTACKER: usize = 6;
/// The farm of the attacker.
const AF: usize = 2;
const FARMS: usize = 3;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// account `i` becomes one of the same kind
    Kin { i: u8, j: u8 },
    /// account `i` becomes one which has much in common with it
    Twin { i: u8, j: u8 },
    /// account `i` becomes any other
    Any { i: u8, j: u8 },
    Unsign { i: u8 },
    /// the attacker signs instead, all else stays
    Become,
    /// the attacker signs instead and uses their own wallets
    Usurp,
    /// what belongs to one farm is replaced by its counterpart of another,
    /// where the mask has a bit
    Refarm { to: u8, mask: u16 },
    /// what belongs to one user is replaced by its counterpart of another
    Reuser { to: u8, mask: u16 },
    Exchange { i: u8, j: u8 },
    Repeat,
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trial {
    kind: u8,
    f: u8,
    u: u8,
    v: u8,
    m: u8,
    amt: u16,
    muts: Vec<Mut>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attack {
    base: Case,
    warp: u8,
    trials: Vec<Trial>,
}

fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        8 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Kin { i, j }),
        8 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Twin { i, j }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Any { i, j }),
        2 => any::<u8>().prop_map(|i| Mut::Unsign { i }),
        2 => Just(Mut::Become),
        3 => Just(Mut::Usurp),
        4 => (any::<u8>(), any::<u16>()).prop_map(|(to, mask)| Mut::Refarm { to, mask }),
        2 => any::<u8>().prop_map(|to| Mut::Refarm { to, mask: u16::MAX }),
        3 => (any::<u8>(), any::<u16>()).prop_map(|(to, mask)| Mut::Reuser { to, mask }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Exchange { i, j }),
        1 => Just(Mut::Repeat),
        1 => Just(Mut::Drop),
    ]
    .boxed()
}

const BEFORE: Weights = Weights { stake: 14, compound: 6, whitelist: 6, update: 10, snap: 12, claim: 2, foreign: 4, ..EVEN };

fn strategy(t: Tier, kinds: &'static [u8]) -> BoxedStrategy<Attack> {
    let kind = (0..kinds.len()).prop_map(move |i| kinds[i]);
    let trial = (kind, 0u8..2, 0u8..4, 0u8..7, 0u8..4, any::<u16>(), vec(mutation(), 1..4)).prop_map(
        |(kind, f, u, v, m, amt, muts)| Trial { kind, f, u, v, m, amt, muts },
    );
    (ops::case(BEFORE, 0, ops::len(t, 24)), 0u8..30, vec(trial, 1..60), any::<bool>(), any::<u8>())
        .prop_map(|(mut base, warp, trials, open, pairs)| {
            if base.cfg.joined.is_empty() {
                base.cfg.joined.push(ops::Amt::Small(100));
            }
            if open {
                // so that there is something to compound
                base.cfg.farms = 2;
                base.cfg.stake_is_harvest = true;
                base.cfg.harvests = base.cfg.harvests.max(2);
                base.cfg.period.get_or_insert((1000, ops::Amt::Small(300)));
                for f in 0..2 {
                    base.ops.push(Op::Snap { f, wait: true, extra: 0 });
                }
                for (s, t) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                    if pairs >> (2 * s + t) & 1 == 1 || pairs >= 128 {
                        base.ops.push(Op::Whitelist { s, t, by: 0 });
                    }
                }
            }
            Attack { base, warp, trials }
        })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    Person,
    Farm,
    Farmer,
    Signer,
    Token,
    Mint,
    Whitelist,
    Program,
    Other,
}

struct Pool {
    by_kind: BTreeMap<Kind, Vec<Pubkey>>,
    all: Vec<Pubkey>,
    kind: BTreeMap<Pubkey, Kind>,
    /// by which others might be taken for the account
    traits: BTreeMap<Pubkey, Vec<Pubkey>>,
}

impl Pool {
    /// The accounts of the same kind, those with most in common first.
    fn twins(&self, k: &Pubkey) -> Vec<Pubkey> {
        let (kind, traits) = match (self.kind.get(k), self.traits.get(k)) {
            (Some(x), Some(t)) => (x, t),
            _ => return vec![],
        };
        let mut v: Vec<(usize, Pubkey)> = self.by_kind[kind]
            .iter()
            .filter(|x| *x != k)
            .filter_map(|x| {
                let n = self.traits.get(x)?.iter().filter(|t| traits.contains(t)).count();
                (n > 0).then_some((9 - n.min(9), *x))
            })
            .collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    }
}

fn traits(svm: &Svm, k: &Pubkey, kind: Kind) -> Vec<Pubkey> {
    match kind {
        Kind::Token => tok::read(svm, k).map(|t| vec![t.mint, t.owner]).unwrap_or_default(),
        Kind::Farm => c::read_farm_at(svm, k).map(|f| vec![f.admin, f.stake_mint]).unwrap_or_default(),
        Kind::Farmer => c::read_farmer_at(svm, k).map(|f| vec![f.farm, f.authority]).unwrap_or_default(),
        Kind::Whitelist => {
            for s in 0..FARMS {
                for t in 0..FARMS {
                    if *k == c::whitelist(s, t) {
                        return vec![tok::key("source", s as u64), tok::key("target", t as u64)];
                    }
                }
            }
            vec![]
        }
        _ => vec![],
    }
}

fn fake_program() -> Pubkey {
    tok::key("fake program", 0)
}

/// Everything the attacker may come up with.
fn arm(w: &mut World) -> Pool {
    let svm = &mut w.svm;
    let sm = w.farms[0].stake_mint;
    c::put_blank_farm(svm, AF);
    if w.farms.len() == 1 {
        c::put_blank_farm(svm, 1);
    }
    let mut try_ix = |ix: Ix, svm: &mut Svm| {
        let _ = c::send(svm, &ix);
    };
    try_ix(c::create_farm(AF, ATTACKER, sm), svm);
    try_ix(c::set_window(AF, ATTACKER, 1), svm);
    let harvests: Vec<usize> = w.farms[0].harvests.iter().flatten().map(|h| h.mint).collect();
    for m in harvests.iter().take(3).copied().chain([sm]) {
        try_ix(c::add_harvest(AF, ATTACKER, m), svm);
        try_ix(c::new_period(AF, ATTACKER, m, 0, 50, 3), svm);
    }
    for f in 0..FARMS {
        try_ix(c::create_farmer(f, ATTACKER, ATTACKER), svm);
        let m = w.farms.get(f).map(|x| x.stake_mint).unwrap_or(sm);
        try_ix(c::start_farming(f, ATTACKER, ATTACKER, m, 50), svm);
    }
    for u in 0..2 {
        try_ix(c::create_farmer(AF, u, ATTACKER), svm);
    }
    for t in 0..FARMS {
        try_ix(c::whitelist_farm(AF, t, ATTACKER), svm);
    }
    try_ix(c::take_snapshot(AF), svm);

    // lookalikes
    let mut fakes: Vec<(Pubkey, Kind)> = vec![];
    for u in 0..2 {
        if let Some(a) = svm.get(&farmer(0, u)).filter(|a| a.owner == farming::id()).cloned() {
            let k = tok::key("fake farmer", u as u64);
            let mut a = a;
            a.owner = system_program::id();
            a.data[8..40].copy_from_slice(who(ATTACKER).as_ref());
            svm.accts.insert(k, a);
            fakes.push((k, Kind::Farmer));
        }
    }
    if let Some(mut a) = svm.get(&farm(0)).cloned() {
        let k = tok::key("fake farm", 0);
        a.data[8..40].copy_from_slice(who(ATTACKER).as_ref());
        a.owner = system_program::id();
        svm.accts.insert(k, a);
        fakes.push((k, Kind::Farm));
    }
    for (i, m) in [sm].into_iter().chain(harvests.iter().take(2).copied()).enumerate() {
        // of the same mint and under the control of the farm, but not a vault
        let k = tok::key("fake vault", i as u64);
        tok::account(svm, k, mint(m), signer(0), 1000);
        fakes.push((k, Kind::Token));
        let k = tok::key("attacker vault", i as u64);
        tok::account(svm, k, mint(m), who(ATTACKER), 0);
        fakes.push((k, Kind::Token));
    }
    svm.accts.insert(
        fake_program(),
        Acct { lamports: 1, owner: anchor_lang::solana_program::bpf_loader::id(), executable: true, data: vec![] },
    );

    let mut kind = BTreeMap::new();
    for (k, x) in fakes {
        kind.insert(k, x);
    }
    for p in 0..c::WHO {
        kind.insert(who(p), Kind::Person);
        for m in 0..4 {
            kind.insert(wallet(p, m), Kind::Token);
        }
    }
    for f in 0..FARMS {
        kind.insert(farm(f), Kind::Farm);
        kind.insert(signer(f), Kind::Signer);
        kind.insert(stake_vault(f), Kind::Token);
        for m in 0..4 {
            kind.insert(harvest_vault(f, m), Kind::Token);
        }
        for p in [0, 1, 2, 3, ATTACKER] {
            kind.insert(farmer(f, p), Kind::Farmer);
        }
        for t in 0..FARMS {
            kind.insert(c::whitelist(f, t), Kind::Whitelist);
        }
    }
    for m in 0..4 {
        kind.insert(mint(m), Kind::Mint);
    }
    for p in [spl_token::id(), system_program::id(), fake_program(), farming::id()] {
        kind.insert(p, Kind::Program);
    }
    let mut by_kind: BTreeMap<Kind, Vec<Pubkey>> = BTreeMap::new();
    for (k, x) in &kind {
        by_kind.entry(*x).or_default().push(*k);
    }
    // an order which does not depend on the addresses is not needed: they are
    // deterministic
    let all = kind.keys().copied().collect();
    let traits = kind.iter().map(|(k, x)| (*k, traits(&w.svm, k, *x))).collect();
    Pool { by_kind, all, kind, traits }
}

/// What the instruction of the kind is about, if it does harm.
fn about(kind: u8) -> Tags {
    match kind {
        0..=5 => &["F02"],
        6..=9 => &["F08"],
        10..=12 => &["F04", "F03"],
        13 | 14 => &["F13"],
        15..=19 => &["F12"],
        20 | 21 => &["F11", "F16"],
        22 | 23 => &["F15", "F16"],
        24 | 25 => &["F16"],
        26 | 27 => &["F16", "F12"],
        28 | 30 => &["F14"],
        29 => &["F09"],
        _ => &["F01"],
    }
}

/// The honest instruction.
fn original(w: &World, t: &Trial) -> Option<(Ix, Spend)> {
    let f = t.f as usize % w.farms.len();
    let g = (f + 1) % w.farms.len();
    let fm = &w.farms[f];
    let users: Vec<usize> = w.farmers.keys().filter(|k| k.0 == f).map(|k| k.1).collect();
    let u = if users.is_empty() { 0 } else { users[t.u as usize % users.len()] };
    let harvests: Vec<usize> = fm.harvests.iter().flatten().map(|h| h.mint).collect();
    let m = if harvests.is_empty() { 0 } else { harvests[t.m as usize % harvests.len()] };
    let amount = t.amt as u64 % 1000 + 1;
    let spend = match t.kind {
        0 | 1 | 13 | 14 => Spend::Upto(amount),
        20 | 21 => Spend::Upto(20 * (amount % 7)),
        _ => Spend::Nothing,
    };
    let ix = match t.kind {
        0 | 1 => c::start_farming(f, u, u, fm.stake_mint, amount),
        2..=5 => c::stop_farming(f, u, u, fm.stake_mint, if t.amt & 1 == 0 { amount } else { u64::MAX }),
        6..=9 => {
            let pairs: Vec<(usize, Pubkey)> = harvests.iter().map(|m| (*m, wallet(u, *m))).collect();
            c::claim(f, u, u, &pairs)
        }
        10 | 11 => c::update(f, u),
        12 => c::update_until(f, u, w.slot().saturating_sub(t.v as u64)),
        13 | 14 => c::airdrop(f, u, u, m, amount),
        15 | 16 => c::compound_same(f, u, fm.stake_mint),
        17..=19 => c::compound_across(f, g, u, u, w.farms[g].stake_mint),
        20 | 21 => c::new_period(f, fm.admin, m, 0, 20, amount % 7),
        22 => {
            let free = (0..c::MINTS).find(|m| fm.harvest(*m).is_none())?;
            c::add_harvest(f, fm.admin, free)
        }
        23 => c::remove_harvest(f, fm.admin, m),
        24 => c::set_farm_owner(f, fm.admin, t.v as usize % c::WHO),
        25 => c::set_window(f, fm.admin, amount),
        26 => c::whitelist_farm(f, g, fm.admin),
        27 => c::dewhitelist_farm(f, g, fm.admin),
        28 => c::close_farmer(f, u, u),
        29 => c::take_snapshot(f),
        30 => c::create_farmer(f, t.v as usize % c::USERS, u),
        // there is a blank account for another farm
        _ => c::create_farm(w.farms.len().min(1), fm.admin, fm.stake_mint),
    };
    Some((ix, spend))
}

fn counterpart_farm(k: &Pubkey, to: usize) -> Option<Pubkey> {
    for f in 0..FARMS {
        if *k == farm(f) {
            return Some(farm(to));
        }
        if *k == signer(f) {
            return Some(signer(to));
        }
        if *k == stake_vault(f) {
            return Some(stake_vault(to));
        }
        for m in 0..c::MINTS {
            if *k == harvest_vault(f, m) {
                return Some(harvest_vault(to, m));
            }
        }
        for p in 0..c::WHO {
            if *k == farmer(f, p) {
                return Some(farmer(to, p));
            }
        }
        for t in 0..FARMS {
            if *k == c::whitelist(f, t) {
                return Some(c::whitelist(to, t));
            }
        }
    }
    None
}

fn counterpart_user(k: &Pubkey, to: usize) -> Option<Pubkey> {
    for p in 0..c::WHO {
        if *k == who(p) {
            return Some(who(to));
        }
        for m in 0..c::MINTS {
            if *k == wallet(p, m) {
                return Some(wallet(to, m));
            }
        }
        for f in 0..FARMS {
            if *k == farmer(f, p) {
                return Some(farmer(f, to));
            }
        }
    }
    None
}

fn alter(ix: &mut Ix, m: &Mut, pool: &Pool) {
    let n = ix.metas.len();
    if n == 0 {
        return;
    }
    let put = |meta: &mut AccountMeta, k: Pubkey| {
        meta.pubkey = k;
        // only people can sign
        meta.is_signer &= (0..c::WHO).any(|p| who(p) == k);
    };
    match *m {
        Mut::Kin { i, j } => {
            let i = i as usize % n;
            let kind = pool.kind.get(&ix.metas[i].pubkey).copied().unwrap_or(Kind::Other);
            if let Some(v) = pool.by_kind.get(&kind) {
                put(&mut ix.metas[i], v[j as usize % v.len()]);
            }
        }
        Mut::Twin { i, j } => {
            let x = &mut ix.metas[i as usize % n];
            let v = pool.twins(&x.pubkey);
            if !v.is_empty() {
                // the first ones more often
                put(x, v[(j as usize * j as usize / 256) % v.len()]);
            }
        }
        Mut::Any { i, j } => {
            let k = pool.all[j as usize % pool.all.len()];
            put(&mut ix.metas[i as usize % n], k);
        }
        Mut::Unsign { i } => {
            let who: Vec<usize> = (0..n).filter(|x| ix.metas[*x].is_signer).collect();
            if !who.is_empty() {
                ix.metas[who[i as usize % who.len()]].is_signer = false;
            }
        }
        Mut::Become => {
            for x in ix.metas.iter_mut().filter(|x| x.is_signer) {
                x.pubkey = who(ATTACKER);
            }
        }
        Mut::Usurp => {
            let victims: Vec<usize> = (0..c::WHO)
                .filter(|p| ix.metas.iter().any(|x| x.is_signer && x.pubkey == who(*p)))
                .collect();
            for x in ix.metas.iter_mut() {
                if x.is_signer {
                    x.pubkey = who(ATTACKER);
                }
                for v in &victims {
                    for m in 0..c::MINTS {
                        if x.pubkey == wallet(*v, m) {
                            x.pubkey = wallet(ATTACKER, m);
                        }
                    }
                }
            }
        }
        Mut::Refarm { to, mask } => {
            for (i, x) in ix.metas.iter_mut().enumerate() {
                if mask >> (i % 16) & 1 == 1 {
                    if let Some(k) = counterpart_farm(&x.pubkey, to as usize % FARMS) {
                        x.pubkey = k;
                    }
                }
            }
        }
        Mut::Reuser { to, mask } => {
            let to = [0, 1, ATTACKER, ATTACKER][to as usize % 4];
            for (i, x) in ix.metas.iter_mut().enumerate() {
                if mask >> (i % 16) & 1 == 1 {
                    if let Some(k) = counterpart_user(&x.pubkey, to) {
                        x.pubkey = k;
                    }
                }
            }
        }
        Mut::Exchange { i, j } => {
            let (i, j) = (i as usize % n, j as usize % n);
            let (a, b) = (ix.metas[i].pubkey, ix.metas[j].pubkey);
            put(&mut ix.metas[i], b);
            put(&mut ix.metas[j], a);
        }
        Mut::Repeat => {
            if n >= 2 {
                let tail: Vec<AccountMeta> = ix.metas[n - 2..].to_vec();
                ix.metas.extend(tail);
            }
        }
        Mut::Drop => {
            ix.metas.pop();
        }
    }
}

/// What the accounts mean.
struct View {
    farms: BTreeMap<Pubkey, Box<Farm>>,
    farmers: BTreeMap<Pubkey, Farmer>,
    tokens: BTreeMap<Pubkey, spl_token::state::Account>,
    mints: BTreeMap<Pubkey, u64>,
    whitelists: BTreeSet<Pubkey>,
    lamports: BTreeMap<Pubkey, u64>,
}

fn view(svm: &Svm) -> View {
    let mut v = View {
        farms: BTreeMap::new(),
        farmers: BTreeMap::new(),
        tokens: BTreeMap::new(),
        mints: BTreeMap::new(),
        whitelists: BTreeSet::new(),
        lamports: BTreeMap::new(),
    };
    for (k, a) in &svm.accts {
        v.lamports.insert(*k, a.lamports);
        if a.owner == farming::id() && a.data.len() >= 8 {
            if a.data[..8] == Farm::discriminator() {
                v.farms.insert(*k, c::read_farm_at(svm, k).unwrap());
            } else if let Some(f) = c::read_farmer_at(svm, k) {
                v.farmers.insert(*k, f);
            } else {
                v.whitelists.insert(*k);
            }
        } else if let Some(t) = tok::read(svm, k) {
            v.tokens.insert(*k, t);
        } else if let Some(m) = tok::read_mint(svm, k) {
            v.mints.insert(*k, m.supply);
        }
    }
    v
}

fn amount(v: &View, k: &Pubkey) -> i128 {
    v.tokens.get(k).map(|t| t.amount as i128).unwrap_or(0)
}

fn owed(v: &View, f: usize, m: &Pubkey) -> i128 {
    v.farmers
        .values()
        .filter(|x| x.farm == farm(f))
        .map(|x| c::accrued(x, m).unwrap_or(0) as i128)
        .sum()
}

fn deposits(v: &View, f: usize) -> i128 {
    v.farmers
        .values()
        .filter(|x| x.farm == farm(f))
        .map(|x| x.staked.amount as i128 + x.vested.amount as i128)
        .sum()
}

fn periods_sum(f: &Farm, m: &Pubkey) -> i128 {
    f.harvests
        .iter()
        .find(|h| h.mint == *m)
        .map(|h| {
            h.periods
                .iter()
                .filter(|p| p.ends_at.slot > 0)
                .map(|p| (p.ends_at.slot - p.starts_at.slot + 1) as i128 * p.tps.amount as i128)
                .sum()
        })
        .unwrap_or(0)
}

/// What whoever signs an instruction is asked to pay.
pub enum Spend {
    Nothing,
    Upto(u64),
    Any,
}

/// Properties which are refuted, besides that of the altered instruction.
type Harm = Result<(), (Tags, String)>;

/// The instruction was accepted: who got hurt?
fn envelope(w: &World, a: &View, b: &View, signed: &BTreeSet<Pubkey>, spend: &Spend) -> Harm {
    let now = w.slot();
    let err = |tags: Tags, msg: String| -> Harm { Err((tags, msg)) };
    let person = |k: &Pubkey| (0..c::WHO).find(|p| who(*p) == *k);

    for (k, n) in &a.mints {
        if b.mints.get(k) != Some(n) {
            return err(&[], format!("the supply of {} changed", w.name(k)));
        }
    }
    for (k, t) in &a.tokens {
        let p = person(&t.owner);
        match b.tokens.get(k) {
            None => {
                if p.is_some() && !signed.contains(&t.owner) {
                    return err(&[], format!("{} was closed without its owner", w.name(k)));
                }
            }
            Some(x) => {
                let same = x.owner == t.owner
                    && x.delegate == t.delegate
                    && x.close_authority == t.close_authority
                    && x.state == t.state;
                if !same && !signed.contains(&t.owner) {
                    return err(&["F01", "F06"], format!("control over {} changed", w.name(k)));
                }
                if p.is_some() && !signed.contains(&t.owner) && x.amount < t.amount {
                    return err(&[], format!(
                        "{} was debited {} without its owner's signature",
                        w.name(k),
                        t.amount - x.amount
                    ));
                }
            }
        }
    }
    // who signed only pays what the instruction says
    let mut paid: BTreeMap<Pubkey, i128> = BTreeMap::new();
    for (k, t) in a.tokens.iter().filter(|(_, t)| person(&t.owner).is_some()) {
        *paid.entry(t.mint).or_default() += t.amount as i128 - amount(b, k);
    }
    for (m, n) in paid {
        let limit = match spend {
            Spend::Nothing => 0,
            Spend::Upto(n) => *n as i128,
            Spend::Any => continue,
        };
        if n > limit {
            return err(&[], format!("{} of {} were taken of {} at most", n, w.name(&m), limit));
        }
    }
    for p in 0..c::WHO {
        if !signed.contains(&who(p)) && b.lamports.get(&who(p)) < a.lamports.get(&who(p)) {
            return err(&[], format!("{} paid lamports without signing", p));
        }
    }

    // farms
    let mut config_by_admin = BTreeSet::new();
    for f in 0..FARMS {
        let (x, y) = match (a.farms.get(&farm(f)), b.farms.get(&farm(f))) {
            (Some(x), Some(y)) => (x, y),
            (Some(_), None) => return err(&["F16"], format!("farm {} is gone", f)),
            _ => continue,
        };
        let by_admin = signed.contains(&x.admin);
        if by_admin {
            config_by_admin.insert(f);
        }
        let periods = |f: &Farm| -> Vec<(Pubkey, Pubkey, Vec<(u64, u64, u64)>)> {
            f.harvests
                .iter()
                .map(|h| {
                    let p = h.periods.iter().map(|p| (p.tps.amount, p.starts_at.slot, p.ends_at.slot)).collect();
                    (h.mint, h.vault, p)
                })
                .collect()
        };
        if x.stake_mint != y.stake_mint || x.stake_vault != y.stake_vault {
            return err(&["F16", "F01"], format!("the stake mint or vault of farm {} changed", f));
        }
        let changed = x.admin != y.admin
            || x.min_snapshot_window_slots != y.min_snapshot_window_slots
            || periods(x) != periods(y);
        if changed && !by_admin {
            return err(&["F16", "F10", "F15"], format!("the configuration of farm {} changed without its admin's signature", f));
        }
        if x.admin != y.admin && !signed.contains(&y.admin) {
            return err(&["F16"], format!("farm {} was handed to somebody who did not sign", f));
        }
        let ring = |f: &Farm| -> Vec<(u64, u64)> {
            f.snapshots.ring_buffer.iter().map(|s| (s.started_at.slot, s.staked.amount)).collect()
        };
        let (rx, ry) = (ring(x), ring(y));
        if rx != ry || x.snapshots.ring_buffer_tip != y.snapshots.ring_buffer_tip {
            let window = if x.min_snapshot_window_slots == 0 {
                world::DEFAULT_WINDOW
            } else {
                x.min_snapshot_window_slots
            };
            if now < rx[x.snapshots.ring_buffer_tip as usize].0 + window {
                return err(&["F09"], format!("farm {} was snapshotted too early", f));
            }
            let tip = (x.snapshots.ring_buffer_tip as usize + 1) % rx.len();
            let mut want = rx.clone();
            want[tip] = (now, amount(a, &stake_vault(f)) as u64);
            if ry != want || y.snapshots.ring_buffer_tip as usize != tip {
                // too small a total and more is handed out than there is,
                // too large a one and some do not get what they are entitled to
                let less = ry.get(tip).map(|s| s.1 < want[tip].1);
                let tags: Tags = match less {
                    Some(true) => &["F09", "F06", "F03"],
                    _ => &["F09", "F03"],
                };
                return err(tags, format!("the snapshot history of farm {} was forged", f));
            }
        }
        for h in y.harvests.iter().filter(|h| h.mint != Pubkey::default()) {
            if x.harvests.iter().any(|g| g.mint == h.mint) {
                continue;
            }
            let sound = b.tokens.get(&h.vault).map(|t| {
                t.mint == h.mint
                    && t.owner == signer(f)
                    && t.amount == 0
                    && t.delegate.is_none()
                    && t.close_authority.is_none()
            });
            if sound != Some(true) || h.vault != c::pda(&[b"harvest_vault", farm(f).as_ref(), h.mint.as_ref()]) {
                return err(&["F15"], format!("farm {} got a harvest without control over its vault", f));
            }
        }
        for h in x.harvests.iter().filter(|h| h.mint != Pubkey::default()) {
            if let Some(t) = a.tokens.get(&h.vault) {
                if !b.tokens.contains_key(&h.vault) && (!by_admin || t.amount > 0) {
                    return err(&["F15", "F06"], format!("a harvest vault of farm {} was closed", f));
                }
            }
        }
        for t in 0..FARMS {
            let k = c::whitelist(f, t);
            if a.whitelists.contains(&k) != b.whitelists.contains(&k) && !by_admin {
                return err(&["F16", "F12"], format!(
                    "compounding from farm {} to {} was (un)permitted without the admin's signature",
                    f, t
                ));
            }
        }
    }
    // a new farm is empty, its own and its admin's
    for (k, y) in &b.farms {
        if a.farms.contains_key(k) {
            continue;
        }
        let signer = c::pda(&[b"signer", k.as_ref()]);
        let vault = c::pda(&[b"stake_vault", k.as_ref()]);
        let sound = b.tokens.get(&vault).map(|t| {
            t.mint == y.stake_mint
                && t.owner == signer
                && t.amount == 0
                && t.delegate.is_none()
                && t.close_authority.is_none()
        });
        if y.stake_vault != vault || sound != Some(true) {
            return err(&["F01"], format!("{} was created without control over its stake vault", w.name(k)));
        }
        if !signed.contains(&y.admin) {
            return err(&["F16"], format!("{} was created for somebody who did not sign", w.name(k)));
        }
        if y.harvests.iter().any(|h| h.mint != Pubkey::default()) {
            return err(&["F15"], format!("{} was created with harvest", w.name(k)));
        }
    }
    for k in &b.whitelists {
        let known = (0..FARMS).any(|s| (0..FARMS).any(|t| c::whitelist(s, t) == *k));
        if !a.whitelists.contains(k) && !known {
            return err(&["F12", "F16"], format!("{} became a permission to compound", w.name(k)));
        }
    }

    // new farmers have nothing, and are where they belong
    for (k, y) in &b.farmers {
        if a.farmers.contains_key(k) {
            continue;
        }
        if *k != c::pda(&[b"farmer", y.farm.as_ref(), y.authority.as_ref()]) || !b.farms.contains_key(&y.farm) {
            return err(&["F14"], format!("{} became a farmer", w.name(k)));
        }
        if y.staked.amount != 0 || y.vested.amount != 0 || y.harvests.iter().any(|h| h.tokens.amount != 0) {
            return err(&["F14"], format!("{} was created with something in it", w.name(k)));
        }
    }

    // farmers
    let mut credit: BTreeMap<(usize, Pubkey), i128> = BTreeMap::new();
    for (k, x) in &a.farmers {
        let f = match (0..FARMS).find(|f| farm(*f) == x.farm) {
            Some(f) => f,
            None => continue,
        };
        let by_owner = signed.contains(&x.authority);
        let y = match b.farmers.get(k) {
            Some(y) => y,
            None if by_owner => {
                if x.staked.amount > 0 || x.vested.amount > 0 {
                    return err(&["F14", "F01", "F02"], format!("{} was closed with a deposit", w.name(k)));
                }
                if x.harvests.iter().any(|h| h.tokens.amount > 0) {
                    return err(&["F14", "F08"], format!("{} was closed with harvest", w.name(k)));
                }
                let paid = |v: &View| v.lamports.get(&x.authority).copied().unwrap_or(0);
                let rent = a.lamports.get(k).copied().unwrap_or(0);
                if paid(b) < paid(a) + rent {
                    return err(&["F14"], format!("the rent of {} went elsewhere", w.name(k)));
                }
                continue;
            }
            None => return err(&["F14"], format!("{} was closed by somebody else", w.name(k))),
        };
        if x.authority != y.authority || x.farm != y.farm {
            return err(&["F14"], format!("{} changed hands", w.name(k)));
        }
        let (dx, dy) = (
            x.staked.amount as i128 + x.vested.amount as i128,
            y.staked.amount as i128 + y.vested.amount as i128,
        );
        if dy < dx && !by_owner {
            return err(&["F02"], format!("{} lost {} of its deposit", w.name(k), dx - dy));
        }
        if y.calculate_next_harvest_from < x.calculate_next_harvest_from {
            return err(&["F07"], format!("{} may harvest the same slots again", w.name(k)));
        }
        // what was credited for the slots in between
        let (from, to) = (x.calculate_next_harvest_from.slot, y.calculate_next_harvest_from.slot);
        let bands = if f < w.farms.len() {
            let fm = &w.farms[f];
            let promotion = if x.vested.amount > 0 { fm.snap_after(x.vested_at.slot) } else { None };
            let add = promotion.map(|s| (s, x.vested.amount));
            // they may or may not have been promoted
            let mut bands = fm.entitlement(from, to, x.staked.amount, add);
            for (m, b) in fm.entitlement(from, to, x.staked.amount, None) {
                if let Some(x) = bands.get_mut(&m) {
                    x.lo = x.lo.min(b.lo);
                }
            }
            bands
        } else {
            BTreeMap::new()
        };
        let mints: BTreeSet<Pubkey> =
            x.harvests.iter().chain(y.harvests.iter()).map(|h| h.mint).filter(|m| *m != Pubkey::default()).collect();
        for m in mints {
            let before = c::accrued(x, &m).unwrap_or(0) as i128;
            let after = c::accrued(y, &m).unwrap_or(0) as i128;
            let (lo, hi) = (0..c::MINTS)
                .find(|i| mint(*i) == m)
                .and_then(|i| bands.get(&i))
                .map(|b| (b.lo as i128, b.hi() as i128))
                .unwrap_or((0, 0));
            if f < w.farms.len() {
                *credit.entry((f, m)).or_default() += hi;
            }
            if by_owner || f >= w.farms.len() {
                continue;
            }
            // compounded to another farmer of theirs?
            let mut moved = 0;
            for t in 0..FARMS {
                if !a.whitelists.contains(&c::whitelist(f, t)) {
                    continue;
                }
                for (kk, z) in &b.farmers {
                    if z.farm == farm(t) && z.authority == x.authority {
                        if let Some(old) = a.farmers.get(kk) {
                            let d = z.staked.amount as i128 + z.vested.amount as i128
                                - old.staked.amount as i128
                                - old.vested.amount as i128;
                            if b.farms.get(&farm(t)).map(|f| f.stake_mint) == Some(m) {
                                moved += d;
                            }
                        }
                    }
                }
            }
            if after + moved < before + lo {
                return err(&["F04", "F07", "F03"], format!(
                    "{} has {} (and {} compounded) of the harvest {} it should have",
                    w.name(k),
                    after,
                    moved,
                    before + lo
                ));
            }
        }
    }

    // vaults
    for f in 0..w.farms.len() {
        let v = stake_vault(f);
        if amount(b, &v) - deposits(b, f) < amount(a, &v) - deposits(a, f) {
            return err(&["F01"], format!(
                "the stake vault of farm {} went from {} for {} deposited to {} for {}",
                f,
                amount(a, &v),
                deposits(a, f),
                amount(b, &v),
                deposits(b, f)
            ));
        }
        for h in w.farms[f].harvests.iter().flatten() {
            let (m, v) = (mint(h.mint), harvest_vault(f, h.mint));
            let mut allowed = credit.get(&(f, m)).copied().unwrap_or(0);
            if config_by_admin.contains(&f) {
                // a refund of a scheduled period
                let (x, y) = (&a.farms[&farm(f)], &b.farms[&farm(f)]);
                allowed += (periods_sum(x, &m) - periods_sum(y, &m)).max(0);
            }
            let (sa, sb) = (amount(a, &v) - owed(a, f, &m), amount(b, &v) - owed(b, f, &m));
            if sb + allowed < sa {
                return err(&["F06"], format!(
                    "harvest vault {} of farm {} went from {} for {} accrued to {} for {}",
                    h.mint,
                    f,
                    amount(a, &v),
                    owed(a, f, &m),
                    amount(b, &v),
                    owed(b, f, &m)
                ));
            }
        }
    }
    Ok(())
}

fn trial(w: &mut World, t: &Trial, pool: &Pool, st: &mut Stats) -> Res {
    let (ix, spend) = match original(w, t) {
        Some(x) => x,
        None => return Ok(()),
    };
    // is the original accepted?
    let saved: Vec<(Pubkey, Option<Acct>)> =
        ix.metas.iter().map(|m| (m.pubkey, w.svm.get(&m.pubkey).cloned())).collect();
    let valid = c::send(&mut w.svm, &ix).is_ok();
    restore(&mut w.svm, saved);
    if !valid {
        st.hit("original_rejected");
    }
    let mut altered = Ix { metas: ix.metas.clone(), data: ix.data.clone() };
    for m in &t.muts {
        alter(&mut altered, m, pool);
    }
    if altered.metas == ix.metas {
        return Ok(());
    }
    if valid {
        st.hit("altered");
        st.nontrivial = true;
    }
    let saved: Vec<(Pubkey, Option<Acct>)> =
        altered.metas.iter().map(|m| (m.pubkey, w.svm.get(&m.pubkey).cloned())).collect();
    let before = view(&w.svm);
    let r = c::send(&mut w.svm, &altered);
    if r.is_err() {
        st.hit("altered_rejected");
        return Ok(());
    }
    st.hit("altered_accepted");
    let after = view(&w.svm);
    let signed: BTreeSet<Pubkey> = altered.metas.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let e = envelope(w, &before, &after, &signed, &spend);
    restore(&mut w.svm, saved);
    e.map_err(|(harm, msg)| {
        let list: Vec<String> = altered
            .metas
            .iter()
            .zip(ix.metas.iter().map(Some).chain(std::iter::repeat(None)))
            .map(|(x, o)| {
                format!(
                    "    {}{}{}",
                    name(w, &x.pubkey),
                    if x.is_signer { " (signed)" } else { "" },
                    match o {
                        Some(o) if o.pubkey == x.pubkey => String::new(),
                        Some(o) => format!(" instead of {}", name(w, &o.pubkey)),
                        None => " in addition".into(),
                    }
                )
            })
            .collect();
        let mut tags = vec!["F17"];
        tags.extend(about(t.kind).iter().chain(harm));
        Mismatch {
            tags,
            msg: format!("slot {}: {}, by instruction kind {} with\n{}", w.slot(), msg, t.kind, list.join("\n")),
        }
    })
}

fn name(w: &World, k: &Pubkey) -> String {
    for f in 0..FARMS {
        if *k == farm(f) {
            return format!("farm {}", f);
        }
        if *k == signer(f) {
            return format!("signer of farm {}", f);
        }
        if *k == stake_vault(f) {
            return format!("stake vault of farm {}", f);
        }
        for m in 0..c::MINTS {
            if *k == harvest_vault(f, m) {
                return format!("harvest vault {} of farm {}", m, f);
            }
        }
        for p in 0..c::WHO {
            if *k == farmer(f, p) {
                return format!("farmer {} of farm {}", p, f);
            }
        }
        for t in 0..FARMS {
            if *k == c::whitelist(f, t) {
                return format!("whitelist {} -> {}", f, t);
            }
        }
    }
    for p in 0..c::WHO {
        if *k == who(p) {
            return format!("person {}", p);
        }
    }
    w.name(k)
}

fn restore(svm: &mut Svm, saved: Vec<(Pubkey, Option<Acct>)>) {
    for (k, a) in saved {
        match a {
            Some(a) => {
                svm.accts.insert(k, a);
            }
            None => {
                svm.accts.remove(&k);
            }
        }
    }
}

pub const STAKE: &[u8] = &[0, 1, 2, 3, 4, 5];
pub const BACKING: &[u8] = &[0, 0, 2, 2, 4, 5, 6, 7, 13, 15, 17, 18, 20, 23, 28, 31];
pub const SPENDING: &[u8] = &[6, 7, 8, 9, 13, 14, 15, 16, 17, 18, 19, 20, 23, 29];
pub const CLAIM: &[u8] = &[6, 7, 8, 9];
pub const SETTLE: &[u8] = &[10, 11, 12, 6, 0, 2];
pub const SNAPSHOT: &[u8] = &[29];
pub const PERIOD: &[u8] = &[20, 21];
pub const CONFIG: &[u8] = &[20, 20, 21, 21, 22, 23, 24, 25];
pub const COMPOUND: &[u8] = &[15, 16, 17, 18, 19, 26, 27];
pub const AIRDROP: &[u8] = &[13, 14];
pub const FARMER: &[u8] = &[28, 30];
pub const HARVEST: &[u8] = &[22, 23];
pub const ADMIN: &[u8] = &[20, 21, 22, 23, 24, 24, 25, 25, 26, 26, 27, 27, 31];
pub const ALL: &[u8] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
];

/// Altered instructions of the kinds given, as far as they concern the property.
pub fn check(id: &'static str, kinds: &'static [u8], quick: u32) -> Box<dyn Sub> {
    let strategy = move |t: Tier| strategy(t, kinds);
    Check::boxed("substitution", quick, quick * 12, strategy, move |a: &Attack, st: &mut Stats| {
        let mut quiet = Stats::default();
        let (mut w, r) = world::run(&a.base, true, id, &mut quiet, &mut |_, _, _| Ok(()));
        let r = r.and_then(|_| {
            let pool = arm(&mut w);
            // a settlement of the attacker must not precede a snapshot in the
            // same slot
            w.svm.slot += 1 + a.warp as u64;
            a.trials.iter().try_for_each(|t| trial(&mut w, t, &pool, st))
        });
        crate::props::verdict(id, r, st)
    })
}
