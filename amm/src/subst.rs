//! Altered instructions: accounts are substituted, signatures dropped or given
//! by somebody else. Whatever the program makes of it, nobody who did not sign
//! may be worse off, nor may LP tokens lose value.

use crate::client as c;
use crate::client::{admin_of, lp_mint, lp_wallet, mint, pool, signer, toll_wallet, vault, wallet, who, Ix, ATTACKER, DISCOUNTER, POOLS};
use crate::curve::{self, b};
use crate::ops::{self, Case, PoolCfg, Weights, EVEN};
use crate::world::{self, part, precision, restore, save, Mismatch, Res, World};
use amm::models::{Curve, Pool};
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::{instruction::AccountMeta, program_option::COption, system_program};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use svm::pbt::{Check, Stats, Sub, Tier};
use svm::tok;
use svm::vm::{Acct, Svm};

/// The pool of the attacker.
const AP: usize = 2;
/// A pool which is yet to be created.
const NEW: usize = 3;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// account `i` becomes one of the same kind
    Kin { i: u8, j: u8 },
    /// account `i` becomes one which has much in common with it
    Twin { i: u8, j: u8 },
    /// account `i` becomes any other
    Any { i: u8, j: u8 },
    Unsign { i: u8 },
    /// the attacker signs instead, all else stays
    Become,
    /// the attacker signs instead and uses their own wallets
    Usurp,
    /// what belongs to one pool is replaced by its counterpart of another,
    /// where the mask has a bit
    Repool { to: u8, mask: u16 },
    /// what belongs to one user is replaced by its counterpart of another
    Reuser { to: u8, mask: u16 },
    Exchange { i: u8, j: u8 },
    Repeat,
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trial {
    kind: u8,
    p: u8,
    u: u8,
    v: u8,
    amt: u16,
    muts: Vec<Mut>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attack {
    base: Case,
    /// the pool of the attacker
    own: PoolCfg,
    trials: Vec<Trial>,
}

fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        8 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Kin { i, j }),
        8 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Twin { i, j }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Any { i, j }),
        2 => any::<u8>().prop_map(|i| Mut::Unsign { i }),
        2 => Just(Mut::Become),
        3 => Just(Mut::Usurp),
        4 => (any::<u8>(), any::<u16>()).prop_map(|(to, mask)| Mut::Repool { to, mask }),
        2 => any::<u8>().prop_map(|to| Mut::Repool { to, mask: u16::MAX }),
        3 => (any::<u8>(), any::<u16>()).prop_map(|(to, mask)| Mut::Reuser { to, mask }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mut::Exchange { i, j }),
        1 => Just(Mut::Repeat),
        1 => Just(Mut::Drop),
    ]
    .boxed()
}

const BEFORE: Weights = Weights { extreme: 5, discounted: 60, foreign: 4, exit: 0, stable: 40, ..EVEN };

fn strategy(t: Tier, kinds: &'static [u8]) -> BoxedStrategy<Attack> {
    let kind = (0..kinds.len()).prop_map(move |i| kinds[i]);
    let trial = (kind, 0u8..2, 0u8..4, 0u8..8, any::<u16>(), vec(mutation(), 1..4))
        .prop_map(|(kind, p, u, v, amt, muts)| Trial { kind, p, u, v, amt, muts });
    (ops::case(BEFORE, ops::len(t, 10)), ops::cfg(BEFORE), vec(trial, 1..60))
        .prop_map(|(base, own, trials)| Attack { base, own: own.pools[0].clone(), trials })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    Person,
    Pool,
    Signer,
    Token,
    Mint,
    Discount,
    Singleton,
    Program,
    Other,
}

struct Arms {
    by_kind: BTreeMap<Kind, Vec<Pubkey>>,
    all: Vec<Pubkey>,
    kind: BTreeMap<Pubkey, Kind>,
    new_mints: Vec<usize>,
    /// by which others might be taken for the account
    traits: BTreeMap<Pubkey, Vec<Pubkey>>,
}

impl Arms {
    /// The accounts of the same kind, those with most in common first.
    fn twins(&self, k: &Pubkey) -> Vec<Pubkey> {
        let (kind, traits) = match (self.kind.get(k), self.traits.get(k)) {
            (Some(x), Some(t)) if self.by_kind.contains_key(x) => (x, t),
            _ => return vec![],
        };
        let mut v: Vec<(usize, Pubkey)> = self.by_kind[kind]
            .iter()
            .filter(|x| *x != k)
            .filter_map(|x| {
                let n = self.traits.get(x)?.iter().filter(|t| traits.contains(t)).count();
                (n > 0).then_some((9 - n.min(9), *x))
            })
            .collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    }
}

fn traits(svm: &Svm, k: &Pubkey, kind: Kind) -> Vec<Pubkey> {
    match kind {
        Kind::Token => tok::read(svm, k).map(|t| vec![t.mint, t.owner]).unwrap_or_default(),
        Kind::Mint => tok::read_mint(svm, k).map(|m| Option::from(m.mint_authority).into_iter().collect()).unwrap_or_default(),
        Kind::Pool => c::read_pool(svm, k)
            .map(|p| p.reserves.iter().map(|r| r.mint).chain([p.admin]).filter(|m| *m != Pubkey::default()).collect())
            .unwrap_or_default(),
        _ => vec![],
    }
}

fn fake_program() -> Pubkey {
    tok::key("fake program", 1)
}

/// Everything the attacker may come up with.
fn arm(w: &mut World, own: &PoolCfg) -> Arms {
    let first = w.pools[0].mints.clone();
    let svm = &mut w.svm;
    // a pool, of the same tokens if they fit
    let n = own.dim as usize;
    let mut mints: Vec<usize> = first.clone();
    for m in 0..c::MINTS {
        if !mints.contains(&m) {
            mints.push(m);
        }
    }
    mints.truncate(n);
    World::put_pool_accounts(svm, AP, &mints);
    let vaults: Vec<Pubkey> = mints.iter().map(|m| vault(AP, *m)).collect();
    let _ = c::send(svm, &c::create_pool(AP, ATTACKER, own.amp, &vaults));
    let _ = c::send(svm, &c::set_fee(AP, ATTACKER, own.fee as u64));
    let max: Vec<(usize, u64)> = mints.iter().zip(&own.first).map(|(m, x)| (*m, *x)).collect();
    let _ = c::send(svm, &c::deposit(AP, ATTACKER, &max, &mints));
    // some LP tokens of the others
    for p in 0..w.pools.len() {
        let mints = w.pools[p].mints.clone();
        let max: Vec<(usize, u64)> = mints.iter().zip(&w.pools[p].reserves).map(|(m, x)| (*m, x / 10 + 1)).collect();
        let _ = c::send(&mut w.svm, &c::deposit(p, ATTACKER, &max, &mints));
    }
    let svm = &mut w.svm;
    // what a pool would be created from
    World::put_pool_accounts(svm, NEW, &first);

    // lookalikes
    let mut kind = BTreeMap::new();
    if let Some(mut a) = svm.get(&pool(0)).cloned() {
        let k = tok::key("fake pool", 0);
        a.data[8..40].copy_from_slice(who(ATTACKER).as_ref());
        a.owner = fake_program();
        svm.accts.insert(k, a);
        kind.insert(k, Kind::Pool);
    }
    for (i, m) in first.iter().enumerate() {
        // of the same mint and under the control of the pool, but not a vault
        let k = tok::key("fake vault", 100 + i as u64);
        tok::account(svm, k, mint(*m), signer(0), 1000);
        kind.insert(k, Kind::Token);
        let k = tok::key("attacker vault", 100 + i as u64);
        tok::account(svm, k, mint(*m), who(ATTACKER), 0);
        kind.insert(k, Kind::Token);
    }
    // a wallet of LP tokens of the attacker
    let k = tok::key("fake toll wallet", 0);
    tok::account(svm, k, lp_mint(0), who(ATTACKER), 0);
    kind.insert(k, Kind::Token);
    // a mint which the pool controls, but which is not its LP mint
    let k = tok::key("fake lp mint", 0);
    tok::mint(svm, k, Some(signer(0)), None, 1_000_000);
    kind.insert(k, Kind::Mint);
    let k2 = tok::key("fake lp wallet", 0);
    tok::account(svm, k2, k, who(ATTACKER), 1_000_000);
    kind.insert(k2, Kind::Token);
    // a discount, a toll and settings which are not of the program
    for (name, of, x) in [
        ("fake discount", c::discount(0), Kind::Discount),
        ("fake toll", c::toll(), Kind::Singleton),
        ("fake settings", c::settings(), Kind::Singleton),
    ] {
        if let Some(mut a) = svm.get(&of).cloned() {
            let k = tok::key(name, 0);
            a.owner = fake_program();
            if x == Kind::Singleton {
                a.data[8..40].copy_from_slice(who(ATTACKER).as_ref());
            }
            svm.accts.insert(k, a);
            kind.insert(k, x);
        }
    }
    svm.accts.insert(
        fake_program(),
        Acct { lamports: 1, owner: anchor_lang::solana_program::bpf_loader::id(), executable: true, data: vec![] },
    );

    for p in 0..c::WHO {
        kind.insert(who(p), Kind::Person);
        kind.insert(c::discount(p), Kind::Discount);
        for m in 0..c::MINTS {
            kind.insert(wallet(p, m), Kind::Token);
        }
    }
    for p in 0..=POOLS {
        kind.insert(pool(p), Kind::Pool);
        kind.insert(signer(p), Kind::Signer);
        kind.insert(lp_mint(p), Kind::Mint);
        kind.insert(toll_wallet(p), Kind::Token);
        for m in 0..c::MINTS {
            kind.insert(vault(p, m), Kind::Token);
        }
        for u in 0..c::WHO {
            kind.insert(lp_wallet(u, p), Kind::Token);
        }
    }
    for m in 0..c::MINTS {
        kind.insert(mint(m), Kind::Mint);
    }
    kind.insert(c::toll(), Kind::Singleton);
    kind.insert(c::settings(), Kind::Singleton);
    for p in [spl_token::id(), system_program::id(), fake_program(), amm::id()] {
        kind.insert(p, Kind::Program);
    }
    let mut by_kind: BTreeMap<Kind, Vec<Pubkey>> = BTreeMap::new();
    for (k, x) in &kind {
        // what does not exist is of no use, except for what is to be created
        if svm.get(k).is_some() || matches!(x, Kind::Discount | Kind::Program | Kind::Signer) {
            by_kind.entry(*x).or_default().push(*k);
        }
    }
    let all = by_kind.values().flatten().copied().collect();
    let traits = kind.iter().map(|(k, x)| (*k, traits(svm, k, *x))).collect();
    Arms { by_kind, all, kind, new_mints: first, traits }
}

/// What the instruction of the kind is about, if it does harm.
fn about(kind: u8) -> Tags {
    match kind {
        0..=9 => &["A08"],
        10..=15 => &["A05"],
        16..=23 => &["A07"],
        24 | 25 => &["A14"],
        26..=28 => &["A15"],
        _ => &["A13"],
    }
}

/// The honest instruction.
fn original(w: &World, arms: &Arms, t: &Trial) -> Option<(Ix, Spend)> {
    let p = t.p as usize % w.pools.len();
    let mints = &w.pools[p].mints;
    let n = mints.len();
    let u = t.u as usize % c::USERS;
    let now = c::read_pool(&w.svm, &pool(p))?;
    let x: Vec<u64> = now.reserves[..n].iter().map(|r| r.tokens.amount).collect();
    let some = |v: u64| (v as u128 * (t.amt as u128 % 20_000 + 100) / 65_535) as u64;
    let zero: Vec<(usize, u64)> = mints.iter().map(|m| (*m, 0)).collect();
    Some(match t.kind {
        0..=9 => {
            let si = t.v as usize % n;
            let bi = (si + 1 + t.amt as usize % (n - 1)) % n;
            let sell = some(x[si]).max(1);
            (c::swap(p, u, mints[si], mints[bi], sell, 0), Spend::Upto(sell))
        }
        10..=15 => {
            let max: Vec<(usize, u64)> = mints.iter().zip(&x).map(|(m, x)| (*m, some(*x) + 1)).collect();
            (c::deposit(p, u, &max, mints), Spend::Each(max))
        }
        16..=21 => {
            let have = tok::amount(&w.svm, &lp_wallet(u, p));
            let burn = if t.amt & 1 == 0 { have } else { some(have) };
            (c::redeem(p, u, burn, &zero, mints), Spend::Upto(burn))
        }
        22 | 23 => {
            let have = tok::amount(&w.svm, &toll_wallet(p));
            (c::redeem(p, c::TOLLER, have, &zero, mints), Spend::Upto(have))
        }
        24 | 25 => (c::set_fee(p, admin_of(p), t.amt as u64 % 10_001), Spend::Nothing),
        26..=28 => {
            let until = w.slot() + 1 + t.amt as u64 % 50;
            (c::put_discount(DISCOUNTER, t.v as usize % c::WHO, t.amt as u64 * 15, until), Spend::Nothing)
        }
        _ => {
            let vaults: Vec<Pubkey> = arms.new_mints.iter().map(|m| vault(NEW, *m)).collect();
            (c::create_pool(NEW, admin_of(0), t.amt as u64 % 3 * 50, &vaults), Spend::Nothing)
        }
    })
}

fn counterpart_pool(k: &Pubkey, to: usize) -> Option<Pubkey> {
    for p in 0..=POOLS {
        let of = |x: Pubkey, y: Pubkey| (*k == x).then_some(y);
        if let Some(y) = of(pool(p), pool(to))
            .or(of(signer(p), signer(to)))
            .or(of(lp_mint(p), lp_mint(to)))
            .or(of(toll_wallet(p), toll_wallet(to)))
        {
            return Some(y);
        }
        for m in 0..c::MINTS {
            if *k == vault(p, m) {
                return Some(vault(to, m));
            }
        }
        for u in 0..c::WHO {
            if *k == lp_wallet(u, p) {
                return Some(lp_wallet(u, to));
            }
        }
    }
    None
}

fn counterpart_user(k: &Pubkey, to: usize) -> Option<Pubkey> {
    for u in 0..c::WHO {
        if *k == who(u) {
            return Some(who(to));
        }
        if *k == c::discount(u) {
            return Some(c::discount(to));
        }
        for m in 0..c::MINTS {
            if *k == wallet(u, m) {
                return Some(wallet(to, m));
            }
        }
        for p in 0..=POOLS {
            if *k == lp_wallet(u, p) {
                return Some(lp_wallet(to, p));
            }
        }
    }
    None
}

fn alter(ix: &mut Ix, m: &Mut, arms: &Arms) {
    let n = ix.metas.len();
    if n == 0 {
        return;
    }
    let put = |meta: &mut AccountMeta, k: Pubkey| {
        meta.pubkey = k;
        // only people can sign, and who creates a pool
        meta.is_signer &= (0..c::WHO).any(|p| who(p) == k) || (0..=POOLS).any(|p| pool(p) == k);
    };
    match *m {
        Mut::Kin { i, j } => {
            let i = i as usize % n;
            let kind = arms.kind.get(&ix.metas[i].pubkey).copied().unwrap_or(Kind::Other);
            if let Some(v) = arms.by_kind.get(&kind) {
                put(&mut ix.metas[i], v[j as usize % v.len()]);
            }
        }
        Mut::Twin { i, j } => {
            let x = &mut ix.metas[i as usize % n];
            let v = arms.twins(&x.pubkey);
            if !v.is_empty() {
                // the first ones more often
                put(x, v[(j as usize * j as usize / 256) % v.len()]);
            }
        }
        Mut::Any { i, j } => {
            let k = arms.all[j as usize % arms.all.len()];
            put(&mut ix.metas[i as usize % n], k);
        }
        Mut::Unsign { i } => {
            let who: Vec<usize> = (0..n).filter(|x| ix.metas[*x].is_signer).collect();
            if !who.is_empty() {
                ix.metas[who[i as usize % who.len()]].is_signer = false;
            }
        }
        Mut::Become => {
            for x in ix.metas.iter_mut().filter(|x| x.is_signer) {
                if (0..c::WHO).any(|p| who(p) == x.pubkey) {
                    x.pubkey = who(ATTACKER);
                }
            }
        }
        Mut::Usurp => {
            let victims: Vec<usize> =
                (0..c::WHO).filter(|p| ix.metas.iter().any(|x| x.is_signer && x.pubkey == who(*p))).collect();
            for x in ix.metas.iter_mut() {
                for v in &victims {
                    if x.pubkey == who(*v) && x.is_signer {
                        x.pubkey = who(ATTACKER);
                    }
                    for m in 0..c::MINTS {
                        if x.pubkey == wallet(*v, m) {
                            x.pubkey = wallet(ATTACKER, m);
                        }
                    }
                }
            }
        }
        Mut::Repool { to, mask } => {
            for (i, x) in ix.metas.iter_mut().enumerate() {
                if mask >> (i % 16) & 1 == 1 {
                    if let Some(k) = counterpart_pool(&x.pubkey, to as usize % POOLS) {
                        x.pubkey = k;
                    }
                }
            }
        }
        Mut::Reuser { to, mask } => {
            let to = [0, 1, ATTACKER, ATTACKER][to as usize % 4];
            for (i, x) in ix.metas.iter_mut().enumerate() {
                if mask >> (i % 16) & 1 == 1 {
                    if let Some(k) = counterpart_user(&x.pubkey, to) {
                        x.pubkey = k;
                    }
                }
            }
        }
        Mut::Exchange { i, j } => {
            let (i, j) = (i as usize % n, j as usize % n);
            let (a, b) = (ix.metas[i].pubkey, ix.metas[j].pubkey);
            put(&mut ix.metas[i], b);
            put(&mut ix.metas[j], a);
        }
        Mut::Repeat => {
            if n >= 2 {
                let tail: Vec<AccountMeta> = ix.metas[n - 2..].to_vec();
                ix.metas.extend(tail);
            }
        }
        Mut::Drop => {
            ix.metas.pop();
        }
    }
}

/// What the accounts mean.
struct View {
    pools: BTreeMap<Pubkey, Pool>,
    tokens: BTreeMap<Pubkey, spl_token::state::Account>,
    mints: BTreeMap<Pubkey, spl_token::state::Mint>,
    discounts: BTreeMap<Pubkey, (u64, u64)>,
    toll: Option<Pubkey>,
    settings: Option<Pubkey>,
    lamports: BTreeMap<Pubkey, u64>,
}

fn view(svm: &Svm) -> View {
    let mut v = View {
        pools: BTreeMap::new(),
        tokens: BTreeMap::new(),
        mints: BTreeMap::new(),
        discounts: BTreeMap::new(),
        toll: c::read_toll(svm).map(|t| t.authority),
        settings: c::read_settings(svm).map(|t| t.authority),
        lamports: BTreeMap::new(),
    };
    for (k, a) in &svm.accts {
        v.lamports.insert(*k, a.lamports);
        if a.owner == amm::id() {
            if let Some(p) = c::read_pool(svm, k) {
                v.pools.insert(*k, p);
            } else if let Some(d) = c::read_discount(svm, k) {
                v.discounts.insert(*k, (d.amount.permillion, d.valid_until.slot));
            }
        } else if let Some(t) = tok::read(svm, k) {
            v.tokens.insert(*k, t);
        } else if let Some(m) = tok::read_mint(svm, k) {
            v.mints.insert(*k, m);
        }
    }
    v
}

fn amount(v: &View, k: &Pubkey) -> i128 {
    v.tokens.get(k).map(|t| t.amount as i128).unwrap_or(0)
}

fn reserves(p: &Pool) -> Vec<u64> {
    p.reserves[..(p.dimension as usize).min(4)].iter().map(|r| r.tokens.amount).collect()
}

fn amplifier(p: &Pool) -> u64 {
    match p.curve {
        Curve::ConstProd => 0,
        Curve::Stable { amplifier, .. } => amplifier,
    }
}

/// What whoever signs an instruction is asked to pay of each mint.
enum Spend {
    Nothing,
    Upto(u64),
    Each(Vec<(usize, u64)>),
}

type Tags = &'static [&'static str];
/// Properties which are refuted, besides that of the altered instruction.
type Harm = Result<(), (Tags, String)>;

/// The instruction was accepted: who got hurt?
fn envelope(w: &World, a: &View, z: &View, signed: &BTreeSet<Pubkey>, spend: &Spend) -> Harm {
    let err = |tags: Tags, msg: String| -> Harm { Err((tags, msg)) };
    let person = |k: &Pubkey| (0..c::WHO).find(|p| who(*p) == *k);

    // tokens
    let lp: BTreeSet<Pubkey> = a.pools.values().map(|p| p.mint).collect();
    for (k, m) in &a.mints {
        match z.mints.get(k) {
            Some(y) => {
                if y.supply != m.supply && !lp.contains(k) {
                    return err(&["A11"], format!("the supply of {} changed", w.name(k)));
                }
                if y.mint_authority != m.mint_authority || y.freeze_authority != m.freeze_authority {
                    return err(&["A13"], format!("the authorities of {} changed", w.name(k)));
                }
            }
            None => return err(&[], format!("{} is gone", w.name(k))),
        }
    }
    for (k, t) in &a.tokens {
        let x = match z.tokens.get(k) {
            Some(x) => x,
            None => return err(&[], format!("{} was closed", w.name(k))),
        };
        let same = x.owner == t.owner
            && x.mint == t.mint
            && x.delegate == t.delegate
            && x.close_authority == t.close_authority
            && x.state == t.state;
        if !same {
            return err(&[], format!("control over {} changed", w.name(k)));
        }
        if person(&t.owner).is_some() && !signed.contains(&t.owner) && x.amount < t.amount {
            return err(&[], format!("{} was debited {} without its owner's signature", w.name(k), t.amount - x.amount));
        }
    }
    // nor tokens of a pool's signer which are not in a reserve
    for (k, t) in &a.tokens {
        let in_reserve = a.pools.values().any(|p| p.reserves[..p.dimension as usize].iter().any(|r| r.vault == *k));
        if person(&t.owner).is_none() && !in_reserve && amount(z, k) < t.amount as i128 {
            return err(&[], format!("{} was debited", w.name(k)));
        }
    }
    // who signed only pays what the instruction says, whatever the accounts
    let mut paid: BTreeMap<Pubkey, i128> = BTreeMap::new();
    for (k, t) in a.tokens.iter().filter(|(_, t)| person(&t.owner).is_some()) {
        *paid.entry(t.mint).or_default() += t.amount as i128 - amount(z, k);
    }
    for (m, n) in paid {
        let limit = match spend {
            Spend::Nothing => 0,
            Spend::Upto(n) => *n as i128,
            Spend::Each(of) => of.iter().find(|x| mint(x.0) == m).map(|x| x.1 as i128).unwrap_or(0),
        };
        if n > limit {
            return err(&[], format!("{} of {} were taken of {} at most", n, w.name(&m), limit));
        }
    }
    for p in 0..c::WHO {
        if !signed.contains(&who(p)) && z.lamports.get(&who(p)) < a.lamports.get(&who(p)) {
            return err(&[], format!("{} paid lamports without signing", p));
        }
    }

    // singletons and discounts
    if z.toll != a.toll || z.settings != a.settings {
        return err(&["A16"], "the authority of the toll or of discounts changed".into());
    }
    if z.discounts != a.discounts {
        let by = a.settings.map(|s| signed.contains(&s)).unwrap_or(false);
        if !by {
            return err(&["A15"], "a discount changed without the signature of the authority".into());
        }
        for (k, d) in &z.discounts {
            if a.discounts.get(k) != Some(d) && (d.0 > 1_000_000 || d.1 <= w.slot()) {
                return err(&["A15"], format!("{} became {:?}", w.name(k), d));
            }
        }
        if a.discounts.keys().any(|k| !z.discounts.contains_key(k)) {
            return err(&["A15"], "a discount is gone".into());
        }
    }

    // pools
    for (k, y) in &z.pools {
        if a.pools.contains_key(k) {
            continue;
        }
        // a new one
        if !signed.contains(&y.admin) {
            return err(&["A13"], format!("{} was created for somebody who did not sign", w.name(k)));
        }
        sound(k, y, z).or_else(|e| err(&["A13"], format!("{} was created, although {}", w.name(k), e)))?;
        if y.swap_fee.permillion != 0 {
            return err(&["A13"], format!("{} was created with a fee", w.name(k)));
        }
    }
    for (k, x) in &a.pools {
        let y = match z.pools.get(k) {
            Some(y) => y,
            None => return err(&["A11"], format!("{} is gone", w.name(k))),
        };
        let keys = |p: &Pool| -> Vec<(Pubkey, Pubkey)> { p.reserves.iter().map(|r| (r.mint, r.vault)).collect() };
        if x.admin != y.admin
            || x.signer != y.signer
            || x.mint != y.mint
            || x.program_toll_wallet != y.program_toll_wallet
            || x.dimension != y.dimension
            || keys(x) != keys(y)
            || amplifier(x) != amplifier(y)
        {
            return err(&["A14"], format!("the configuration of {} changed", w.name(k)));
        }
        if x.swap_fee != y.swap_fee && !signed.contains(&x.admin) {
            return err(&["A14"], format!("the fee of {} changed without its admin's signature", w.name(k)));
        }
        if y.swap_fee.permillion > 10_000 {
            return err(&["A14"], format!("the fee of {} became {}", w.name(k), y.swap_fee.permillion));
        }
        for (i, r) in x.reserves[..x.dimension as usize].iter().enumerate() {
            let before = amount(a, &r.vault) - r.tokens.amount as i128;
            let after = amount(z, &r.vault) - y.reserves[i].tokens.amount as i128;
            if after < before {
                return err(&["A11"], format!(
                    "reserve {} of {} went from {} with {} in the vault to {} with {}",
                    i,
                    w.name(k),
                    r.tokens.amount,
                    amount(a, &r.vault),
                    y.reserves[i].tokens.amount,
                    amount(z, &r.vault)
                ));
            }
        }
        // LP tokens which a swap mints are the owner's of the toll
        let (r0, r1) = (reserves(x), reserves(y));
        let n = |f: fn(&u64, &u64) -> bool| r0.iter().zip(&r1).filter(|(p, q)| f(p, q)).count();
        if n(|p, q| q > p) == 1 && n(|p, q| q < p) == 1 {
            let supply = |v: &View| v.mints.get(&x.mint).map(|m| m.supply as i128).unwrap_or(0);
            let got = amount(z, &x.program_toll_wallet) - amount(a, &x.program_toll_wallet);
            let minted = supply(z) - supply(a);
            if got != minted {
                return err(&["A10"], format!("the toll wallet of {} got {} of {} LP tokens minted by a swap", w.name(k), got, minted));
            }
        }
        value(w, k, x, y, a, z, signed).or_else(|e| err(&["A06", "A12"], e))?;
    }
    Ok(())
}

/// What has to be true of a pool when it is created.
pub fn sound(k: &Pubkey, y: &Pool, z: &impl Ledger) -> Result<(), String> {
    let signer = c::pda(&[b"signer", k.as_ref()]);
    let m = z.mint_of(&y.mint).ok_or("there is no LP mint")?;
    if y.signer != signer {
        return Err("the signer is somebody else".into());
    }
    if m.mint_authority != COption::Some(signer) || m.freeze_authority.is_some() {
        return Err("somebody else controls the LP mint".into());
    }
    let t = z.token_of(&y.program_toll_wallet).ok_or("there is no toll wallet")?;
    if t.mint != y.mint || Some(t.owner) != z.toll_authority() {
        return Err("the toll wallet is wrong".into());
    }
    let n = y.dimension as usize;
    if !(2..=4).contains(&n) {
        return Err(format!("it has {} reserves", n));
    }
    if y.swap_fee.permillion > 10_000 {
        return Err("its fee is too high".into());
    }
    let mut seen = BTreeSet::new();
    for r in &y.reserves[..n] {
        let t = z.token_of(&r.vault).ok_or("there is no vault")?;
        if !seen.insert(r.mint) || t.mint != r.mint {
            return Err("mints of reserves are wrong".into());
        }
        if t.owner != signer || t.delegate.is_some() || t.close_authority.is_some() || t.is_frozen() {
            return Err("somebody else controls a vault".into());
        }
        if t.amount != r.tokens.amount {
            return Err(format!("a reserve is {} of {}", r.tokens.amount, t.amount));
        }
        if (t.amount == 0) != (m.supply == 0) {
            return Err(format!("a vault has {} for {} LP", t.amount, m.supply));
        }
    }
    for r in &y.reserves[n..] {
        if *r != amm::models::Reserve::default() {
            return Err("there is another reserve".into());
        }
    }
    Ok(())
}

/// Where token accounts and mints are looked up.
pub trait Ledger {
    fn mint_of(&self, k: &Pubkey) -> Option<spl_token::state::Mint>;
    fn token_of(&self, k: &Pubkey) -> Option<spl_token::state::Account>;
    fn toll_authority(&self) -> Option<Pubkey>;
}
impl Ledger for View {
    fn mint_of(&self, k: &Pubkey) -> Option<spl_token::state::Mint> {
        self.mints.get(k).copied()
    }
    fn token_of(&self, k: &Pubkey) -> Option<spl_token::state::Account> {
        self.tokens.get(k).copied()
    }
    fn toll_authority(&self) -> Option<Pubkey> {
        self.toll
    }
}
impl Ledger for Svm {
    fn mint_of(&self, k: &Pubkey) -> Option<spl_token::state::Mint> {
        tok::read_mint(self, k)
    }
    fn token_of(&self, k: &Pubkey) -> Option<spl_token::state::Account> {
        tok::read(self, k)
    }
    fn toll_authority(&self) -> Option<Pubkey> {
        c::read_toll(self).map(|t| t.authority)
    }
}

/// LP tokens did not lose value, and who swapped paid the due fee.
fn value(w: &World, k: &Pubkey, x: &Pool, y: &Pool, a: &View, z: &View, signed: &BTreeSet<Pubkey>) -> Result<(), String> {
    let (r0, r1) = (reserves(x), reserves(y));
    let supply = |v: &View| v.mints.get(&x.mint).map(|m| m.supply).unwrap_or(0);
    let (s0, s1) = (supply(a), supply(z));
    if r0 == r1 && s1 <= s0 {
        return Ok(());
    }
    if s0 == 0 || s1 == 0 {
        if r1.iter().zip(&r0).any(|(p, q)| p < q) && (s0 == 0 || s1 > 0) {
            return Err(format!("{} lost reserves", w.name(k)));
        }
        return Ok(());
    }
    let n = r0.len() as u32;
    let amp = amplifier(x);
    let up: Vec<usize> = (0..r0.len()).filter(|i| r1[*i] > r0[*i]).collect();
    let down: Vec<usize> = (0..r0.len()).filter(|i| r1[*i] < r0[*i]).collect();
    let swapped = up.len() == 1 && down.len() == 1;
    let user = (0..c::WHO).find(|u| signed.contains(&who(*u)));
    let tokens = |r: &[u64]| -> Vec<_> { r.iter().map(|v| b(*v)).collect() };
    let lost = || {
        format!("{}: {:?} for {} LP became {:?} for {} LP, amplifier {}", w.name(k), r0, s0, r1, s1, amp)
    };
    let mut fee = 0;
    if let (true, Some(u)) = (swapped, user) {
        let sold = r1[up[0]] - r0[up[0]];
        let d = match a.discounts.get(&c::discount(u)) {
            Some((amount, until)) if w.slot() <= *until => *amount,
            _ => 0,
        };
        let num = sold as u128 * x.swap_fee.permillion as u128 * (1_000_000 - d) as u128;
        fee = ((num + 999_999_999_999) / 1_000_000_000_000) as u64;
    }
    if amp == 0 {
        let (k0, k1) = (curve::product(&tokens(&r0)), curve::product(&tokens(&r1)));
        if &k1 * &s0.into_big().pow(n) < &k0 * &s1.into_big().pow(n) {
            return Err(lost());
        }
        if swapped {
            // without the fee, the product must not be less
            let mut q = r1.clone();
            q[up[0]] -= fee;
            if curve::product(&tokens(&q)) < k0 {
                return Err(format!("a fee of {} was due: {}", fee, lost()));
            }
        }
    } else if r0.iter().chain(&r1).all(|v| *v > 0) {
        let rel = 2.0 * (precision(&r0) + precision(&r1));
        let d0 = curve::root(amp, &curve::fine(&r0));
        let least = |d: &svm::big::Big| {
            let s = &part(d, rel) + &svm::big::Big::pow10(16);
            d.sat_sub(&s)
        };
        if swapped {
            let mut q = r1.clone();
            q[up[0]] -= fee;
            if !curve::at_least(amp, &curve::fine(&q), &least(&d0)) {
                return Err(format!("a fee of {} was due: {}", fee, lost()));
            }
        }
        let t = (fee as u128 * 333_333 * 2 + n as u128 * 1_000_000) / (2 * n as u128 * 1_000_000);
        let total: u128 = r0.iter().map(|v| *v as u128).sum();
        // recorded finding of A10
        if swapped && t > 0 && t * total * 11 / 10 >= fee as u128 * r0[up[0]] as u128 {
            return Ok(());
        }
        let due = &(&d0 * &b(s1)) / &b(s0);
        if !curve::at_least(amp, &curve::fine(&r1), &least(&due)) {
            return Err(lost());
        }
    }
    Ok(())
}

trait IntoBig {
    fn into_big(self) -> svm::big::Big;
}
impl IntoBig for u64 {
    fn into_big(self) -> svm::big::Big {
        b(self)
    }
}

fn trial(w: &mut World, t: &Trial, arms: &Arms, st: &mut Stats) -> Res {
    let (ix, spend) = match original(w, arms, t) {
        Some(x) => x,
        None => return Ok(()),
    };
    // is the original accepted?
    let saved = save(&w.svm, &ix);
    let valid = c::send(&mut w.svm, &ix).is_ok();
    restore(&mut w.svm, saved);
    if !valid {
        st.hit("original_rejected");
    }
    let mut altered = ix.clone();
    for m in &t.muts {
        alter(&mut altered, m, arms);
    }
    if altered.metas == ix.metas {
        return Ok(());
    }
    if valid {
        st.hit("altered");
        st.nontrivial = true;
    }
    let saved = save(&w.svm, &altered);
    let before = view(&w.svm);
    if c::send(&mut w.svm, &altered).is_err() {
        st.hit("altered_rejected");
        return Ok(());
    }
    st.hit("altered_accepted");
    let after = view(&w.svm);
    let signed: BTreeSet<Pubkey> = altered.metas.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let e = envelope(w, &before, &after, &signed, &spend);
    restore(&mut w.svm, saved);
    e.map_err(|(harm, msg)| {
        let list: Vec<String> = altered
            .metas
            .iter()
            .zip(ix.metas.iter().map(Some).chain(std::iter::repeat(None)))
            .map(|(x, o)| {
                format!(
                    "    {}{}{}",
                    w.name(&x.pubkey),
                    if x.is_signer { " (signed)" } else { "" },
                    match o {
                        Some(o) if o.pubkey == x.pubkey => String::new(),
                        Some(o) => format!(" instead of {}", w.name(&o.pubkey)),
                        None => " in addition".into(),
                    }
                )
            })
            .collect();
        let mut tags = vec!["A17"];
        tags.extend(about(t.kind).iter().chain(harm));
        // a swap without the due fee
        if t.kind < 10 && msg.contains("was due") {
            tags.push("A09");
        }
        Mismatch {
            tags,
            msg: format!("slot {}: {}, by instruction kind {} with\n{}", w.slot(), msg, t.kind, list.join("\n")),
        }
    })
}

pub const SWAP: &[u8] = &[0];
pub const DEPOSIT: &[u8] = &[10];
pub const TRADE: &[u8] = &[0, 0, 10, 16];
pub const SHARES: &[u8] = &[10, 10, 16, 22];
pub const REDEEM: &[u8] = &[16, 16, 22];
pub const FEE: &[u8] = &[24, 24, 24, 0, 10, 16, 26, 29];
pub const DISCOUNT: &[u8] = &[26];
pub const CREATE: &[u8] = &[29];
pub const ALL: &[u8] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
];

/// Altered instructions of the kinds given, as far as they concern the property.
pub fn check(id: &'static str, kinds: &'static [u8], quick: u32) -> Box<dyn Sub> {
    let strategy = move |t: Tier| strategy(t, kinds);
    Check::boxed("substitution", quick, quick * 12, strategy, move |a: &Attack, st: &mut Stats| {
        let mut quiet = Stats::default();
        let (mut w, r) = world::run(&a.base, &mut quiet, &mut |_, _, _| Ok(()));
        let r = r.and_then(|any| {
            if !any {
                return Ok(());
            }
            let arms = arm(&mut w, &a.own);
            a.trials.iter().try_for_each(|t| trial(&mut w, t, &arms, st))
        });
        crate::props::verdict(id, r, st)
    })
}
