//! Steps the program and judges every transition by exact oracles.
//!
//! What the oracles do not predict to the token (because the program rounds)
//! they bound: the observed amounts have to be within the rounding, and on the
//! side of it which does not hurt the pool. Then the ledger has to show exactly
//! the observed amounts, and nothing else may have changed.
//!
//! A disagreement is tagged with the properties which it refutes. A check of a
//! property only reports disagreements tagged with it; any other ends the case
//! quietly.

use crate::client as c;
use crate::client::*;
use crate::curve::{self, b};
use crate::ops::{self, Amt, Case, Cfg, Jit, Min, Op, PoolCfg};
use amm::models::Pool;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::program_pack::Pack;
use std::collections::BTreeMap;
use svm::big::Big;
use svm::pbt::Stats;
use svm::tok;
use svm::vm::{Acct, Fail, Svm};

pub type Tags = Vec<&'static str>;

pub struct Mismatch {
    pub tags: Tags,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Mismatch>;

pub fn bad<T>(tags: &[&'static str], msg: String) -> Res<T> {
    Err(Mismatch { tags: tags.to_vec(), msg })
}

pub const FUNDS: u64 = 1 << 60;
const MILLION: u64 = 1_000_000;
const MAX_FEE: u64 = 10_000;

#[derive(Clone, Debug)]
pub struct MPool {
    pub cfg: PoolCfg,
    /// in the order of the reserves
    pub mints: Vec<usize>,
    pub fee: u64,
    pub reserves: Vec<u64>,
    pub donated: Vec<u64>,
    pub supply: u64,
    /// what is stored, in 1e-18 of a token
    pub d: Big,
}

impl MPool {
    pub fn n(&self) -> usize {
        self.mints.len()
    }
    pub fn amp(&self) -> u64 {
        self.cfg.amp
    }
    pub fn stable(&self) -> bool {
        self.cfg.amp > 0
    }
}

#[derive(Clone)]
pub struct World {
    pub svm: Svm,
    pub cfg: Cfg,
    pub pools: Vec<MPool>,
    pub tokens: BTreeMap<Pubkey, u64>,
    /// amount and validity
    pub discounts: BTreeMap<usize, (u64, u64)>,
    pub last_trouble: Option<Fail>,
    /// what the last executed swap gave
    pub last_out: Option<u64>,
    /// who acts instead of the user, with at most so many tokens
    pub delegate: Option<(usize, u64)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    Must,
    May,
    Not,
}

fn mul_div(a: u64, x: u64, y: u64) -> u128 {
    a as u128 * x as u128 / y as u128
}
fn mul_div_up(a: u64, x: u64, y: u64) -> u128 {
    (a as u128 * x as u128).div_ceil(y as u128)
}
fn add_fits(a: u64, x: u128) -> bool {
    a as u128 + x <= u64::MAX as u128
}

/// By how much the program scales such reserves down, at most.
fn scale(x: &[u64]) -> i32 {
    let mut t: f64 = x.iter().map(|v| *v as f64).sum();
    let mut exp = 0;
    while t > 1000.0 {
        t /= 1000.0;
        exp += 1;
    }
    exp
}

/// How precise the program can be expected to calculate with such reserves,
/// relatively. All its (scaled down) numbers have 18 decimals, which matters
/// the more the smaller they are.
pub fn precision(x: &[u64]) -> f64 {
    let exp = scale(x);
    let z: Vec<f64> = x.iter().map(|v| *v as f64 / 1000f64.powi(exp)).collect();
    let mut err = 2e-15;
    // truncation of the scaled reserves, and of their partial products, in
    // any order
    let mut sorted = z.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut partial = 1.0;
    for v in sorted {
        partial *= v;
        err += 1e-18 / v + 1e-18 / partial;
    }
    2.0 * err
}

/// The last decimal of a scaled down number.
fn grain(x: &[u64]) -> Big {
    &Big::pow10(3 * scale(x) as u32) * &b(16)
}

/// x * f, in units of 1e-18
pub fn part(x: &Big, f: f64) -> Big {
    let m = (f * 1e18).ceil().max(0.0).min(1e19) as u64;
    &(x * &b(m)) / &curve::wad()
}

/// Replaces the user by the delegate, who swaps tokens of the user, deposits
/// own tokens for LP tokens of the user, and redeems LP tokens of the user for
/// own tokens. (The program insists that wallets belong to the signer.)
fn signed(by: Option<(usize, u64)>, mut i: Ix, u: usize) -> Ix {
    if let Some((by, _)) = by {
        for m in i.metas.iter_mut() {
            if m.pubkey == who(u) {
                m.pubkey = who(by);
            } else if m.pubkey == discount(u) {
                m.pubkey = discount(by);
            }
        }
        let swap = i.metas.get(1).map(|m| m.pubkey == discount(by)).unwrap_or(false);
        for m in i.metas.iter_mut().filter(|_| !swap) {
            if let Some(t) = (0..MINTS).find(|t| wallet(u, *t) == m.pubkey) {
                m.pubkey = wallet(by, t);
            }
        }
    }
    i
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        let mut svm = c::new_svm();
        svm.slot = 1000;
        let mut tokens = BTreeMap::new();
        for m in 0..MINTS {
            let supply = if cfg.rich { ops::MOST + FUNDS / 4 * WHO as u64 } else { FUNDS * WHO as u64 };
            tok::mint(&mut svm, mint(m), None, None, supply);
            for w in 0..WHO {
                let amount = match (cfg.rich, w) {
                    (false, _) => FUNDS,
                    (true, 0) => ops::MOST,
                    (true, _) => FUNDS / 4,
                } - (w as u64 * 7 + m as u64) % 31;
                tok::account(&mut svm, wallet(w, m), mint(m), who(w), amount);
                tokens.insert(wallet(w, m), amount);
            }
        }
        World {
            svm,
            cfg: cfg.clone(),
            pools: vec![],
            tokens,
            discounts: BTreeMap::new(),
            last_trouble: None,
            last_out: None,
            delegate: None,
        }
    }

    pub fn slot(&self) -> u64 {
        self.svm.slot
    }
    pub fn bal(&self, k: &Pubkey) -> u64 {
        self.tokens.get(k).copied().unwrap_or(0)
    }
    fn credit(&mut self, k: Pubkey, by: u64) {
        *self.tokens.entry(k).or_default() += by;
    }
    fn debit(&mut self, k: Pubkey, by: u64) {
        *self.tokens.get_mut(&k).unwrap() -= by;
    }
    /// How much of it can be spent by whoever signs.
    fn avail(&self, k: &Pubkey) -> u64 {
        match self.delegate {
            Some((_, allow)) => self.bal(k).min(allow),
            None => self.bal(k),
        }
    }
    fn set_delegate(&mut self, k: &Pubkey, by: Option<(usize, u64)>) {
        if let Some(mut a) = tok::read(&self.svm, k) {
            a.delegate = by.map(|(w, _)| who(w)).into();
            a.delegated_amount = by.map(|(_, n)| n).unwrap_or(0);
            tok::set(&mut self.svm, *k, a);
        }
    }
    pub fn lp(&self, u: usize, p: usize) -> Pubkey {
        if u == TOLLER {
            toll_wallet(p)
        } else {
            lp_wallet(u, p)
        }
    }

    fn outcome(
        &mut self,
        want: Want,
        if_rejected: &[&'static str],
        if_accepted: &[&'static str],
        r: &Result<(), Fail>,
        what: impl FnOnce() -> String,
    ) -> Res<bool> {
        match (r, want) {
            (Ok(()), Want::Not) => bad(if_accepted, format!("slot {}: {} was accepted", self.slot(), what())),
            (Err(e), Want::Must) => {
                self.last_trouble = Some(e.clone());
                bad(if_rejected, format!("slot {}: {} was rejected: {}", self.slot(), what(), e))
            }
            (Ok(()), _) => Ok(true),
            (Err(_), _) => Ok(false),
        }
    }

    /// Accounts which a pool is created from.
    pub fn put_pool_accounts(svm: &mut Svm, p: usize, mints: &[usize]) {
        tok::mint(svm, lp_mint(p), Some(signer(p)), None, 0);
        tok::account(svm, toll_wallet(p), lp_mint(p), who(TOLLER), 0);
        for u in 0..WHO {
            tok::account(svm, lp_wallet(u, p), lp_mint(p), who(u), 0);
        }
        for m in mints {
            tok::account(svm, vault(p, *m), mint(*m), signer(p), 0);
        }
    }

    pub fn set_supply(svm: &mut Svm, k: &Pubkey, supply: u64) {
        let mut m = tok::read_mint(svm, k).unwrap();
        m.supply = supply;
        let mut d = vec![0; spl_token::state::Mint::LEN];
        spl_token::state::Mint::pack(m, &mut d).unwrap();
        svm.put(*k, spl_token::id(), d);
    }

    pub fn singletons(svm: &mut Svm) -> [Result<(), Fail>; 2] {
        [
            c::send(svm, &c::create_toll(who(UPGRADER), amm::id(), metadata(), who(TOLLER))),
            c::send(svm, &c::create_settings(who(UPGRADER), amm::id(), metadata(), who(DISCOUNTER))),
        ]
    }

    /// Creates the pools by way of the program. None: the first liquidity of a
    /// stable pool is too imbalanced to be accepted.
    pub fn setup(&mut self, st: &mut Stats) -> Res<bool> {
        for r in Self::singletons(&mut self.svm) {
            self.outcome(Want::Must, &["A16", "A18"], &[], &r, || "creation of the singletons".into())?;
        }
        let cfg = self.cfg.clone();
        for (p, pc) in cfg.pools.iter().enumerate().take(2) {
            if !self.open(p, pc, st)? {
                return Ok(false);
            }
        }
        for (u, (amount, valid)) in cfg.discounts.iter().enumerate().take(USERS) {
            self.step(&Op::Discount { by: 0, user: u as u8, amount: *amount, valid: *valid as i32 + 1 }, st)?;
        }
        Ok(true)
    }

    fn open(&mut self, p: usize, pc: &PoolCfg, st: &mut Stats) -> Res<bool> {
        let n = pc.dim.clamp(2, 4) as usize;
        let mints: Vec<usize> = (0..n).map(|i| (pc.rot as usize + i * if pc.rot % 2 == 0 { 1 } else { 5 }) % MINTS).collect();
        Self::put_pool_accounts(&mut self.svm, p, &mints);
        self.tokens.insert(toll_wallet(p), 0);
        for u in 0..WHO {
            self.tokens.insert(lp_wallet(u, p), 0);
        }
        let most = if self.cfg.rich { ops::MOST } else { FUNDS };
        let mut first: Vec<u64> = pc.first.iter().map(|v| (*v).min(most)).collect();
        first.resize(n, 1);
        let existing = pc.existing.filter(|s| *s > 0);
        let mut reserves = vec![0; n];
        if let Some(s) = existing {
            for (i, m) in mints.iter().enumerate() {
                reserves[i] = first[i];
                tok::account(&mut self.svm, vault(p, *m), mint(*m), signer(p), first[i]);
            }
            Self::set_supply(&mut self.svm, &lp_mint(p), s);
            tok::add(&mut self.svm, &lp_wallet(0, p), s);
            self.tokens.insert(lp_wallet(0, p), s);
        }
        for (i, m) in mints.iter().enumerate() {
            self.tokens.insert(vault(p, *m), reserves[i]);
        }
        let vaults: Vec<Pubkey> = mints.iter().map(|m| vault(p, *m)).collect();
        let want = if pc.amp == 0 || existing.is_none() || curve::balanced(&first) { Want::Must } else { Want::May };
        let r = c::send(&mut self.svm, &c::create_pool(p, admin_of(p), pc.amp, &vaults));
        if !self.outcome(want, &["A13", "A18"], &["A13"], &r, || format!("create_pool({:?})", pc))? {
            return Ok(false);
        }
        self.pools.push(MPool {
            cfg: pc.clone(),
            mints: mints.clone(),
            fee: 0,
            donated: vec![0; n],
            supply: existing.unwrap_or(0),
            d: Big::zero(),
            reserves,
        });
        if existing.is_some() {
            st.hit("existing_liquidity");
        }
        self.compare_pool(p, &["A13", "A11"])?;
        self.step(&Op::Fee { p: p as u8, by: 0, fee: Amt::Small(pc.fee) }, st)?;
        if existing.is_none() {
            self.deposit(p, 0, first, 0, st)?;
            if self.pools[p].supply == 0 {
                return Ok(false);
            }
        }
        Ok(true)
    }

    // ------------------------------------------------------------ operations

    pub fn p(&self, p: u8) -> usize {
        p as usize % self.pools.len()
    }

    pub fn step(&mut self, op: &Op, st: &mut Stats) -> Res {
        st.note(|| format!("{} {:?}", self.slot(), op));
        self.last_out = None;
        match op {
            Op::Warp(n) => {
                self.svm.slot += *n as u64;
                Ok(())
            }
            Op::Deposit { p, u, size, jit, perm } => {
                let p = self.p(*p);
                let t = self.offer(p, *u as usize % USERS, size, jit);
                self.deposit(p, *u as usize % USERS, t, *perm as usize, st)
            }
            Op::Redeem { p, u, amt, min, perm } => {
                let (p, u) = (self.p(*p), *u as usize % USERS);
                let burn = amt.of(self.bal(&lp_wallet(u, p)));
                self.redeem(p, u, burn, *min, *perm as usize, st)
            }
            Op::Toll { p, amt } => {
                let p = self.p(*p);
                let burn = amt.of(self.bal(&toll_wallet(p)));
                self.redeem(p, TOLLER, burn, Min::None, 0, st)
            }
            Op::Swap { p, u, s, b, amt, min } => {
                let p = self.p(*p);
                let n = self.pools[p].n();
                let si = *s as usize % n;
                let mut bi = *b as usize % n;
                if bi == si && !(*s == 3 && *b == 3) {
                    bi = (si + 1) % n;
                }
                let sell = amt.of2(self.pools[p].reserves[si], self.bal(&wallet(*u as usize % USERS, self.pools[p].mints[si])));
                self.swap(p, *u as usize % USERS, si, bi, sell, *min, st)
            }
            Op::Fee { p, by, fee } => {
                let p = self.p(*p);
                let by = if *by == 0 { admin_of(p) } else { (*by as usize + admin_of(p)) % WHO };
                self.set_fee(p, by, fee.of(MAX_FEE), st)
            }
            Op::Discount { by, user, amount, valid } => {
                let by = if *by == 0 { DISCOUNTER } else { (*by as usize + DISCOUNTER) % WHO };
                let until = self.slot().saturating_add_signed(*valid as i64);
                self.put_discount(by, *user as usize % USERS, *amount as u64, until, st)
            }
            Op::Donate { p, m, amt } => {
                let p = self.p(*p);
                let i = *m as usize % self.pools[p].n();
                let k = vault(p, self.pools[p].mints[i]);
                let from = wallet(3, self.pools[p].mints[i]);
                let amt = *amt as u64;
                if self.bal(&from) < amt || !tok::add(&mut self.svm, &k, amt) {
                    return Ok(());
                }
                let mut a = tok::read(&self.svm, &from).unwrap();
                a.amount -= amt;
                tok::set(&mut self.svm, from, a);
                self.debit(from, amt);
                self.credit(k, amt);
                self.pools[p].donated[i] += amt;
                st.hit("donated");
                Ok(())
            }
            Op::BurnLp { p, u, amt } => {
                let (p, u) = (self.p(*p), *u as usize % USERS);
                let k = lp_wallet(u, p);
                let amt = amt.of(self.bal(&k)).min(self.bal(&k));
                let mut a = tok::read(&self.svm, &k).unwrap();
                a.amount -= amt;
                tok::set(&mut self.svm, k, a);
                self.pools[p].supply -= amt;
                let s = self.pools[p].supply;
                Self::set_supply(&mut self.svm, &lp_mint(p), s);
                self.debit(k, amt);
                st.hit("lp_burnt");
                Ok(())
            }
            Op::MoveLp { p, u, to, amt } => {
                let (p, u, to) = (self.p(*p), *u as usize % USERS, *to as usize % USERS);
                let (x, y) = (lp_wallet(u, p), lp_wallet(to, p));
                let amt = amt.of(self.bal(&x)).min(self.bal(&x));
                if x == y {
                    return Ok(());
                }
                let mut a = tok::read(&self.svm, &x).unwrap();
                a.amount -= amt;
                tok::set(&mut self.svm, x, a);
                tok::add(&mut self.svm, &y, amt);
                self.debit(x, amt);
                self.credit(y, amt);
                Ok(())
            }
            Op::ExitAll { p } => {
                let p = self.p(*p);
                self.exit_all(p, st)
            }
            Op::Purse { p, u, m, keep } => {
                let (p, u) = (self.p(*p), *u as usize % USERS);
                let i = *m as usize % self.pools[p].n();
                let m = self.pools[p].mints[i];
                let (mine, other) = (wallet(u, m), wallet(ATTACKER, m));
                let total = self.bal(&mine) as u128 + self.bal(&other) as u128;
                let keep = (keep.of(self.pools[p].reserves[i]) as u128).min(total);
                let rest = total - keep;
                if rest > u64::MAX as u128 {
                    return Ok(());
                }
                for (k, v) in [(mine, keep as u64), (other, rest as u64)] {
                    let mut a = tok::read(&self.svm, &k).unwrap();
                    a.amount = v;
                    tok::set(&mut self.svm, k, a);
                    self.tokens.insert(k, v);
                }
                st.hit("purse");
                Ok(())
            }
            Op::Delegated { by, allow, op } => {
                let (p, u) = match **op {
                    Op::Swap { p, u, .. } | Op::Deposit { p, u, .. } | Op::Redeem { p, u, .. } => (p, u),
                    _ => return Ok(()),
                };
                let (p, u) = (self.p(p), u as usize % USERS);
                let by = (u + 1 + *by as usize % (USERS - 1)) % USERS;
                let allow = match allow {
                    Amt::Wallet(0) => u64::MAX,
                    // of what is to be sold or burnt, roughly
                    a => match **op {
                        Op::Swap { s, amt, .. } => {
                            let i = s as usize % self.pools[p].n();
                            let sell = amt.of2(self.pools[p].reserves[i], self.bal(&wallet(u, self.pools[p].mints[i])));
                            a.of2(sell, sell)
                        }
                        Op::Redeem { amt, .. } => {
                            let burn = amt.of(self.bal(&lp_wallet(u, p)));
                            a.of2(burn, burn)
                        }
                        _ => a.of(self.pools[p].reserves[0]),
                    },
                };
                let mut keys: Vec<Pubkey> = self.pools[p].mints.iter().map(|m| wallet(u, *m)).collect();
                keys.push(lp_wallet(u, p));
                self.delegate = Some((by, allow));
                for k in &keys {
                    let d = self.delegate;
                    self.set_delegate(k, d);
                }
                let r = self.step(op, st);
                self.delegate = None;
                for k in &keys {
                    self.set_delegate(k, None);
                }
                st.hit("delegated");
                r
            }
            Op::Dust { u, lamports } => {
                let k = discount(*u as usize % USERS);
                let have = self.svm.get(&k).map(|a| a.lamports).unwrap_or(0);
                self.svm.give(k, *lamports as u64);
                st.hit(if have == 0 { "dust" } else { "more_dust" });
                Ok(())
            }
        }
    }

    fn offer(&self, p: usize, u: usize, size: &Amt, jit: &[Jit; 4]) -> Vec<u64> {
        let mp = &self.pools[p];
        (0..mp.n())
            .map(|i| {
                let x = if mp.supply == 0 { mp.cfg.first.get(i).copied().unwrap_or(1) } else { mp.reserves[i] };
                let same = match size {
                    // the same share of each reserve
                    Amt::Frac(_) | Amt::Over(_) | Amt::Under(_) => size.of(x),
                    // so much of the first, and the others in proportion
                    _ => (size.of(x) as u128 * x as u128 / mp.reserves[0].max(1) as u128).min(u64::MAX as u128) as u64,
                };
                match jit[i] {
                    Jit::Same => same,
                    Jit::Plus(n) => same.saturating_add(n as u64),
                    Jit::Minus(n) => same.saturating_sub(n as u64),
                    Jit::Times(n) => (same as u128 * n as u128 / 64).min(u64::MAX as u128) as u64,
                    Jit::Max => u64::MAX,
                    Jit::Wallet(n) => self.bal(&wallet(u, mp.mints[i])).saturating_add_signed(n as i64),
                    Jit::Raw(a) => a.of(x),
                }
            })
            .collect()
    }

    fn rotated(mints: &[usize], perm: usize) -> Vec<usize> {
        let n = mints.len();
        let mut v: Vec<usize> = (0..n).map(|i| mints[(i + perm) % n]).collect();
        if perm / n % 2 == 1 {
            v.reverse();
        }
        v
    }

    /// `t`: what the user is willing to give of each
    pub fn deposit(&mut self, p: usize, u: usize, t: Vec<u64>, perm: usize, st: &mut Stats) -> Res {
        let mp = self.pools[p].clone();
        let n = mp.n();
        let x = &mp.reserves;
        let s = mp.supply;
        let first = s == 0;

        // bounds of what has to be deposited of each
        let (mut lo, mut hi) = (vec![0u64; n], vec![0u64; n]);
        let positive = t.iter().all(|v| *v > 0);
        if positive {
            if first {
                lo = t.clone();
                hi = t.clone();
            } else {
                // the least t/x
                let mut m = 0;
                for i in 1..n {
                    if (t[i] as u128 * x[m] as u128) < t[m] as u128 * x[i] as u128 {
                        m = i;
                    }
                }
                let r = t[m] as f64 / x[m] as f64;
                let largest = x.iter().copied().max().unwrap_or(0) as f64;
                for i in 0..n {
                    hi[i] = mul_div_up(x[i], t[m], x[m]).min(t[i] as u128) as u64;
                    // the ratio is rounded to 18 decimals, and its inverse in
                    // large pools
                    let plain = if largest <= 1e12 { 1.0 + 2.0 * r } else { 0.0 };
                    let eps = (1.0 + x[i] as f64 * (r * r + plain)) * 2e-18 * (1.0 + 1e-9);
                    let num = t[m] as u128 * x[i] as u128;
                    let whole = num / x[m] as u128;
                    let frac = (num % x[m] as u128) as f64 / x[m] as f64;
                    let l = if eps < frac {
                        whole + 1
                    } else {
                        // the next integer which is not below
                        let d = (eps - frac).floor();
                        whole.saturating_sub(if d >= u64::MAX as f64 { u64::MAX as u128 } else { d as u128 })
                    };
                    lo[i] = l.min(hi[i] as u128) as u64;
                }
            }
        }
        let share = |dep: &[u64]| -> u128 {
            if first {
                *dep.iter().min().unwrap() as u128
            } else {
                (0..n).map(|i| mul_div(s, dep[i], x[i])).min().unwrap()
            }
        };
        let rough = |dep: &[u64]| -> u128 {
            // the rule of three is rounded
            1 + 2 * (s.min(*dep.iter().max().unwrap()) as u128) / 1_000_000_000_000_000_000
        };
        let payer = self.delegate.map(|(by, _)| by).unwrap_or(u);
        let wallets: Vec<Pubkey> = mp.mints.iter().map(|m| wallet(payer, *m)).collect();
        let vaults: Vec<Pubkey> = mp.mints.iter().map(|m| vault(p, *m)).collect();
        let want = if !positive {
            Want::Not
        } else if (0..n).any(|i| self.bal(&wallets[i]) < lo[i]) {
            Want::Not
        } else if share(&hi) == 0 {
            Want::Not
        } else {
            let post: Vec<u64> = (0..n).map(|i| x[i].saturating_add(hi[i])).collect();
            let fits = (0..n).all(|i| {
                self.bal(&wallets[i]) >= hi[i] && add_fits(self.bal(&vaults[i]), hi[i] as u128) && add_fits(x[i], hi[i] as u128)
            }) && add_fits(s, share(&hi))
                && (first || t.iter().zip(x).all(|(t, x)| (*t as f64 / *x as f64) < 1e18))
                // not just by way of rounding
                && (first || share(&lo) > rough(&hi));
            if fits && (!mp.stable() || (curve::balanced(&post) && mp.amp() <= MILLION)) {
                Want::Must
            } else {
                Want::May
            }
        };
        let order = Self::rotated(&mp.mints, perm);
        let max: Vec<(usize, u64)> =
            order.iter().map(|m| (*m, t[mp.mints.iter().position(|x| x == m).unwrap()])).collect();
        let pairs = Self::rotated(&mp.mints, perm / 8);
        let i = signed(self.delegate, c::deposit(p, u, &max, &pairs), u);
        let r = c::send(&mut self.svm, &i);
        let what = || format!("deposit of at most {:?} into {:?} with {} LP", t, x, s);
        let refused: &[&'static str] =
            if positive && share(&hi) == 0 { &["A06", "A12", "A05"] } else { &["A05", "A06", "A11"] };
        if !self.outcome(want, &["A18", "A05", "A06"], refused, &r, what)? {
            st.hit("deposit_rejected");
            return Ok(());
        }
        let dep: Vec<u64> =
            (0..n).map(|i| self.bal(&wallets[i]).wrapping_sub(tok::amount(&self.svm, &wallets[i]))).collect();
        for i in 0..n {
            if dep[i] > t[i] {
                return bad(&["A05"], format!("{}: {:?} was taken, more than the maximum", what(), dep));
            }
            if dep[i] < lo[i] || dep[i] > hi[i] {
                return bad(
                    &["A05", "A12", "A06"],
                    format!("{}: {:?} was taken instead of between {:?} and {:?}", what(), dep, lo, hi),
                );
            }
        }
        let lpk = lp_wallet(u, p);
        let minted = tok::amount(&self.svm, &lpk).wrapping_sub(self.bal(&lpk));
        let want = share(&dep);
        if minted as u128 > want {
            return bad(
                &["A06", "A12"],
                format!("{}: {:?} was taken and {} LP were minted, worth more than {}", what(), dep, minted, want),
            );
        }
        if (minted as u128) + if first { 0 } else { rough(&dep) } < want || minted == 0 {
            return bad(
                &["A06", "A05"],
                format!("{}: {:?} was taken and only {} LP were minted instead of {}", what(), dep, minted, want),
            );
        }
        st.hit(if first { "first_deposit" } else { "deposited" });
        for i in 0..n {
            self.debit(wallets[i], dep[i]);
            self.credit(vaults[i], dep[i]);
            self.pools[p].reserves[i] += dep[i];
        }
        self.credit(lpk, minted);
        self.pools[p].supply += minted;
        self.compare(p, &["A05", "A06", "A11"], &what())?;
        // the curve grows by at least the share of the LP tokens
        if !first {
            self.worth(p, &mp, &["A06", "A12"], &what)?;
        }
        Ok(())
    }

    pub fn redeem(&mut self, p: usize, u: usize, burn: u64, min: Min, perm: usize, st: &mut Stats) -> Res {
        let mp = self.pools[p].clone();
        let n = mp.n();
        let x = &mp.reserves;
        let s = mp.supply;
        let lpk = self.lp(u, p);
        let have = self.avail(&lpk);
        let (mut lo, mut hi) = (vec![0u64; n], vec![0u64; n]);
        if s > 0 {
            for i in 0..n {
                hi[i] = (x[i] as u128 * burn as u128 / s as u128).min(u64::MAX as u128) as u64;
                // the share is rounded down to 18 decimals
                let w = &(&b(burn) * &curve::wad()) / &b(s);
                lo[i] = (&(&w * &b(x[i])) / &curve::wad()).to_u64().unwrap_or(u64::MAX);
            }
        }
        let possible = burn <= have && s > 0;
        let payer = self.delegate.map(|(by, _)| by).unwrap_or(u);
        let wallets: Vec<Pubkey> = mp.mints.iter().map(|m| wallet(payer, *m)).collect();
        let vaults: Vec<Pubkey> = mp.mints.iter().map(|m| vault(p, *m)).collect();
        let fits = possible && (0..n).all(|i| add_fits(self.bal(&wallets[i]), hi[i] as u128));
        let post: Vec<u64> = (0..n).map(|i| x[i] - if possible { hi[i] } else { 0 }).collect();
        let calm = !mp.stable() || post.iter().any(|v| *v == 0) || (curve::balanced(&post) && mp.amp() <= MILLION);
        let order = Self::rotated(&mp.mints, perm);
        let pairs = Self::rotated(&mp.mints, perm / 8);
        let delegate = self.delegate;
        let ix = |mins: &[u64]| {
            let m: Vec<(usize, u64)> =
                order.iter().map(|m| (*m, mins[mp.mints.iter().position(|x| x == m).unwrap()])).collect();
            signed(delegate, c::redeem(p, u, burn, &m, &pairs), u)
        };
        let quote = match min {
            Min::Quote | Min::More(_) => {
                let i = ix(&vec![0; n]);
                let saved = save(&self.svm, &i);
                let ok = c::send(&mut self.svm, &i).is_ok();
                let q: Vec<u64> =
                    (0..n).map(|i| tok::amount(&self.svm, &wallets[i]).wrapping_sub(self.bal(&wallets[i]))).collect();
                restore(&mut self.svm, saved);
                ok.then_some(q)
            }
            _ => None,
        };
        let mins: Vec<u64> = match (min, &quote) {
            (Min::None, _) => vec![0; n],
            (Min::Quote, Some(q)) => q.clone(),
            (Min::More(k), Some(q)) => {
                let mut q = q.clone();
                let i = k as usize % n;
                q[i] = q[i].saturating_add(1);
                q
            }
            (Min::Raw(r), _) => r[..n].iter().enumerate().map(|(i, v)| if v % 3 == 0 { *v } else { v % hi[i].saturating_mul(2).max(1) }).collect(),
            _ => vec![0; n],
        };
        let unmet = match &quote {
            Some(q) => (0..n).any(|i| mins[i] > q[i]),
            None => (0..n).any(|i| mins[i] > hi[i]),
        };
        let want = if !possible || unmet {
            Want::Not
        } else if fits && calm && (quote.is_some() || (0..n).all(|i| mins[i] <= lo[i])) {
            Want::Must
        } else {
            Want::May
        };
        let r = c::send(&mut self.svm, &ix(&mins));
        let what = || {
            format!(
                "redemption of {} of {} LP (having {}) from {:?}{}, at least {:?}",
                burn,
                s,
                have,
                x,
                if mp.stable() { format!(" amplified by {}", mp.amp()) } else { String::new() },
                mins
            )
        };
        if !self.outcome(want, &["A18", "A07"], &["A07"], &r, what)? {
            st.hit(if unmet && possible { "redeem_slippage" } else { "redeem_rejected" });
            return Ok(());
        }
        let got: Vec<u64> =
            (0..n).map(|i| tok::amount(&self.svm, &wallets[i]).wrapping_sub(self.bal(&wallets[i]))).collect();
        for i in 0..n {
            if got[i] > hi[i] {
                return bad(&["A07", "A12", "A06"], format!("{} gave {:?}, more than the share {:?}", what(), got, hi));
            }
            if got[i] < lo[i] {
                return bad(&["A07", "A06"], format!("{} gave {:?}, less than the share {:?}", what(), got, lo));
            }
            if got[i] < mins[i] {
                return bad(&["A07"], format!("{} gave {:?}", what(), got));
            }
        }
        st.hit(if burn == s {
            "redeemed_all"
        } else if burn == 0 {
            "redeemed_nothing"
        } else {
            "redeemed"
        });
        for i in 0..n {
            self.credit(wallets[i], got[i]);
            self.debit(vaults[i], got[i]);
            self.pools[p].reserves[i] -= got[i];
        }
        self.debit(lpk, burn);
        self.pools[p].supply -= burn;
        self.compare(p, &["A07", "A11"], &what())?;
        if burn < s {
            self.worth(p, &mp, &["A07", "A12", "A06"], &what)?;
        }
        Ok(())
    }

    /// The fee which the user owes, as the documentation has it: the sold
    /// amount times the share, less the discount, rounded up.
    pub fn fee_of(&self, p: usize, u: usize, sell: u64) -> u64 {
        let d = match self.discounts.get(&u) {
            Some((amount, until)) if self.slot() <= *until => *amount,
            _ => 0,
        };
        let num = sell as u128 * self.pools[p].fee as u128 * (MILLION - d) as u128;
        ((num + 999_999_999_999) / 1_000_000_000_000) as u64
    }

    /// The toll, in tokens of each reserve.
    fn toll_of(&self, p: usize, fee: u64) -> u64 {
        let n = self.pools[p].n() as u128;
        // fee * 0.333333 / n, rounded
        ((fee as u128 * 333_333 * 2 + n * MILLION as u128) / (2 * n * MILLION as u128)) as u64
    }

    /// Recorded finding of A10: a stable pool is so short of the sold token that
    /// the toll, being calculated as the same share of all reserves, is worth
    /// more than the fee.
    pub fn toll_exceeds_fee(&self, p: usize, x: &[u64], si: usize, fee: u64) -> bool {
        let total: u128 = x.iter().map(|v| *v as u128).sum();
        let t = self.toll_of(p, fee) as u128;
        t > 0 && t * total * 11 / 10 >= fee as u128 * x[si] as u128
    }

    pub fn swap(&mut self, p: usize, u: usize, si: usize, bi: usize, sell: u64, min: Min, st: &mut Stats) -> Res {
        let mp = self.pools[p].clone();
        let n = mp.n();
        let x = &mp.reserves;
        let s = mp.supply;
        let curve_tag = if mp.stable() { "A03" } else { "A02" };
        let payer = self.delegate.map(|(by, _)| by).unwrap_or(u);
        let fee = self.fee_of(p, payer, sell);
        let net = sell - fee;
        let (sw, bw) = (wallet(u, mp.mints[si]), wallet(u, mp.mints[bi]));
        let (sv, bv) = (vault(p, mp.mints[si]), vault(p, mp.mints[bi]));

        let possible =
            sell > 0 && si != bi && s > 0 && sell <= self.avail(&sw) && x.iter().all(|v| *v > 0) && net < x[si];
        let t = self.toll_of(p, fee);
        let (mut lp_lo, mut lp_hi) = (0u64, 0u64);
        let mut exact = 0u64;
        let mut want = Want::Not;
        if possible {
            let after = x[si] as u128 + sell as u128;
            let share = (s as u128 * t as u128 / after).min(u64::MAX as u128) as u64;
            lp_hi = share;
            lp_lo = share.saturating_sub(2 + s / 250_000_000_000_000_000);
            if !mp.stable() {
                let y = (x[bi] as u128 * x[si] as u128).div_ceil(x[si] as u128 + net as u128);
                exact = x[bi] - y as u64;
            }
            // the toll is calculated by a pretended deposit of that much
            let deposited = t as f64 / after as f64;
            let fits = add_fits(x[si], sell as u128 + t as u128)
                && add_fits(self.bal(&sv), sell as u128)
                && add_fits(self.bal(&bw), x[bi] as u128)
                && add_fits(s, lp_hi as u128 * 2)
                && x.iter().all(|v| (*v as f64) * (1.0 + deposited) + 2.0 < u64::MAX as f64 * 0.999);
            want = if x[si] as u128 + sell as u128 > u64::MAX as u128 {
                Want::Not
            } else if !fits {
                Want::May
            } else if !mp.stable() {
                Want::Must
            } else {
                let mut z = x.clone();
                z[si] += net;
                // the most which may be given
                let fine = curve::fine(x);
                let d0 = curve::root(mp.amp(), &fine);
                let dm = if d0 > mp.d { d0.clone() } else { mp.d.clone() };
                exact = curve::most_out(mp.amp(), &z, bi, &d0);
                let least = curve::most_out(mp.amp(), &z, bi, &(&dm + &part(&dm, precision(x))));
                let mut q = z.clone();
                q[si] += fee;
                q[bi] -= exact;
                let calm = [x, &z, &q].iter().all(|v| curve::balanced(v)) && mp.amp() <= MILLION && least > 1;
                if calm {
                    Want::Must
                } else {
                    Want::May
                }
            };
        }
        let delegate = self.delegate;
        let ix = |m: u64| signed(delegate, c::swap(p, u, mp.mints[si], mp.mints[bi], sell, m), u);
        let quote = if min == Min::None {
            None
        } else {
            let i = ix(0);
            let saved = save(&self.svm, &i);
            let ok = c::send(&mut self.svm, &i).is_ok();
            let q = tok::amount(&self.svm, &bw).wrapping_sub(self.bal(&bw));
            restore(&mut self.svm, saved);
            Some(ok.then_some(q))
        };
        let min_buy = match (min, quote.flatten()) {
            (Min::None, _) => 0,
            (Min::Quote, Some(q)) => q,
            (Min::More(k), Some(q)) => q.saturating_add(1 + k as u64 / 3),
            (Min::Raw(r), Some(q)) => r[0] % (2 * (q as u128 + 1)).min(u64::MAX as u128) as u64,
            (_, None) => 0,
        };
        let unmet = quote.flatten().map(|q| min_buy > q).unwrap_or(false);
        if unmet {
            want = Want::Not;
        }
        let r = c::send(&mut self.svm, &ix(min_buy));
        let what = || {
            format!(
                "swap of {} of reserve {} for {} (at least {}) in {:?}, {} LP, fee {}, {}",
                sell,
                si,
                bi,
                min_buy,
                x,
                s,
                fee,
                if mp.stable() { format!("amplified by {}", mp.amp()) } else { "constant product".into() }
            )
        };
        let accepted: &[&'static str] = if unmet {
            &["A08"]
        } else if s == 0 {
            &["A08", "A12", "A02", "A03"]
        } else {
            &["A08", "A02", "A03", "A12"]
        };
        let refused: &[&'static str] =
            if self.delegate.is_some() { &["A18", "A08", "A09", curve_tag] } else { &["A18", "A08", curve_tag] };
        if !self.outcome(want, refused, accepted, &r, what)? {
            st.hit(if unmet { "swap_slippage" } else { "swap_rejected" });
            if quote.flatten().is_some() && !unmet {
                return bad(&["A08", "A18"], format!("slot {}: {} was rejected although it was quoted more", self.slot(), what()));
            }
            return Ok(());
        }
        let out = tok::amount(&self.svm, &bw).wrapping_sub(self.bal(&bw));
        if out < min_buy {
            return bad(&["A08"], format!("{} gave {}", what(), out));
        }
        if out >= x[bi] {
            return bad(&["A08", "A12", curve_tag, "A11"], format!("{} drained the reserve: {}", what(), out));
        }
        if !mp.stable() {
            let recorded: Vec<Big> = c::read_pool(&self.svm, &c::pool(p))
                .map(|z| z.reserves[..n].iter().map(|r| b(r.tokens.amount)).collect())
                .unwrap_or_default();
            let held: Vec<Big> = (0..n)
                .map(|i| b(tok::amount(&self.svm, &vault(p, mp.mints[i])).saturating_sub(mp.donated[i])))
                .collect();
            let k0 = curve::product(&x.iter().map(|v| b(*v)).collect::<Vec<_>>());
            for z in [recorded, held] {
                let k1 = curve::product(&z);
                if k1 < k0 {
                    return bad(
                        &["A01", "A12", "A02"],
                        format!("{} gave {}: the product went from {} to {}", what(), out, k0, k1),
                    );
                }
            }
            if out != exact {
                return bad(
                    if out > exact { &["A02", "A09", "A12"] } else { &["A02", "A09"] },
                    format!("slot {}: {} gave {} instead of {}", self.slot(), what(), out, exact),
                );
            }
        } else {
            self.on_curve(&mp, si, bi, net, out, exact, &what)?;
        }
        st.hit(if mp.stable() { "swapped_stable" } else { "swapped_const" });
        if fee > 0 {
            st.hit("fee_taken");
            if self.discounts.get(&payer).map(|d| d.0 > 0 && self.slot() <= d.1).unwrap_or(false) {
                st.hit("fee_discounted");
            }
        }
        let minted = tok::amount(&self.svm, &toll_wallet(p)).wrapping_sub(self.bal(&toll_wallet(p)));
        if minted > lp_hi {
            return bad(
                &["A10", "A12", "A06"],
                format!("{}: toll of {} LP, although {} tokens are worth {}", what(), minted, t, lp_hi),
            );
        }
        if minted < lp_lo {
            return bad(&["A10"], format!("{}: toll of {} LP, although {} tokens are worth {}", what(), minted, t, lp_hi));
        }
        if minted > 0 {
            st.hit("toll_taken");
        }
        self.debit(sw, sell);
        self.credit(sv, sell);
        self.credit(bw, out);
        self.debit(bv, out);
        self.credit(toll_wallet(p), minted);
        self.pools[p].supply += minted;
        self.pools[p].reserves[si] += sell;
        self.pools[p].reserves[bi] -= out;
        self.last_out = Some(out);
        self.compare(p, &["A08", "A11", "A10"], &what())?;
        if mp.stable() && self.toll_exceeds_fee(p, x, si, fee) {
            st.hit("short_of_sold");
        } else {
            self.worth(p, &mp, &["A10", "A12"], &what)?;
        }
        Ok(())
    }

    /// The output of a stable swap is the curve's.
    fn on_curve(
        &self,
        mp: &MPool,
        si: usize,
        bi: usize,
        net: u64,
        out: u64,
        exact: u64,
        what: &dyn Fn() -> String,
    ) -> Res {
        let x = &mp.reserves;
        let mut z = x.clone();
        z[si] += net;
        z[bi] -= out;
        let rel = precision(x) + precision(&z);
        let fine = curve::fine(x);
        let d0 = curve::root(mp.amp(), &fine);
        // not more: the invariant does not get smaller
        let lo = d0.sat_sub(&(&part(&d0, rel) + &grain(x)));
        let slack = &part(&fine[bi], rel) + &grain(x);
        let mut zf = curve::fine(&z);
        let y = zf[bi].clone();
        zf[bi] = &y + &slack;
        if !curve::at_least(mp.amp(), &zf, &lo) {
            return bad(
                &["A03", "A09", "A12"],
                format!("{} gave {} but the curve allows for only {}", what(), out, exact),
            );
        }
        // not less: one more token would make it smaller
        let dm = if d0 > mp.d { d0 } else { mp.d.clone() };
        let hi = &(&dm + &part(&dm, rel)) + &grain(x);
        let one = &curve::wad() + &slack;
        if y > one {
            zf[bi] = &y - &one;
            if curve::at_least(mp.amp(), &zf, &hi) {
                return bad(&["A03", "A09"], format!("{} gave only {} but the curve allows for {}", what(), out, exact));
            }
        }
        Ok(())
    }

    /// What an LP token is worth must not have got less.
    fn worth(&self, p: usize, before: &MPool, tags: &[&'static str], what: &dyn Fn() -> String) -> Res {
        let after = &self.pools[p];
        if before.supply == 0 || after.supply == 0 {
            return Ok(());
        }
        let n = before.n() as u32;
        let (s0, s1) = (b(before.supply), b(after.supply));
        if !before.stable() {
            let k0 = curve::product(&before.reserves.iter().map(|v| b(*v)).collect::<Vec<_>>());
            let k1 = curve::product(&after.reserves.iter().map(|v| b(*v)).collect::<Vec<_>>());
            if &k1 * &s0.pow(n) < &k0 * &s1.pow(n) {
                return bad(
                    tags,
                    format!(
                        "{}: product {} for {} LP became {} for {} LP",
                        what(),
                        k0,
                        before.supply,
                        k1,
                        after.supply
                    ),
                );
            }
        } else {
            let rel = precision(&before.reserves) + precision(&after.reserves);
            let d0 = curve::root(before.amp(), &curve::fine(&before.reserves));
            let due = &(&d0 * &s1) / &s0;
            let due = due.sat_sub(&(&part(&due, rel) + &grain(&before.reserves)));
            if !curve::at_least(before.amp(), &curve::fine(&after.reserves), &due) {
                return bad(
                    tags,
                    format!(
                        "{}: invariant {} for {} LP became that of {:?} for {} LP",
                        what(),
                        d0,
                        before.supply,
                        after.reserves,
                        after.supply
                    ),
                );
            }
        }
        Ok(())
    }

    fn set_fee(&mut self, p: usize, by: usize, fee: u64, st: &mut Stats) -> Res {
        let authorised = by == admin_of(p);
        let want = if authorised && fee <= MAX_FEE { Want::Must } else { Want::Not };
        let r = c::send(&mut self.svm, &c::set_fee(p, by, fee));
        if !self.outcome(want, &["A14", "A18"], &["A14"], &r, || format!("set_pool_swap_fee({}) by {}", fee, by))? {
            st.hit(if authorised { "fee_too_high" } else { "fee_unauthorised" });
            return Ok(());
        }
        st.hit("fee_set");
        self.pools[p].fee = fee;
        self.compare(p, &["A14"], "set_pool_swap_fee")
    }

    fn put_discount(&mut self, by: usize, user: usize, amount: u64, until: u64, st: &mut Stats) -> Res {
        let authorised = by == DISCOUNTER;
        let ok = authorised && amount <= MILLION && until > self.slot();
        let want = if ok { Want::Must } else { Want::Not };
        let r = c::send(&mut self.svm, &c::put_discount(by, user, amount, until));
        let what = || format!("put_discount({} until {}) by {} for {}", amount, until, by, user);
        if !self.outcome(want, &["A15", "A18"], &["A15"], &r, what)? {
            st.hit(if authorised { "discount_invalid" } else { "discount_unauthorised" });
            return Ok(());
        }
        st.hit(if self.discounts.contains_key(&user) { "discount_changed" } else { "discount_created" });
        self.discounts.insert(user, (amount, until));
        for p in 0..self.pools.len() {
            self.compare(p, &["A15"], "put_discount")?;
        }
        Ok(())
    }

    /// Everybody redeems everything; nothing may be left.
    pub fn exit_all(&mut self, p: usize, st: &mut Stats) -> Res {
        for u in (0..USERS).chain([TOLLER]) {
            let have = self.bal(&self.lp(u, p));
            if have == 0 {
                continue;
            }
            let others = self.pools[p].supply - have;
            self.redeem(p, u, have, Min::None, 0, st)?;
            if others == 0 && self.pools[p].supply == 0 {
                st.hit("emptied");
                if self.pools[p].reserves.iter().any(|r| *r > 0) {
                    return bad(
                        &["A07", "A18"],
                        format!("all LP tokens were redeemed but {:?} is left", self.pools[p].reserves),
                    );
                }
            }
        }
        Ok(())
    }

    /// Whatever happened, everybody gets the share, and the pools can be
    /// used afterwards.
    pub fn everybody_leaves(&mut self, st: &mut Stats) -> Res {
        for p in 0..self.pools.len() {
            let x = &self.pools[p].reserves;
            let before = n_of(st, "redeemed") + n_of(st, "redeemed_all");
            // a swap of a hundredth
            let (a, b) = (x[0] / 100 + 1, x[1] / 100 + 1);
            if x.iter().all(|v| *v > 0) && self.pools[p].supply > 0 {
                self.swap(p, 1, 0, 1, a, Min::None, st)?;
                self.swap(p, 1, 1, 0, b, Min::None, st)?;
            }
            self.exit_all(p, st)?;
            if n_of(st, "redeemed") + n_of(st, "redeemed_all") >= before + 2 {
                st.hit("got_out");
            }
            if self.pools[p].supply == 0 {
                let first: Vec<u64> = self.pools[p].cfg.first.iter().map(|v| *v / 2 + 1).collect();
                self.deposit(p, 2, first, 0, st)?;
                if self.pools[p].supply > 0 {
                    st.hit("revived");
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ comparison

    /// Pool `p` is what was observed to happen, all else is as it was.
    pub fn compare(&mut self, p: usize, tags: &[&'static str], what: &str) -> Res {
        for (k, v) in &self.tokens {
            let a = tok::amount(&self.svm, k);
            if a != *v {
                return bad(tags, format!("after {}: balance of {} is {} instead of {}", what, self.name(k), a, v));
            }
        }
        for q in 0..self.pools.len() {
            self.compare_pool(q, if q == p { tags } else { &["A11", "A17"] })?;
        }
        for u in 0..WHO {
            let a = c::read_discount(&self.svm, &discount(u)).map(|d| (d.amount.permillion, d.valid_until.slot));
            if a != self.discounts.get(&u).copied() {
                return bad(&["A15", "A09"], format!("discount of {} is {:?} instead of {:?}", u, a, self.discounts.get(&u)));
            }
        }
        let toll = c::read_toll(&self.svm).map(|t| t.authority);
        let settings = c::read_settings(&self.svm).map(|t| t.authority);
        if toll != Some(who(TOLLER)) || settings != Some(who(DISCOUNTER)) {
            return bad(&["A16", "A15", "A17"], format!("after {} the authorities are {:?} and {:?}", what, toll, settings));
        }
        Ok(())
    }

    /// Reserves are what is in the vaults and the LP tokens are all held by
    /// somebody, as read from the accounts.
    pub fn books(&self) -> Res {
        for (p, mp) in self.pools.iter().enumerate() {
            let pool = match c::read_pool(&self.svm, &c::pool(p)) {
                Some(x) => x,
                None => return bad(&["A11"], format!("pool {} is not readable", p)),
            };
            for (i, r) in pool.reserves.iter().enumerate().take(mp.n()) {
                let v = tok::amount(&self.svm, &vault(p, mp.mints[i]));
                if v as u128 != r.tokens.amount as u128 + mp.donated[i] as u128 {
                    return bad(
                        &["A11"],
                        format!(
                            "slot {}: vault {} of pool {} holds {} for a reserve of {} and {} donated",
                            self.slot(),
                            i,
                            p,
                            v,
                            r.tokens.amount,
                            mp.donated[i]
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    /// The stored invariants are those of the recorded reserves.
    pub fn invariants_stored(&self) -> Res {
        for (p, mp) in self.pools.iter().enumerate() {
            if let (true, Some(pool)) = (mp.stable(), c::read_pool(&self.svm, &c::pool(p))) {
                let mut mp = mp.clone();
                let n = mp.n();
                mp.reserves = pool.reserves[..n].iter().map(|r| r.tokens.amount).collect();
                if mp.reserves.iter().all(|v| *v > 0) {
                    self.root_of(&mp, &c::curve(&pool).1)?;
                }
            }
        }
        Ok(())
    }

    pub fn compare_pool(&mut self, p: usize, tags: &[&'static str]) -> Res {
        let pool: Pool = match c::read_pool(&self.svm, &c::pool(p)) {
            Some(x) => x,
            None => return bad(&["A11", "A13", "A17"], format!("pool {} is not readable", p)),
        };
        let mp = self.pools[p].clone();
        let mut with = |more: &[&'static str]| -> Tags {
            let mut t = tags.to_vec();
            t.extend_from_slice(more);
            t
        };
        let n = mp.n();
        let (amp, d) = c::curve(&pool);
        if pool.admin != who(admin_of(p))
            || pool.signer != signer(p)
            || pool.mint != lp_mint(p)
            || pool.program_toll_wallet != toll_wallet(p)
            || pool.dimension != n as u64
            || amp != mp.amp()
        {
            return Err(Mismatch { tags: with(&["A13", "A14", "A17"]), msg: format!("configuration of pool {}: {:?}", p, pool) });
        }
        if pool.swap_fee.permillion != mp.fee {
            return Err(Mismatch {
                tags: with(&["A14"]),
                msg: format!("swap fee of pool {} is {} instead of {}", p, pool.swap_fee.permillion, mp.fee),
            });
        }
        for (i, r) in pool.reserves.iter().enumerate() {
            if i >= n {
                if r.mint != Pubkey::default() || r.vault != Pubkey::default() || r.tokens.amount != 0 {
                    return Err(Mismatch { tags: with(&["A13"]), msg: format!("reserve {} of pool {}: {:?}", i, p, r) });
                }
                continue;
            }
            if r.mint != mint(mp.mints[i]) || r.vault != vault(p, mp.mints[i]) {
                return Err(Mismatch {
                    tags: with(&["A13", "A14", "A17"]),
                    msg: format!("reserve {} of pool {} is {:?}", i, p, r),
                });
            }
            if r.tokens.amount != mp.reserves[i] {
                return Err(Mismatch {
                    tags: with(&["A11"]),
                    msg: format!("reserve {} of pool {} is {} instead of {}", i, p, r.tokens.amount, mp.reserves[i]),
                });
            }
            let v = tok::amount(&self.svm, &r.vault);
            if v != mp.reserves[i] + mp.donated[i] {
                return Err(Mismatch {
                    tags: with(&["A11"]),
                    msg: format!(
                        "vault {} of pool {} holds {} for a reserve of {} and {} donated",
                        i, p, v, mp.reserves[i], mp.donated[i]
                    ),
                });
            }
        }
        let supply = tok::read_mint(&self.svm, &lp_mint(p)).map(|m| m.supply);
        if supply != Some(mp.supply) {
            return Err(Mismatch {
                tags: with(&["A11"]),
                msg: format!("LP supply of pool {} is {:?} instead of {}", p, supply, mp.supply),
            });
        }
        let held: u128 = (0..WHO).map(|u| self.bal(&lp_wallet(u, p)) as u128).sum::<u128>() + self.bal(&toll_wallet(p)) as u128;
        if held != mp.supply as u128 {
            return bad(&["A11"], format!("{} LP tokens of pool {} are held of {}", held, p, mp.supply));
        }
        // the stored invariant
        if mp.stable() && d != mp.d || mp.stable() && mp.reserves.iter().any(|v| *v == 0) {
            if mp.reserves.iter().any(|v| *v == 0) {
                if !d.is_zero() {
                    return bad(&["A04"], format!("invariant of an empty pool is {}", d));
                }
            } else {
                self.root_of(&mp, &d)?;
            }
        } else if mp.stable() {
            // it did not change, then neither did the reserves (or hardly)
            self.root_of(&mp, &d)?;
        }
        self.pools[p].d = d;
        Ok(())
    }

    fn root_of(&self, mp: &MPool, d: &Big) -> Res {
        let fine = curve::fine(&mp.reserves);
        let rel = precision(&mp.reserves);
        let slack = &part(d, rel) + &grain(&mp.reserves);
        let low = d.sat_sub(&(&slack + &(&curve::wad() / &b(2))));
        let high = d + &slack;
        if !curve::at_least(mp.amp(), &fine, &low) || curve::at_least(mp.amp(), &fine, &high) {
            return bad(
                &["A04", "A03"],
                format!(
                    "the invariant of {:?} amplified by {} is stored as {} instead of {} (e-18)",
                    mp.reserves,
                    mp.amp(),
                    d,
                    curve::root(mp.amp(), &fine)
                ),
            );
        }
        Ok(())
    }

    pub fn name(&self, k: &Pubkey) -> String {
        for w in 0..WHO {
            for m in 0..MINTS {
                if *k == wallet(w, m) {
                    return format!("wallet {} of {}", m, w);
                }
            }
            for p in 0..=POOLS {
                if *k == lp_wallet(w, p) {
                    return format!("LP wallet of {} of pool {}", w, p);
                }
            }
            if *k == who(w) {
                return format!("person {}", w);
            }
            if *k == discount(w) {
                return format!("discount of {}", w);
            }
        }
        for p in 0..=POOLS {
            if *k == c::pool(p) {
                return format!("pool {}", p);
            }
            if *k == signer(p) {
                return format!("signer of pool {}", p);
            }
            if *k == lp_mint(p) {
                return format!("LP mint of pool {}", p);
            }
            if *k == toll_wallet(p) {
                return format!("toll wallet of pool {}", p);
            }
            for m in 0..MINTS {
                if *k == vault(p, m) {
                    return format!("vault {} of pool {}", m, p);
                }
            }
        }
        for (k2, name) in [(toll(), "toll"), (settings(), "discount settings")] {
            if *k == k2 {
                return name.into();
            }
        }
        for name in ["fake pool", "fake toll wallet", "fake lp mint", "fake lp wallet", "fake discount", "fake toll", "fake settings"] {
            if *k == tok::key(name, 0) {
                return name.into();
            }
        }
        for m in 0..MINTS {
            if *k == mint(m) {
                return format!("mint {}", m);
            }
            if *k == tok::key("fake vault", 100 + m as u64) {
                return format!("fake vault {}", m);
            }
            if *k == tok::key("attacker vault", 100 + m as u64) {
                return format!("vault {} of the attacker", m);
            }
        }
        k.to_string()
    }
}

fn n_of(st: &Stats, k: &'static str) -> u64 {
    st.n.get(k).copied().unwrap_or(0)
}

pub fn save(svm: &Svm, ix: &Ix) -> Vec<(Pubkey, Option<Acct>)> {
    ix.metas.iter().map(|m| (m.pubkey, svm.get(&m.pubkey).cloned())).collect()
}

pub fn restore(svm: &mut Svm, saved: Vec<(Pubkey, Option<Acct>)>) {
    for (k, a) in saved {
        match a {
            Some(a) => {
                svm.accts.insert(k, a);
            }
            None => {
                svm.accts.remove(&k);
            }
        }
    }
}

/// Runs a case. Ok(false): there are no pools to speak of.
pub fn run(
    case: &Case,
    st: &mut Stats,
    after: &mut dyn FnMut(&mut World, &Op, &mut Stats) -> Res,
) -> (World, Res<bool>) {
    let mut w = World::new(&case.cfg);
    let r = (|| {
        if case.cfg.pools.is_empty() || !w.setup(st)? {
            st.hit("no_pool");
            return Ok(false);
        }
        for op in &case.ops {
            w.step(op, st)?;
            after(&mut w, op, st)?;
        }
        Ok(true)
    })();
    (w, r)
}
