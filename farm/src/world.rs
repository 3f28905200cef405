//! The reference model of the farming program and the stepping of both.
//!
//! Every operation is resolved against the model, which predicts whether the
//! program must accept it and what the accounts are afterwards. The only thing
//! the model does not predict to the token is how much harvest a settlement
//! credits (there is rounding in it): the model computes the exact share from
//! its own, unbounded history and asserts that the credited amount is within
//! the rounding of it, never above.
//!
//! A disagreement is tagged with the properties which it refutes. A check of a
//! property only reports disagreements tagged with it; any other ends the case
//! quietly.

use crate::client as c;
use crate::client::{farm, harvest_vault, mint, stake_vault, wallet, who, Ix};
use crate::ops::{Amt, Case, Cfg, Op, Start};
use anchor_lang::prelude::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use svm::pbt::Stats;
use svm::tok;
use svm::vm::{Fail, Svm};

pub type Tags = &'static [&'static str];

pub struct Mismatch {
    pub tags: Vec<&'static str>,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Mismatch>;

pub fn bad<T>(tags: &[&'static str], msg: String) -> Res<T> {
    Err(Mismatch { tags: tags.to_vec(), msg })
}

pub const RING: usize = 1000;
pub const PERIODS: usize = 10;
pub const MAX_HARVESTS: usize = 10;
pub const DEFAULT_WINDOW: u64 = 7200;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Period {
    pub tps: u64,
    pub start: u64,
    pub end: u64,
}

impl Period {
    pub fn emission(&self) -> u128 {
        self.tps as u128 * (self.end - self.start + 1) as u128
    }
}

#[derive(Clone, Debug)]
pub struct MHarvest {
    pub mint: usize,
    /// newest first, the ones the program remembers
    pub periods: Vec<Period>,
    /// newest first, the ones it was allowed to forget
    pub gone: Vec<Period>,
    /// credited to farmers by settlements since it was added
    pub credited: u128,
    pub donated: u64,
}

#[derive(Clone)]
pub struct MFarm {
    pub admin: usize,
    pub stake_mint: usize,
    pub window: u64,
    pub harvests: [Option<MHarvest>; MAX_HARVESTS],
    /// all of them: (slot, staked), ascending
    pub snaps: Vec<(u64, u64)>,
    pub donated: u64,
    /// mirror of the ring buffer
    pub ring: Vec<(u64, u64)>,
    pub tip: usize,
}

#[derive(Clone, Debug, Default)]
pub struct MFarmer {
    pub staked: u64,
    pub vested: u64,
    pub vested_at: u64,
    /// first slot which is not settled yet
    pub cursor: u64,
    pub accrued: BTreeMap<usize, u64>,
    /// the harvest mints as of the last settlement
    pub known: BTreeSet<usize>,
}

/// 60 fractional bits
const FIX: u32 = 60;

#[derive(Clone, Copy, Debug, Default)]
pub struct Band {
    pub lo: u128,
    pub hi_fix: u128,
    pub windows: u64,
}

impl Band {
    pub fn hi(&self) -> u128 {
        self.hi_fix >> FIX
    }
}

pub struct World {
    pub svm: Svm,
    pub cfg: Cfg,
    pub farms: Vec<MFarm>,
    pub farmers: BTreeMap<(usize, usize), MFarmer>,
    pub tokens: BTreeMap<Pubkey, u64>,
    pub wl: BTreeSet<(usize, usize)>,
    /// Never take a snapshot in a slot up to which somebody has settled already
    /// (see the known finding of F06).
    pub avoid_same_slot: bool,
    /// The property under scrutiny; where the program deviates from what other
    /// properties demand of settlements, its results are taken for granted.
    pub focus: &'static str,
    /// Snapshots are taken and periods opened in odd slots, everything else
    /// happens in even ones.
    pub parity: bool,
    /// credited by settlements: farm, farmer, mint
    pub earned: BTreeMap<(usize, usize, usize), u128>,
    pub last_trouble: Option<Fail>,
    /// harvests which the last settlement credited, by mint
    pub last_credit: BTreeMap<usize, u64>,
}

impl MFarm {
    pub fn harvest(&self, m: usize) -> Option<&MHarvest> {
        self.harvests.iter().flatten().find(|h| h.mint == m)
    }
    pub fn harvest_mut(&mut self, m: usize) -> Option<&mut MHarvest> {
        self.harvests.iter_mut().flatten().find(|h| h.mint == m)
    }
    pub fn min_window(&self) -> u64 {
        if self.window == 0 {
            DEFAULT_WINDOW
        } else {
            self.window
        }
    }
    pub fn last_snap(&self) -> u64 {
        self.snaps.last().map(|s| s.0).unwrap_or(0)
    }
    /// Start of the oldest snapshot in the buffer of the program, 0 if it has
    /// not wrapped yet.
    pub fn oldest_retained(&self) -> u64 {
        if self.snaps.len() < RING {
            0
        } else {
            self.snaps[self.snaps.len() - RING].0
        }
    }
    /// First snapshot strictly after the slot.
    pub fn snap_after(&self, slot: u64) -> Option<u64> {
        let i = self.snaps.partition_point(|s| s.0 <= slot);
        self.snaps.get(i).map(|s| s.0)
    }

    /// What a farmer is entitled to over the slots `from..to`, having `staked`
    /// and, from the slot `add.0` on, `add.1` on top of it.
    pub fn entitlement(
        &self,
        from: u64,
        to: u64,
        staked: u64,
        add: Option<(u64, u64)>,
    ) -> BTreeMap<usize, Band> {
        let mut out: BTreeMap<usize, Band> =
            self.harvests.iter().flatten().map(|h| (h.mint, Band::default())).collect();
        if from >= to {
            return out;
        }
        let retained = self.oldest_retained();
        let first = self.snaps.partition_point(|s| s.0 <= from).saturating_sub(1);
        for i in first..self.snaps.len() {
            let (start, total) = self.snaps[i];
            if start >= to {
                break;
            }
            let lo_slot = start.max(from);
            let hi_slot = self.snaps.get(i + 1).map(|s| s.0).unwrap_or(u64::MAX).min(to) - 1;
            if lo_slot > hi_slot || total == 0 {
                continue;
            }
            let have = match add {
                Some((at, more)) if start >= at => staked + more,
                _ => staked,
            };
            if have == 0 {
                continue;
            }
            for h in self.harvests.iter().flatten() {
                let b = out.get_mut(&h.mint).unwrap();
                let mut down = 0u128;
                let mut eps = 0u128;
                for p in h.periods.iter().chain(h.gone.iter()) {
                    let s = p.start.max(lo_slot);
                    let e = p.end.min(hi_slot);
                    if s > e || p.tps == 0 {
                        continue;
                    }
                    let emission = (e - s + 1) as u128 * p.tps as u128;
                    let num = emission * have as u128;
                    let t = total as u128;
                    let whole = (num / t) << FIX;
                    let rem = (num % t) << FIX;
                    b.hi_fix += whole + (rem + t - 1) / t;
                    down += whole + rem / t;
                    eps += (2 * emission + p.tps as u128 + 16) * 2;
                }
                if down > 0 {
                    b.windows += 1;
                    if start >= retained {
                        b.lo += down.saturating_sub(eps) >> FIX;
                    }
                }
            }
        }
        out
    }
}

impl World {
    pub fn new(case: &Case, avoid_same_slot: bool, focus: &'static str) -> World {
        let cfg = case.cfg.clone();
        let mut svm = c::new_svm();
        svm.slot = cfg.start_slot.max(1);
        let mut tokens = BTreeMap::new();
        let bal = 1u64 << cfg.scale.clamp(8, 60);
        for m in 0..c::MINTS {
            tok::mint(&mut svm, mint(m), None, None, bal * c::WHO as u64);
            for w in 0..c::WHO {
                // the attacker has some tokens as well
                let amount = bal - (w as u64 * 7 + m as u64) % 31;
                tok::account(&mut svm, wallet(w, m), mint(m), who(w), amount);
                tokens.insert(wallet(w, m), amount);
            }
        }
        World {
            svm,
            cfg,
            farms: vec![],
            farmers: BTreeMap::new(),
            tokens,
            wl: BTreeSet::new(),
            avoid_same_slot,
            focus,
            parity: false,
            earned: BTreeMap::new(),
            last_trouble: None,
            last_credit: BTreeMap::new(),
        }
    }

    pub fn slot(&self) -> u64 {
        self.svm.slot
    }

    fn bal(&self, k: &Pubkey) -> u64 {
        self.tokens.get(k).copied().unwrap_or(0)
    }

    /// Creates the farms and whatever else the configuration asks for, by way
    /// of the program.
    pub fn setup(&mut self, st: &mut Stats) -> Res {
        let cfg = self.cfg.clone();
        let n = cfg.farms.clamp(1, 2) as usize;
        for f in 0..n {
            let stake = if cfg.same_stake { 0 } else { f };
            let admin = 4 + f;
            c::put_blank_farm(&mut self.svm, f);
            let r = c::send(&mut self.svm, &c::create_farm(f, admin, stake));
            self.outcome(true, &["F16", "F18", "F09", "F10", "F15"], &["F16"], &r, || {
                format!("create_farm({})", f)
            })?;
            self.farms.push(MFarm {
                admin,
                stake_mint: stake,
                window: 0,
                harvests: Default::default(),
                snaps: vec![],
                donated: 0,
                ring: vec![(0, 0); RING],
                tip: 0,
            });
            self.tokens.insert(stake_vault(f), 0);
            self.compare_farm(f)?;
            self.step(&Op::SetWindow { f: f as u8, by: 0, slots: cfg.window }, st)?;
            for i in 0..cfg.harvests.min(11) {
                let m = if cfg.stake_is_harvest { i } else { i + 2 };
                self.step(&Op::AddHarvest { f: f as u8, m, by: 0 }, st)?;
            }
        }
        for f in 0..n as u8 {
            if cfg.prewrap > 0 {
                self.step(&Op::Snaps { f, n: cfg.prewrap, gap: 0 }, st)?;
            }
            for (u, amt) in cfg.joined.iter().enumerate() {
                self.step(&Op::CreateFarmer { f, u: u as u8, payer: 0 }, st)?;
                self.step(&Op::Stake { f, u: u as u8, by: 0, amt: *amt }, st)?;
            }
            if let Some((len, tps)) = cfg.period {
                for i in 0..cfg.harvests.min(3) {
                    let m = if cfg.stake_is_harvest { i } else { i + 2 };
                    let start = Start::Zero;
                    self.step(&Op::Period { f, m, by: 0, start, len, tps }, st)?;
                }
            }
        }
        Ok(())
    }

    /// Fails unless it is none of the business of the property under scrutiny.
    fn soft(&self, tags: &[&'static str], msg: String) -> Res {
        if self.focus.is_empty() || tags.contains(&self.focus) {
            Err(Mismatch { tags: tags.to_vec(), msg })
        } else {
            Ok(())
        }
    }

    /// Compares acceptance.
    fn outcome(
        &mut self,
        expected: bool,
        if_rejected: Tags,
        if_accepted: Tags,
        r: &Result<(), Fail>,
        what: impl Fn() -> String,
    ) -> Res {
        self.last_trouble = r.as_ref().err().cloned();
        match (expected, r) {
            (true, Err(e)) => {
                bad(if_rejected, format!("slot {}: {} must be accepted, but: {}", self.slot(), what(), e))
            }
            (false, Ok(())) => {
                bad(if_accepted, format!("slot {}: {} must be rejected, but it is accepted", self.slot(), what()))
            }
            // rejecting by a crash is no orderly rejection, but nothing changes
            _ => Ok(()),
        }
    }

    fn f(&self, f: u8) -> usize {
        f as usize % self.farms.len()
    }
    fn admin_or(&self, by: u8, f: usize) -> usize {
        if by == 0 {
            self.farms[f].admin
        } else {
            (by as usize - 1) % c::WHO
        }
    }
    fn or(&self, by: u8, rightful: usize) -> usize {
        if by == 0 {
            rightful
        } else {
            (by as usize - 1) % c::WHO
        }
    }

    fn mv(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) {
        *self.tokens.get_mut(from).unwrap() -= amount;
        *self.tokens.get_mut(to).unwrap() += amount;
    }

    /// Compares the token accounts which an instruction was given.
    fn compare_tokens(&self, ix: &Ix, tags: Tags, what: &str) -> Res {
        for m in &ix.metas {
            if let Some(want) = self.tokens.get(&m.pubkey) {
                let got = tok::read(&self.svm, &m.pubkey).map(|a| a.amount);
                if got != Some(*want) {
                    return bad(
                        tags,
                        format!(
                            "slot {}: after {} the balance of {} is {:?}, expected {}",
                            self.slot(),
                            what,
                            self.name(&m.pubkey),
                            got,
                            want
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    pub fn name(&self, k: &Pubkey) -> String {
        for f in 0..self.farms.len() {
            if *k == stake_vault(f) {
                return format!("stake vault of farm {}", f);
            }
            for m in 0..c::MINTS {
                if *k == harvest_vault(f, m) {
                    return format!("harvest vault {} of farm {}", m, f);
                }
            }
            for u in 0..c::USERS {
                if *k == c::farmer(f, u) {
                    return format!("farmer {} of farm {}", u, f);
                }
            }
        }
        for w in 0..c::WHO {
            for m in 0..c::MINTS {
                if *k == wallet(w, m) {
                    return format!("wallet of {} for mint {}", w, m);
                }
            }
        }
        k.to_string()
    }

    /// The farm account is what the model has.
    pub fn compare_farm(&self, f: usize) -> Res {
        let m = &self.farms[f];
        let a = match c::read_farm(&self.svm, f) {
            Some(a) => a,
            None => return bad(&["F16", "F09", "F10", "F15"], format!("farm {} is not readable", f)),
        };
        let slot = self.slot();
        if a.admin != who(m.admin) {
            return bad(&["F16"], format!("slot {}: farm {} has an unexpected admin", slot, f));
        }
        if a.stake_mint != mint(m.stake_mint) || a.stake_vault != stake_vault(f) {
            return bad(&["F16", "F01"], format!("slot {}: stake mint or vault of farm {} changed", slot, f));
        }
        if a.min_snapshot_window_slots != m.window {
            return bad(
                &["F16", "F09"],
                format!(
                    "slot {}: farm {} has min snapshot window {}, expected {}",
                    slot, f, a.min_snapshot_window_slots, m.window
                ),
            );
        }
        if a.snapshots.ring_buffer_tip as usize != m.tip {
            self.soft(
                &["F09"],
                format!("slot {}: farm {} has snapshot tip {}, expected {}", slot, f, a.snapshots.ring_buffer_tip, m.tip),
            )?;
        }
        for (i, s) in a.snapshots.ring_buffer.iter().enumerate() {
            if (s.started_at.slot, s.staked.amount) != m.ring[i] {
                self.soft(
                    &["F09"],
                    format!(
                        "slot {}: farm {} snapshot {} is {:?} (slot, staked), expected {:?}",
                        slot,
                        f,
                        i,
                        (s.started_at.slot, s.staked.amount),
                        m.ring[i]
                    ),
                )?;
            }
        }
        // harvest mints, in whatever order
        let got: BTreeSet<Pubkey> =
            a.harvests.iter().filter(|h| h.mint != Pubkey::default()).map(|h| h.mint).collect();
        let n = a.harvests.iter().filter(|h| h.mint != Pubkey::default()).count();
        let want: BTreeSet<Pubkey> = m.harvests.iter().flatten().map(|h| mint(h.mint)).collect();
        if got != want || n != want.len() {
            return bad(&["F15"], format!("slot {}: farm {} has harvest mints {:?}, expected {:?}", slot, f, got, want));
        }
        for h in m.harvests.iter().flatten() {
            let ah = a.harvests.iter().find(|x| x.mint == mint(h.mint)).unwrap();
            if ah.vault != harvest_vault(f, h.mint) {
                return bad(&["F15"], format!("slot {}: harvest {} of farm {} has another vault", slot, h.mint, f));
            }
            let got: Vec<Period> = ah
                .periods
                .iter()
                .map(|p| Period { tps: p.tps.amount, start: p.starts_at.slot, end: p.ends_at.slot })
                .collect();
            let mut want = h.periods.clone();
            want.resize(PERIODS, Period { tps: 0, start: 0, end: 0 });
            if got != want {
                self.soft(
                    &["F10", "F15"],
                    format!("slot {}: farm {} mint {} has periods {:?}, expected {:?}", slot, f, h.mint, got, want),
                )?;
            }
        }
        Ok(())
    }

    /// Stake numbers and the token side of the farmer (not its accrued harvest).
    fn compare_farmer(&self, f: usize, u: usize, tags: Tags, what: &str) -> Res {
        let a = match c::read_farmer(&self.svm, f, u) {
            Some(a) => a,
            None => return bad(tags, format!("slot {}: farmer {} of farm {} is gone after {}", self.slot(), u, f, what)),
        };
        let m = &self.farmers[&(f, u)];
        if a.authority != who(u) || a.farm != farm(f) {
            return bad(&["F17", "F14", "F02"], format!("slot {}: farmer {} of farm {} changed hands", self.slot(), u, f));
        }
        if (a.staked.amount, a.vested.amount) != (m.staked, m.vested) {
            let mut tags = tags.to_vec();
            if a.staked.amount as u128 + a.vested.amount as u128 != m.staked as u128 + m.vested as u128 {
                tags.extend(["F01", "F02"]);
            }
            return bad(
                &tags,
                format!(
                    "slot {}: after {} farmer {} of farm {} has (staked, vested) {:?}, expected {:?}",
                    self.slot(),
                    what,
                    u,
                    f,
                    (a.staked.amount, a.vested.amount),
                    (m.staked, m.vested)
                ),
            );
        }
        Ok(())
    }

    /// Verifies what the program did to bring the farmer up to date, and adopts
    /// it: the cursor, the credited harvest, the promotion of vested stake.
    ///
    /// `until`: the slot up to which (inclusive) it had to. `moved`: accrued
    /// harvest that left the farmer in the same instruction, by mint.
    fn settle(&mut self, f: usize, u: usize, until: u64, moved: Option<(usize, u64)>, st: &mut Stats) -> Res {
        let now = self.slot();
        let old = self.farmers[&(f, u)].clone();
        let a = match c::read_farmer(&self.svm, f, u) {
            Some(a) => a,
            None => return bad(&["F03", "F14"], format!("slot {}: farmer {} of farm {} is gone", now, u, f)),
        };
        let cursor = a.calculate_next_harvest_from.slot;
        let name = |s: &str| format!("slot {}: farmer {} of farm {}: {}", now, u, f, s);

        // vested stake becomes earning stake with the first snapshot after it
        // was deposited
        // (or the oldest one which is remembered)
        let promotion = if old.vested != 0 { self.farms[f].snap_after(old.vested_at) } else { None };
        let lost = promotion.map(|s| s < self.farms[f].oldest_retained()).unwrap_or(false);
        let promotion = promotion.map(|s| s.max(self.farms[f].oldest_retained()));
        let must_promote = promotion.map(|s| s <= until).unwrap_or(false);
        let mut m = old.clone();
        // an update which stops before the snapshot may leave them vested
        let may_promote = promotion.is_some();
        let promoted = must_promote || (may_promote && a.vested.amount != old.vested);
        if promoted {
            m.staked += m.vested;
            m.vested = 0;
            st.hit("promoted");
            if lost {
                st.hit("promoted_after_lost_history");
            }
        }

        if cursor < old.cursor {
            self.soft(
                &["F07"],
                name(&format!("was settled up to slot {}, now only up to {}", old.cursor, cursor)),
            )?;
        }
        let latest = until.max(if promoted { promotion.unwrap().saturating_sub(1) } else { 0 });
        if cursor > old.cursor && cursor > (latest + 1).max(old.cursor) {
            self.soft(
                &["F07", "F03"],
                name(&format!("settled up to slot {} exclusive, which is beyond {}", cursor, latest)),
            )?;
        }
        if cursor <= until {
            self.soft(
                &["F03", "F04"],
                name(&format!("only settled up to slot {} exclusive although asked for {}", cursor, until)),
            )?;
        }

        let bands = self.farms[f].entitlement(
            old.cursor,
            cursor,
            old.staked,
            if promoted { Some((promotion.unwrap(), old.vested)) } else { None },
        );
        self.last_credit.clear();
        let mut accrued = BTreeMap::new();
        for (mi, band) in &bands {
            let before = old.accrued.get(mi).copied().unwrap_or(0);
            let left = match moved {
                Some((mm, x)) if mm == *mi => x,
                _ => 0,
            };
            let after = c::accrued(&a, &mint(*mi)).unwrap_or(0);
            let got = after as i128 + left as i128 - before as i128;
            let (lo, hi) = (band.lo as i128, band.hi() as i128);
            if got > hi || got < lo {
                let mut tags = if got > hi { vec!["F03", "F07"] } else { vec!["F03"] };
                if old.vested != 0 || old.vested_at > 0 && old.vested_at + 1 >= old.cursor {
                    tags.push("F05");
                }
                if got < 0 || hi == 0 {
                    // what was owed of it is mixed up
                    tags.push("F15");
                }
                self.soft(
                    &tags,
                    name(&format!(
                        "credited {} of mint {} for the slots {}..{}, entitled to {}..={}",
                        got, mi, old.cursor, cursor, lo, hi
                    )),
                )?;
            }
            if got > 0 {
                st.hit("credited");
                if band.windows > 1 {
                    st.hit("credited_over_several_windows");
                }
                self.last_credit.insert(*mi, got as u64);
            }
            if let Some(h) = self.farms[f].harvest_mut(*mi) {
                h.credited += got.max(0) as u128;
            }
            *self.earned.entry((f, u, *mi)).or_default() += got.max(0) as u128;
            accrued.insert(*mi, after);
        }
        // a mint which is no longer harvested
        for (mi, x) in &old.accrued {
            if !bands.contains_key(mi) {
                accrued.insert(*mi, c::accrued(&a, &mint(*mi)).unwrap_or(0).min(*x));
            }
        }
        // nothing was invented
        for h in &a.harvests {
            if h.tokens.amount > 0 && !(0..c::MINTS).any(|i| mint(i) == h.mint && accrued.contains_key(&i)) {
                self.soft(&["F03"], name("has harvest of a mint which is not harvested"))?;
            }
        }
        m.accrued = accrued;
        m.cursor = cursor;
        if cursor > old.cursor || promoted {
            m.known = self.farms[f].harvests.iter().flatten().map(|h| h.mint).collect();
        }
        if cursor > old.cursor {
            st.hit("settled");
        }
        self.farmers.insert((f, u), m);
        Ok(())
    }

    /// Accrued harvest did not change, for operations which do not settle.
    fn compare_accrued(&self, f: usize, u: usize, tags: Tags, what: &str) -> Res {
        let a = match c::read_farmer(&self.svm, f, u) {
            Some(a) => a,
            None => return bad(tags, format!("farmer {} of farm {} is gone after {}", u, f, what)),
        };
        let m = &self.farmers[&(f, u)];
        for i in 0..c::MINTS {
            let want = m.accrued.get(&i).copied().unwrap_or(0);
            let got = c::accrued(&a, &mint(i)).unwrap_or(0);
            if want != got {
                return bad(
                    tags,
                    format!(
                        "slot {}: after {} farmer {} of farm {} has accrued {} of mint {}, expected {}",
                        self.slot(),
                        what,
                        u,
                        f,
                        got,
                        i,
                        want
                    ),
                );
            }
        }
        Ok(())
    }

    pub fn stake_sum(&self, f: usize) -> u128 {
        self.farmers
            .iter()
            .filter(|((ff, _), _)| *ff == f)
            .map(|(_, m)| m.staked as u128 + m.vested as u128)
            .sum()
    }

    pub fn accrued_sum(&self, f: usize, m: usize) -> u128 {
        self.farmers
            .iter()
            .filter(|((ff, _), _)| *ff == f)
            .map(|(_, x)| x.accrued.get(&m).copied().unwrap_or(0) as u128)
            .sum()
    }

    /// The stake vaults hold what the farmers have deposited, as read from the
    /// accounts.
    pub fn stakes_backed(&self) -> Res {
        for f in 0..self.farms.len() {
            let stakes: u128 = (0..c::USERS)
                .filter_map(|u| c::read_farmer(&self.svm, f, u))
                .map(|a| a.staked.amount as u128 + a.vested.amount as u128)
                .sum();
            let vault = tok::amount(&self.svm, &stake_vault(f)) as u128;
            if vault != stakes + self.farms[f].donated as u128 {
                return bad(
                    &["F01"],
                    format!(
                        "slot {}: stake vault of farm {} has {} tokens, but farmers have {} deposited (and {} were donated)",
                        self.slot(),
                        f,
                        vault,
                        stakes,
                        self.farms[f].donated
                    ),
                );
            }
        }
        Ok(())
    }

    /// The harvest vaults cover what farmers have accrued, as read from the
    /// accounts.
    pub fn accruals_backed(&self) -> Res {
        for f in 0..self.farms.len() {
            for m in 0..c::MINTS {
                let owed: u128 = (0..c::USERS)
                    .filter_map(|u| c::read_farmer(&self.svm, f, u))
                    .map(|a| c::accrued(&a, &mint(m)).unwrap_or(0) as u128)
                    .sum();
                let vault = tok::amount(&self.svm, &harvest_vault(f, m)) as u128;
                if owed > vault {
                    return bad(
                        &["F06"],
                        format!(
                            "slot {}: harvest vault {} of farm {} has {} tokens, but farmers have accrued {}",
                            self.slot(),
                            m,
                            f,
                            vault,
                            owed
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    /// Invariants over all the accounts of the program, read from the accounts
    /// themselves.
    pub fn invariants(&self) -> Res {
        self.stakes_backed()?;
        for f in 0..self.farms.len() {
            let mut accrued: BTreeMap<usize, u128> = BTreeMap::new();
            for u in 0..c::USERS {
                if let Some(a) = c::read_farmer(&self.svm, f, u) {
                    for i in 0..c::MINTS {
                        *accrued.entry(i).or_default() += c::accrued(&a, &mint(i)).unwrap_or(0) as u128;
                    }
                }
            }
            for h in self.farms[f].harvests.iter().flatten() {
                let vault = tok::amount(&self.svm, &harvest_vault(f, h.mint)) as u128;
                let future: u128 = h
                    .periods
                    .iter()
                    .filter(|p| p.end > self.slot())
                    .map(|p| (p.end - p.start.max(self.slot() + 1) + 1) as u128 * p.tps as u128)
                    .sum();
                let owed = accrued.get(&h.mint).copied().unwrap_or(0);
                if vault < owed + future + h.donated as u128 {
                    return bad(
                        &["F06"],
                        format!(
                            "slot {}: harvest vault {} of farm {} has {} tokens, but farmers have accrued {} and {} are yet to be emitted ({} donated)",
                            self.slot(), h.mint, f, vault, owed, future, h.donated
                        ),
                    );
                }
                let emitted: u128 = h
                    .periods
                    .iter()
                    .chain(h.gone.iter())
                    .filter(|p| p.start <= self.slot())
                    .map(|p| (p.end.min(self.slot()) - p.start + 1) as u128 * p.tps as u128)
                    .sum();
                if h.credited > emitted {
                    return bad(
                        &["F06"],
                        format!(
                            "slot {}: farm {} credited {} of mint {} to its farmers, but only emitted {}",
                            self.slot(), f, h.credited, h.mint, emitted
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    pub fn step(&mut self, op: &Op, st: &mut Stats) -> Res {
        let slot = self.slot();
        st.note(|| format!("slot {}: {:?}", slot, op));
        let r = self.step_inner(op, st);
        if let Some(t) = self.last_trouble.take() {
            st.note(|| format!("    rejected: {}", t));
        }
        r
    }

    /// See `parity`.
    pub fn even(&mut self) {
        if self.parity {
            self.svm.slot += self.svm.slot & 1;
        }
    }

    fn step_inner(&mut self, op: &Op, st: &mut Stats) -> Res {
        if !matches!(op, Op::Warp(_) | Op::Snap { .. } | Op::Snaps { .. } | Op::Period { .. } | Op::Periods { .. }) {
            self.even();
        }
        let now = self.slot();
        match op.clone() {
            Op::Warp(n) => {
                self.svm.slot = (now + n as u64).min(1 << 62);
                Ok(())
            }
            Op::Snap { f, wait, extra } => {
                let f = self.f(f);
                self.snap(f, wait, extra as u64, st)?;
                self.compare_farm(f)
            }
            Op::Snaps { f, n, gap } => {
                let f = self.f(f);
                for _ in 0..n {
                    self.snap(f, true, gap as u64, st)?;
                }
                self.compare_farm(f)
            }
            Op::SetWindow { f, by, slots } => {
                let f = self.f(f);
                let by = self.admin_or(by, f);
                let ok = by == self.farms[f].admin;
                let r = c::send(&mut self.svm, &c::set_window(f, by, slots as u64));
                self.outcome(ok, &["F16"], &["F16"], &r, || format!("set_min_snapshot_window by {}", by))?;
                if ok {
                    self.farms[f].window = slots as u64;
                    self.compare_farm(f)?;
                } else {
                    st.hit("unauthorised_attempt");
                }
                Ok(())
            }
            Op::SetOwner { f, by, new, cosign } => {
                let f = self.f(f);
                let by = self.admin_or(by, f);
                let new = new as usize % c::WHO;
                let mut ix = c::set_farm_owner(f, by, new);
                if !cosign && new != by {
                    ix = c::unsigned(ix, new);
                }
                let ok = by == self.farms[f].admin && (cosign || new == by);
                let r = c::send(&mut self.svm, &ix);
                self.outcome(ok, &["F16"], &["F16"], &r, || {
                    format!("set_farm_owner by {} to {} (cosigned: {})", by, new, cosign)
                })?;
                if ok {
                    self.farms[f].admin = new;
                    st.hit("owner_changed");
                    self.compare_farm(f)?;
                } else {
                    st.hit("unauthorised_attempt");
                }
                Ok(())
            }
            Op::AddHarvest { f, m, by } => {
                let f = self.f(f);
                let m = m as usize % c::MINTS;
                let by = self.admin_or(by, f);
                let fm = &self.farms[f];
                let auth = by == fm.admin;
                let ok = auth
                    && fm.harvest(m).is_none()
                    && fm.harvests.iter().any(|h| h.is_none());
                let ix = c::add_harvest(f, by, m);
                let r = c::send(&mut self.svm, &ix);
                let tags: Tags = if auth { &["F15"] } else { &["F16"] };
                self.outcome(ok, &["F15"], tags, &r, || format!("add_harvest {} by {}", m, by))?;
                if ok {
                    let free = self.farms[f].harvests.iter_mut().find(|h| h.is_none()).unwrap();
                    *free = Some(MHarvest { mint: m, periods: vec![], gone: vec![], credited: 0, donated: 0 });
                    self.tokens.insert(harvest_vault(f, m), 0);
                    st.hit("harvest_added");
                    self.compare_farm(f)?;
                    self.compare_tokens(&ix, &["F15"], "add_harvest")?;
                    let v = tok::read(&self.svm, &harvest_vault(f, m)).unwrap();
                    if v.mint != mint(m) || v.owner != c::signer(f) {
                        return bad(&["F15"], format!("harvest vault {} of farm {} is not controlled by the farm", m, f));
                    }
                } else if !auth {
                    st.hit("unauthorised_attempt");
                } else {
                    st.hit("harvest_add_rejected");
                }
                Ok(())
            }
            Op::RemoveHarvest { f, m, by } => {
                let f = self.f(f);
                let m = m as usize % c::MINTS;
                let by = self.admin_or(by, f);
                let fm = &self.farms[f];
                let auth = by == fm.admin;
                let exists = fm.harvest(m).is_some();
                let empty = self.bal(&harvest_vault(f, m)) == 0;
                let ok = auth && exists && empty;
                let ix = c::remove_harvest(f, by, m);
                let r = c::send(&mut self.svm, &ix);
                let tags: Tags = if auth { &["F15", "F06"] } else { &["F16"] };
                self.outcome(ok, &["F15"], tags, &r, || {
                    format!("remove_harvest {} by {} (empty: {})", m, by, empty)
                })?;
                if ok {
                    for h in self.farms[f].harvests.iter_mut() {
                        if h.as_ref().map(|h| h.mint) == Some(m) {
                            *h = None;
                        }
                    }
                    self.tokens.remove(&harvest_vault(f, m));
                    for x in self.farmers.iter_mut().filter(|x| x.0 .0 == f) {
                        x.1.known.remove(&m);
                    }
                    st.hit("harvest_removed");
                    if self.svm.get(&harvest_vault(f, m)).is_some() {
                        return bad(&["F15"], format!("harvest vault {} of farm {} is still open", m, f));
                    }
                    self.compare_farm(f)?;
                } else if !auth {
                    st.hit("unauthorised_attempt");
                } else if exists {
                    st.hit("harvest_removal_rejected");
                }
                Ok(())
            }
            Op::Period { f, m, by, start, len, tps } => self.period(f, m, by, start, len, tps, st),
            Op::Periods { f, m, n, len, tps } => {
                for _ in 0..n {
                    self.period(f, m, 0, Start::Zero, len as u32, Amt::Small(tps as u16), st)?;
                    self.svm.slot += len as u64;
                }
                Ok(())
            }
            Op::CreateFarmer { f, u, payer } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                let payer = self.or(payer, u);
                let ok = !self.farmers.contains_key(&(f, u));
                let r = c::send(&mut self.svm, &c::create_farmer(f, u, payer));
                self.outcome(ok, &["F14"], &["F14", "F17"], &r, || format!("create_farmer {} on farm {}", u, f))?;
                if ok {
                    self.farmers.insert((f, u), MFarmer::default());
                    st.hit("farmer_created");
                    self.compare_farmer(f, u, &["F14"], "create_farmer")?;
                    self.compare_accrued(f, u, &["F14"], "create_farmer")?;
                }
                Ok(())
            }
            Op::Close { f, u, by } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                let by = self.or(by, u);
                let m = match self.farmers.get(&(f, u)) {
                    Some(m) => m.clone(),
                    None => return Ok(()),
                };
                let empty = m.staked == 0 && m.vested == 0 && m.accrued.values().all(|x| *x == 0);
                // an entry of a removed mint may still be on the account
                let ok = by == u && empty;
                let rent = self.svm.get(&c::farmer(f, u)).map(|a| a.lamports).unwrap_or(0);
                let before = self.svm.get(&who(by)).unwrap().lamports;
                let r = c::send(&mut self.svm, &c::close_farmer(f, u, by));
                let tags: Tags = if m.staked + m.vested > 0 {
                    &["F14", "F01", "F02"]
                } else if !empty {
                    &["F14", "F08", "F15"]
                } else {
                    &["F14"]
                };
                self.outcome(ok, &["F14"], tags, &r, || {
                    format!(
                        "close_farmer {} of farm {} by {} (staked {}, vested {}, accrued {:?})",
                        u, f, by, m.staked, m.vested, m.accrued
                    )
                })?;
                if ok {
                    self.farmers.remove(&(f, u));
                    st.hit("farmer_closed");
                    let after = self.svm.get(&who(by)).unwrap().lamports;
                    if self.svm.get(&c::farmer(f, u)).is_some() || after != before + rent {
                        return bad(&["F14"], format!("closing farmer {} of farm {} left something behind", u, f));
                    }
                } else {
                    st.hit("close_rejected");
                }
                Ok(())
            }
            Op::Stake { f, u, by, amt } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                let by = self.or(by, u);
                let sm = self.farms[f].stake_mint;
                let have = self.bal(&wallet(by, sm));
                let amount = amt.of(have);
                let ok = self.farmers.contains_key(&(f, u)) && amount > 0 && amount <= have;
                let ix = c::start_farming(f, u, by, sm, amount);
                let r = c::send(&mut self.svm, &ix);
                self.outcome(ok, &["F02", "F18"], &["F02", "F01"], &r, || {
                    format!("start_farming {} of {} for farmer {} of farm {}", amount, have, u, f)
                })?;
                if ok {
                    self.settle(f, u, now, None, st)?;
                    let m = self.farmers.get_mut(&(f, u)).unwrap();
                    if m.vested > 0 {
                        st.hit("staked_on_top_of_vested");
                    }
                    m.vested += amount;
                    m.vested_at = now;
                    st.hit("staked");
                    self.mv(&wallet(by, sm), &stake_vault(f), amount);
                    self.compare_farmer(f, u, &["F02", "F05"], "start_farming")?;
                    self.compare_tokens(&ix, &["F02", "F01"], "start_farming")?;
                }
                Ok(())
            }
            Op::Unstake { f, u, by, amt } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                let by = self.or(by, u);
                let have = self
                    .farmers
                    .get(&(f, u))
                    .map(|m| m.staked + m.vested)
                    .unwrap_or(0);
                let max = amt.of(have);
                self.unstake(f, u, by, max, st)
            }
            Op::Update { f, u } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                self.update(f, u, None, st)
            }
            Op::UpdateUntil { f, u, until } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                let until = (now as i128 + until as i128).max(0) as u64;
                self.update(f, u, Some(until), st)
            }
            Op::Claim { f, u, by, mask, to, shape } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                let by = self.or(by, u);
                let to = self.or(to, u);
                let mints: Vec<usize> = self.farms[f]
                    .harvests
                    .iter()
                    .flatten()
                    .enumerate()
                    .filter(|(i, _)| mask >> i & 1 == 1)
                    .map(|(_, h)| h.mint)
                    .collect();
                let mints = shaped(mints, shape);
                self.claim(f, u, by, to, &mints, st)
            }
            Op::Airdrop { f, u, m, by, amt } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                let m = m as usize % c::MINTS;
                let by = self.or(by, u);
                let have = self.bal(&wallet(by, m));
                let amount = amt.of(have);
                // one which was settled since the mint is harvested has a place
                // for it, the others might
                let known = self.farmers.get(&(f, u)).map(|x| x.known.contains(&m)).unwrap_or(false);
                let slot_exists = known
                    || c::read_farmer(&self.svm, f, u).map(|a| c::accrued(&a, &mint(m)).is_some()).unwrap_or(false);
                let vault = self.tokens.contains_key(&harvest_vault(f, m));
                let ok = slot_exists && vault && amount > 0 && amount <= have;
                let ix = c::airdrop(f, u, by, m, amount);
                let r = c::send(&mut self.svm, &ix);
                self.outcome(ok, &["F13"], &["F13"], &r, || {
                    format!("airdrop {} of mint {} to farmer {} of farm {}", amount, m, u, f)
                })?;
                if ok {
                    *self.farmers.get_mut(&(f, u)).unwrap().accrued.entry(m).or_default() += amount;
                    self.mv(&wallet(by, m), &harvest_vault(f, m), amount);
                    st.hit("airdropped");
                    self.compare_farmer(f, u, &["F13"], "airdrop")?;
                    self.compare_accrued(f, u, &["F13"], "airdrop")?;
                    let cur = c::read_farmer(&self.svm, f, u).unwrap().calculate_next_harvest_from.slot;
                    if cur != self.farmers[&(f, u)].cursor {
                        return bad(&["F13", "F07"], format!("slot {}: an airdrop moved the cursor of farmer {}", now, u));
                    }
                    self.compare_tokens(&ix, &["F13"], "airdrop")?;
                }
                Ok(())
            }
            Op::CompSame { f, u } => {
                let f = self.f(f);
                let u = u as usize % c::USERS;
                self.compound(f, f, u, u, st)
            }
            Op::CompAcross { s, t, su, tu } => {
                let (s, t) = (self.f(s), self.f(t));
                self.compound_across(s, t, su as usize % c::USERS, tu as usize % c::USERS, st)
            }
            Op::Whitelist { s, t, by } => {
                let (s, t) = (self.f(s), self.f(t));
                let by = self.admin_or(by, s);
                let auth = by == self.farms[s].admin;
                let ok = auth && !self.wl.contains(&(s, t));
                let r = c::send(&mut self.svm, &c::whitelist_farm(s, t, by));
                let tags: Tags = if auth { &["F12"] } else { &["F16", "F12"] };
                self.outcome(ok, &["F12"], tags, &r, || format!("whitelist {} -> {} by {}", s, t, by))?;
                if ok {
                    self.wl.insert((s, t));
                    st.hit("whitelisted");
                } else if !auth {
                    st.hit("unauthorised_attempt");
                }
                Ok(())
            }
            Op::Dewhitelist { s, t, by } => {
                let (s, t) = (self.f(s), self.f(t));
                let by = self.admin_or(by, s);
                let auth = by == self.farms[s].admin;
                let ok = auth && self.wl.contains(&(s, t));
                let r = c::send(&mut self.svm, &c::dewhitelist_farm(s, t, by));
                let tags: Tags = if auth { &["F12"] } else { &["F16", "F12"] };
                self.outcome(ok, &["F12"], tags, &r, || format!("dewhitelist {} -> {} by {}", s, t, by))?;
                if ok {
                    self.wl.remove(&(s, t));
                    st.hit("dewhitelisted");
                } else if !auth {
                    st.hit("unauthorised_attempt");
                }
                Ok(())
            }
            Op::DonateStake { f, amt } => {
                let f = self.f(f);
                let sm = self.farms[f].stake_mint;
                let (from, to) = (wallet(6, sm), stake_vault(f));
                if self.bal(&from) >= amt as u64 {
                    self.raw_transfer(&from, &to, amt as u64);
                    self.farms[f].donated += amt as u64;
                    st.hit("donated");
                }
                Ok(())
            }
            Op::DonateHarvest { f, m, amt } => {
                let f = self.f(f);
                let m = m as usize % c::MINTS;
                if self.farms[f].harvest(m).is_none() || self.bal(&wallet(6, m)) < amt as u64 {
                    return Ok(());
                }
                let (from, to) = (wallet(6, m), harvest_vault(f, m));
                self.raw_transfer(&from, &to, amt as u64);
                self.farms[f].harvest_mut(m).unwrap().donated += amt as u64;
                st.hit("donated");
                Ok(())
            }
            Op::Dust { f, kind, x, lamports } => {
                let f = self.f(f);
                let k = match kind % 3 {
                    0 => c::farmer(f, x as usize % c::USERS),
                    1 => harvest_vault(f, x as usize % c::MINTS),
                    _ => c::whitelist(f, self.f(x)),
                };
                st.hit(if self.svm.get(&k).is_some() { "more_lamports" } else { "dust" });
                self.svm.give(k, lamports as u64);
                Ok(())
            }
            Op::ClaimAll { f } => {
                let f = self.f(f);
                let mints: Vec<usize> = self.farms[f].harvests.iter().flatten().map(|h| h.mint).collect();
                for u in 0..c::USERS {
                    if self.farmers.contains_key(&(f, u)) {
                        self.update(f, u, None, st)?;
                        self.claim(f, u, u, u, &mints, st)?;
                    }
                }
                Ok(())
            }
            Op::ExitAll { f } => {
                let f = self.f(f);
                for u in 0..c::USERS {
                    if self.farmers.contains_key(&(f, u)) {
                        self.unstake(f, u, u, u64::MAX, st)?;
                    }
                }
                Ok(())
            }
        }
    }

    /// Somebody transfers tokens by the token program.
    fn raw_transfer(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) {
        let mut a = tok::read(&self.svm, from).unwrap();
        a.amount -= amount;
        tok::set(&mut self.svm, *from, a);
        tok::add(&mut self.svm, to, amount);
        self.mv(from, to, amount);
    }

    fn snap(&mut self, f: usize, wait: bool, extra: u64, st: &mut Stats) -> Res {
        let fm = &self.farms[f];
        let allowed = fm.last_snap() + fm.min_window();
        if wait {
            self.svm.slot = self.svm.slot.max(allowed) + extra;
        }
        if self.parity {
            self.svm.slot |= 1;
        }
        if self.avoid_same_slot
            && self.farmers.iter().any(|((ff, _), m)| *ff == f && m.cursor > self.svm.slot)
        {
            st.hit("excluded_same_slot");
            self.svm.slot += 1;
        }
        let now = self.slot();
        let ok = now >= allowed;
        let r = c::send(&mut self.svm, &c::take_snapshot(f));
        let last = self.farms[f].last_snap();
        let win = self.farms[f].min_window();
        self.outcome(ok, &["F09", "F18"], &["F09"], &r, || {
            format!("take_snapshot on farm {} (last at {}, min window {})", f, last, win)
        })?;
        if ok {
            let staked = self.bal(&stake_vault(f));
            let fm = &mut self.farms[f];
            fm.snaps.push((now, staked));
            fm.tip = (fm.tip + 1) % RING;
            fm.ring[fm.tip] = (now, staked);
            st.hit("snapshot");
            if fm.snaps.len() >= RING {
                st.hit("snapshot_wrapped");
            }
        } else {
            st.hit("snapshot_too_early");
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn period(&mut self, f: u8, m: u8, by: u8, start: Start, len: u32, tps: Amt, st: &mut Stats) -> Res {
        if self.parity {
            self.svm.slot |= 1;
        }
        let now = self.slot();
        let f = self.f(f);
        let m = m as usize % c::MINTS;
        let by = self.admin_or(by, f);
        let auth = by == self.farms[f].admin;
        let fm = &self.farms[f];
        let newest_end = fm.harvest(m).and_then(|h| h.periods.first()).map(|p| p.end).unwrap_or(0);
        let starts_at = match start {
            Start::Zero => 0,
            Start::Now(d) => (now as i128 + d as i128).max(0) as u64,
            Start::End(d) => (newest_end as i128 + 1 + d as i128).max(0) as u64,
        };
        let len = len as u64;
        let have = self.bal(&wallet(by, m));
        let tps = match tps {
            Amt::Frac(n) => Amt::Frac(n).of(have / len.max(1)),
            Amt::Over(n) => (have / len.max(1)).saturating_add(n as u64),
            t => t.of(have),
        };
        let real_start = if starts_at == 0 { now } else { starts_at };
        let end = (real_start as u128 + len as u128).saturating_sub(1);
        let p = Period { tps, start: real_start, end: end.min(u64::MAX as u128) as u64 };

        let mut why = None;
        let mut overwritten = None;
        let mut evicted = false;
        if !auth {
            why = Some(("not the admin", &["F16"] as Tags));
        } else if fm.harvest(m).is_none() {
            why = Some(("no such harvest", &["F10", "F15"] as Tags));
        } else if len == 0 || real_start < now || end > u64::MAX as u128 || p.start >= p.end {
            // note that a single slot period is rejected
            why = Some(("malformed period", &["F10"] as Tags));
        } else {
            let h = fm.harvest(m).unwrap();
            let started = h.periods.iter().find(|x| x.start <= now);
            if started.map(|x| x.end >= p.start).unwrap_or(false) {
                why = Some(("overlaps a period which has started", &["F10"] as Tags));
            } else if h.periods.first().map(|x| x.start > now).unwrap_or(false) {
                overwritten = h.periods.first().copied();
            } else if h.periods.len() == PERIODS {
                // only what no remembered snapshot refers to may be forgotten
                let oldest = h.periods[PERIODS - 1];
                if oldest.end >= fm.oldest_retained() {
                    why = Some(("the oldest period is still referred to by snapshots", &["F10", "F03"] as Tags));
                } else {
                    evicted = true;
                }
            }
        }
        if why.is_none() && len == 1 {
            why = Some(("a single slot", &["F10"] as Tags));
        }
        let paid = overwritten.map(|x: Period| x.emission()).unwrap_or(0);
        if why.is_none() {
            let due = p.emission();
            if due > u64::MAX as u128 || due > paid && due - paid > have as u128 {
                why = Some(("not funded", &["F11", "F06"] as Tags));
            }
        }
        let ix = c::new_period(f, by, m, starts_at, len, tps);
        let r = c::send(&mut self.svm, &ix);
        let tags = why.map(|w| w.1).unwrap_or(&[]);
        self.outcome(why.is_none(), &["F10", "F11"], tags, &r, || {
            format!(
                "new_harvest_period {:?} of mint {} by {} ({})",
                p,
                m,
                by,
                why.map(|w| w.0).unwrap_or("valid")
            )
        })?;
        if let Some((w, _)) = why {
            match w {
                "not the admin" => st.hit("unauthorised_attempt"),
                "not funded" => st.hit("period_not_funded"),
                "overlaps a period which has started" => st.hit("period_overlap_rejected"),
                "the oldest period is still referred to by snapshots" => st.hit("period_limit_rejected"),
                _ => st.hit("period_rejected"),
            }
            return Ok(());
        }
        let h = self.farms[f].harvest_mut(m).unwrap();
        if overwritten.is_some() {
            st.hit("scheduled_period_overwritten");
            h.periods[0] = p;
        } else {
            if evicted {
                st.hit("period_evicted");
                let gone = h.periods.pop().unwrap();
                h.gone.insert(0, gone);
            }
            h.periods.insert(0, p);
            st.hit("period_opened");
        }
        let due = p.emission() as u64;
        let paid = paid as u64;
        if due >= paid {
            self.mv(&wallet(by, m), &harvest_vault(f, m), due - paid);
        } else {
            if self.bal(&harvest_vault(f, m)) < paid - due {
                return bad(&["F06", "F11"], format!("slot {}: the vault cannot refund a scheduled period", now));
            }
            st.hit("period_refunded");
            self.mv(&harvest_vault(f, m), &wallet(by, m), paid - due);
        }
        self.compare_tokens(&ix, &["F11"], "new_harvest_period")?;
        self.compare_farm(f)
    }

    pub fn update(&mut self, f: usize, u: usize, until: Option<u64>, st: &mut Stats) -> Res {
        let now = self.slot();
        let ok = self.farmers.contains_key(&(f, u));
        let ix = match until {
            None => c::update(f, u),
            Some(t) => c::update_until(f, u, t),
        };
        let r = c::send(&mut self.svm, &ix);
        self.outcome(ok, &["F18", "F03"], &["F17"], &r, || {
            format!("update_eligible_harvest of farmer {} of farm {} (until {:?})", u, f, until)
        })?;
        if ok {
            self.settle(f, u, until.unwrap_or(now).min(now), None, st)?;
            self.compare_farmer(f, u, &["F05"], "update_eligible_harvest")?;
        }
        Ok(())
    }

    pub fn unstake(&mut self, f: usize, u: usize, by: usize, max: u64, st: &mut Stats) -> Res {
        let now = self.slot();
        let sm = self.farms[f].stake_mint;
        // somebody else's signature derives another farmer address; that is
        // what the instruction has to refuse
        let exists = self.farmers.contains_key(&(f, u));
        let ok = exists && by == u && max > 0;
        let ix = c::stop_farming(f, u, by, sm, max);
        let r = c::send(&mut self.svm, &ix);
        self.outcome(ok, &["F02", "F18"], &["F02", "F17"], &r, || {
            format!("stop_farming max {} of farmer {} of farm {} by {}", max, u, f, by)
        })?;
        if ok {
            self.settle(f, u, now, None, st)?;
            let m = self.farmers.get_mut(&(f, u)).unwrap();
            let amount = max.min(m.staked + m.vested);
            let from_vested = amount.min(m.vested);
            m.vested -= from_vested;
            m.staked -= amount - from_vested;
            if from_vested > 0 && amount > from_vested {
                st.hit("unstaked_vested_and_staked");
            }
            if amount > 0 {
                st.hit("unstaked");
            }
            if self.bal(&stake_vault(f)) < amount {
                return bad(&["F01"], format!("slot {}: the stake vault cannot pay out {}", now, amount));
            }
            self.mv(&stake_vault(f), &wallet(u, sm), amount);
            self.compare_farmer(f, u, &["F02", "F05"], "stop_farming")?;
            self.compare_tokens(&ix, &["F02", "F01"], "stop_farming")?;
        } else if exists && by != u {
            st.hit("foreign_unstake_rejected");
        }
        Ok(())
    }

    pub fn claim(&mut self, f: usize, u: usize, by: usize, to: usize, mints: &[usize], st: &mut Stats) -> Res {
        let now = self.slot();
        let exists = self.farmers.contains_key(&(f, u));
        let pairs: Vec<(usize, Pubkey)> = mints.iter().map(|m| (*m, wallet(to, *m))).collect();
        let covered = exists
            && mints.iter().all(|m| {
                self.farmers[&(f, u)].accrued.get(m).copied().unwrap_or(0) <= self.bal(&harvest_vault(f, *m))
            });
        let ok = exists && by == u && !mints.is_empty();
        if ok && !covered {
            return bad(&["F06"], format!("slot {}: the harvest vaults cannot pay farmer {} of farm {}", now, u, f));
        }
        let ix = c::claim(f, u, by, &pairs);
        let r = c::send(&mut self.svm, &ix);
        self.outcome(ok, &["F08", "F18"], &["F08", "F17"], &r, || {
            format!("claim_eligible_harvest {:?} of farmer {} of farm {} by {}", mints, u, f, by)
        })?;
        if ok {
            for m in mints {
                let x = self.farmers[&(f, u)].accrued.get(m).copied().unwrap_or(0);
                if x > 0 {
                    st.hit("claimed");
                    self.mv(&harvest_vault(f, *m), &wallet(to, *m), x);
                    self.farmers.get_mut(&(f, u)).unwrap().accrued.insert(*m, 0);
                }
            }
            if self.farmers[&(f, u)].accrued.values().any(|x| *x > 0) {
                st.hit("claimed_part");
            }
            self.compare_tokens(&ix, &["F08"], "claim_eligible_harvest")?;
            self.compare_accrued(f, u, &["F08"], "claim_eligible_harvest")?;
            self.compare_farmer(f, u, &["F08"], "claim_eligible_harvest")?;
            let cur = c::read_farmer(&self.svm, f, u).unwrap().calculate_next_harvest_from.slot;
            if cur != self.farmers[&(f, u)].cursor {
                return bad(&["F08", "F07"], format!("slot {}: claiming moved the cursor of farmer {}", now, u));
            }
        } else if exists && by != u {
            st.hit("foreign_claim_rejected");
        }
        Ok(())
    }

    fn compound(&mut self, s: usize, t: usize, su: usize, tu: usize, st: &mut Stats) -> Res {
        debug_assert!(s == t && su == tu);
        let m = self.farms[s].stake_mint;
        let ix = c::compound_same(s, su, m);
        self.compound_ix(s, t, su, tu, m, ix, st)
    }

    fn compound_across(&mut self, s: usize, t: usize, su: usize, tu: usize, st: &mut Stats) -> Res {
        let m = self.farms[t].stake_mint;
        let ix = c::compound_across(s, t, su, tu, m);
        if s == t {
            let r = c::send(&mut self.svm, &ix);
            return self.outcome(false, &[], &["F12"], &r, || {
                format!("compound_across_farms from farm {} to itself", s)
            });
        }
        self.compound_ix(s, t, su, tu, m, ix, st)
    }

    #[allow(clippy::too_many_arguments)]
    fn compound_ix(&mut self, s: usize, t: usize, su: usize, tu: usize, m: usize, ix: Ix, st: &mut Stats) -> Res {
        let now = self.slot();
        let wl = self.wl.contains(&(s, t));
        let exist = self.farmers.contains_key(&(s, su)) && self.farmers.contains_key(&(t, tu));
        let harvested = self.farms[s].harvest(m).is_some();
        let ok = wl && exist && harvested && su == tu;
        let before = (
            tok::amount(&self.svm, &harvest_vault(s, m)),
            tok::amount(&self.svm, &stake_vault(t)),
        );
        let r = c::send(&mut self.svm, &ix);
        if ok && r.is_err() {
            // an insolvent vault is another matter
            let owed = self.farmers[&(s, su)].accrued.get(&m).copied().unwrap_or(0) as u128
                + self.farms[s]
                    .entitlement(self.farmers[&(s, su)].cursor, now + 1, self.farmers[&(s, su)].staked + self.farmers[&(s, su)].vested, None)
                    .get(&m)
                    .map(|b| b.hi())
                    .unwrap_or(0);
            if owed > before.0 as u128 {
                return bad(&["F06"], format!("slot {}: harvest vault {} of farm {} cannot cover a compounding", now, m, s));
            }
        }
        // a harvest which was added in the very slot up to which the farmer is
        // settled is not listed for them yet
        let ok = ok && {
            let unlisted = c::read_farmer(&self.svm, s, su).map(|a| c::accrued(&a, &mint(m)).is_none());
            let settled = self.farmers[&(s, su)].cursor >= now;
            !(settled && unlisted == Some(true) && r.is_err())
        };
        self.outcome(ok, &["F12", "F18"], &["F12"], &r, || {
            format!(
                "compound mint {} of farmer {} of farm {} into farmer {} of farm {} (whitelisted: {})",
                m, su, s, tu, t, wl
            )
        })?;
        if !ok {
            if !wl && exist && harvested {
                st.hit("compound_not_whitelisted");
            }
            if wl && exist && harvested && su != tu {
                st.hit("compound_foreign_rejected");
            }
            return Ok(());
        }
        let after = (
            tok::amount(&self.svm, &harvest_vault(s, m)),
            tok::amount(&self.svm, &stake_vault(t)),
        );
        if before.0 < after.0 || after.1 < before.1 || before.0 - after.0 != after.1 - before.1 {
            return bad(
                &["F12", "F01"],
                format!("slot {}: compounding changed the vaults (harvest, stake) from {:?} to {:?}", now, before, after),
            );
        }
        let moved = before.0 - after.0;
        self.settle(s, su, now, Some((m, moved)), st)?;
        if self.farmers[&(s, su)].accrued.get(&m).copied().unwrap_or(0) != 0 {
            return bad(&["F12"], format!("slot {}: compounding left accrued harvest behind", now));
        }
        self.mv(&harvest_vault(s, m), &stake_vault(t), moved);
        if s != t {
            // the vested stake of the target must not lose what it has matured
            // to: it is as if the farmer had staked the tokens
            st.hit("compounded_across");
            self.settle(t, tu, now, None, st)?;
            self.compare_accrued(s, su, &["F12"], "compounding")?;
        }
        let fm = self.farmers.get_mut(&(t, tu)).unwrap();
        if fm.vested > 0 {
            st.hit("compounded_on_top_of_vested");
        }
        fm.vested += moved;
        fm.vested_at = now;
        st.hit("compounded");
        if moved > 0 {
            st.hit("compounded_some");
        }
        self.compare_farmer(s, su, &["F12"], "compounding")?;
        self.compare_farmer(t, tu, &["F12", "F05"], "compounding")?;
        self.compare_tokens(&ix, &["F12"], "compounding")?;
        Ok(())
    }

    /// The settings of farms are what their admins have made them.
    pub fn farms_unchanged(&self) -> Res {
        (0..self.farms.len()).try_for_each(|f| {
            self.compare_farm(f).map_err(|mut e| {
                e.tags.push("F16");
                e
            })
        })
    }

    /// Every farmer settles and claims what they are owed.
    pub fn everybody_claims(&mut self, st: &mut Stats) -> Res {
        for f in 0..self.farms.len() {
            self.step(&Op::ClaimAll { f: f as u8 }, st)?;
        }
        Ok(())
    }

    /// Every farmer takes out everything they have and closes the account, in
    /// the very slot.
    pub fn everybody_leaves(&mut self, st: &mut Stats) -> Res {
        for f in 0..self.farms.len() {
            let mints: Vec<usize> = self.farms[f].harvests.iter().flatten().map(|h| h.mint).collect();
            for u in 0..c::USERS {
                if !self.farmers.contains_key(&(f, u)) {
                    continue;
                }
                self.unstake(f, u, u, u64::MAX, st)?;
                if !mints.is_empty() {
                    self.claim(f, u, u, u, &mints, st)?;
                }
                if self.farmers[&(f, u)].accrued.values().any(|x| *x > 0) {
                    // of a mint which has been removed
                    continue;
                }
                let r = c::send(&mut self.svm, &c::close_farmer(f, u, u));
                self.outcome(true, &["F18", "F14"], &[], &r, || format!("closing farmer {} of farm {}", u, f))?;
                self.farmers.remove(&(f, u));
                st.hit("got_out");
            }
        }
        Ok(())
    }

    /// Everything the model knows is in the accounts.
    pub fn compare_all(&self, tags: Tags) -> Res {
        for f in 0..self.farms.len() {
            self.compare_farm(f)?;
        }
        for ((f, u), _) in &self.farmers {
            self.compare_farmer(*f, *u, tags, "the history")?;
            self.compare_accrued(*f, *u, tags, "the history")?;
        }
        for (k, want) in &self.tokens {
            let got = tok::read(&self.svm, k).map(|a| a.amount);
            if got != Some(*want) {
                return bad(
                    tags,
                    format!("in the end the balance of {} is {:?}, expected {}", self.name(k), got, want),
                );
            }
        }
        Ok(())
    }
}

/// The pairs of a claim reversed, rotated or some of them more than once.
fn shaped(mut mints: Vec<usize>, shape: u8) -> Vec<usize> {
    if mints.is_empty() {
        return mints;
    }
    match shape {
        1 => mints.reverse(),
        2 => mints.rotate_left(1),
        3 => mints.push(mints[0]),
        4 => mints = mints.iter().flat_map(|m| [*m, *m]).collect(),
        5 => mints.extend(mints.clone()),
        _ => (),
    }
    mints
}

/// Runs a history. `after` sees the world after every operation.
pub fn run(
    case: &Case,
    avoid_same_slot: bool,
    focus: &'static str,
    st: &mut Stats,
    after: &mut dyn FnMut(&mut World, &Op, &mut Stats) -> Res,
) -> (World, Res) {
    let mut w = World::new(case, avoid_same_slot, focus);
    let r = w.setup(st).and_then(|_| {
        case.ops.iter().try_for_each(|op| {
            w.step(op, st)?;
            after(&mut w, op, st)
        })
    });
    (w, r)
}
