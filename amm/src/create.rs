//! Creation of pools from accounts which may have defects: exactly those
//! without any are accepted. Likewise the creation of the singletons.

use crate::client as c;
use crate::client::{lp_mint, lp_wallet, metadata, mint, pool, signer, toll_wallet, vault, who, ATTACKER, TOLLER, UPGRADER};
use crate::curve;
use crate::subst::sound;
use crate::world::{bad, Res, World};
use amm::models::Curve;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::{bpf_loader_upgradeable, program_option::COption, program_pack::Pack, system_program};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use spl_token::state::{AccountState, Mint};
use svm::pbt::{Check, Stats, Sub, Tier};
use svm::tok;
use svm::vm::Svm;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Defect {
    Delegate(u8),
    /// a delegate which has nothing left to spend
    SpentDelegate(u8),
    CloseAuthority(u8),
    /// belongs to somebody, or to the signer of another pool
    Owner(u8, u8),
    Frozen(u8),
    /// of the same mint as another
    Duplicate(u8),
    /// the same account twice
    Twice(u8),
    /// not a token account
    Fake(u8),
    /// differs from the others in whether it is empty
    Odd(u8),
    LpAuthority(u8),
    LpFreeze,
    TollMint,
    TollOwner(u8),
    Unsigned(bool),
    Exists,
    Signer(u8),
    /// the toll account is not the singleton
    FakeToll,
    NoToll,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opening {
    vaults: u8,
    amp: u64,
    amounts: Vec<u64>,
    /// LP tokens exist
    supply: Option<u64>,
    empty: bool,
    defects: Vec<Defect>,
    admin: u8,
    /// harmless peculiarities
    lp_decimals: u8,
    toll_balance: bool,
}

fn defect() -> BoxedStrategy<Defect> {
    let i = || 0u8..4;
    prop_oneof![
        i().prop_map(Defect::Delegate),
        i().prop_map(Defect::SpentDelegate),
        i().prop_map(Defect::CloseAuthority),
        (i(), i()).prop_map(|(i, j)| Defect::Owner(i, j)),
        i().prop_map(Defect::Frozen),
        i().prop_map(Defect::Duplicate),
        i().prop_map(Defect::Twice),
        i().prop_map(Defect::Fake),
        i().prop_map(Defect::Odd),
        i().prop_map(Defect::LpAuthority),
        Just(Defect::LpFreeze),
        Just(Defect::TollMint),
        i().prop_map(Defect::TollOwner),
        any::<bool>().prop_map(Defect::Unsigned),
        Just(Defect::Exists),
        i().prop_map(Defect::Signer),
        Just(Defect::FakeToll),
        Just(Defect::NoToll),
    ]
    .boxed()
}

fn strategy(_: Tier) -> BoxedStrategy<Opening> {
    (
        prop_oneof![1 => Just(0u8), 2 => Just(1u8), 8 => 2u8..=4, 2 => Just(5u8)],
        prop_oneof![3 => Just(0u64), 4 => 1u64..2000, 1 => Just(u64::MAX), 1 => any::<u64>()],
        vec(prop_oneof![6 => 1_000u64..1_000_000_000_000, 1 => Just(1u64), 1 => any::<u64>()], 5),
        prop::option::weighted(0.5, prop_oneof![3 => 1u64..u64::MAX, 1 => Just(1u64), 1 => Just(u64::MAX)]),
        prop::bool::weighted(0.5),
        prop_oneof![3 => vec(defect(), 0), 6 => vec(defect(), 1), 1 => vec(defect(), 2..4)],
        0u8..5,
        prop_oneof![Just(6u8), 0u8..19],
        any::<bool>(),
    )
        .prop_map(|(vaults, amp, amounts, supply, empty, defects, admin, lp_decimals, toll_balance)| Opening {
            vaults,
            amp,
            amounts,
            supply,
            empty,
            defects,
            admin,
            lp_decimals,
            toll_balance,
        })
        .boxed()
}

const P: usize = 0;

fn stranger(j: u8) -> Pubkey {
    [who(ATTACKER), signer(1), pool(P), who(0)][j as usize % 4]
}

fn open(o: &Opening, st: &mut Stats) -> Res {
    let mut svm = c::new_svm();
    svm.slot = 1000;
    for m in 0..c::MINTS {
        tok::mint(&mut svm, mint(m), None, None, u64::MAX);
    }
    let has_toll = !o.defects.contains(&Defect::NoToll);
    if has_toll {
        World::singletons(&mut svm)[0].clone().map_err(|e| crate::world::Mismatch {
            tags: vec!["A16"],
            msg: format!("the toll could not be created: {}", e),
        })?;
    }
    let admin = [0, 1, 4, 9, ATTACKER][o.admin as usize % 5];
    let n = o.vaults as usize;
    let supply = o.supply.unwrap_or(0);
    let mut put_mint = |svm: &mut Svm, k: Pubkey, authority: Option<Pubkey>, freeze: Option<Pubkey>| {
        let m = Mint {
            mint_authority: authority.map(COption::Some).unwrap_or(COption::None),
            supply,
            decimals: o.lp_decimals,
            is_initialized: true,
            freeze_authority: freeze.map(COption::Some).unwrap_or(COption::None),
        };
        let mut d = vec![0; Mint::LEN];
        Mint::pack(m, &mut d).unwrap();
        svm.put(k, spl_token::id(), d);
    };
    let of = |f: fn(&Defect) -> Option<u8>| o.defects.iter().find_map(f);
    // the LP mint
    let lp_authority = match of(|d| if let Defect::LpAuthority(j) = d { Some(*j) } else { None }) {
        Some(3) => None,
        Some(j) => Some(stranger(j)),
        None => Some(signer(P)),
    };
    let freeze = o.defects.contains(&Defect::LpFreeze).then(|| if o.admin % 2 == 0 { who(admin) } else { signer(P) });
    put_mint(&mut svm, lp_mint(P), lp_authority, freeze);
    put_mint(&mut svm, lp_mint(1), Some(signer(P)), None);
    // the toll wallet
    let toll_of = if o.defects.contains(&Defect::TollMint) { [lp_mint(1), mint(0)][o.admin as usize % 2] } else { lp_mint(P) };
    let toll_owner = match of(|d| if let Defect::TollOwner(j) = d { Some(*j) } else { None }) {
        Some(j) => stranger(j),
        None => who(TOLLER),
    };
    let toll_has = if o.toll_balance { supply / 2 } else { 0 };
    tok::account(&mut svm, toll_wallet(P), toll_of, toll_owner, toll_has);
    tok::account(&mut svm, lp_wallet(0, P), lp_mint(P), who(0), supply - toll_has);
    // the vaults
    let mut vaults = vec![];
    let mut amounts = vec![];
    let mut mints = vec![];
    let mut broken: Vec<String> = vec![];
    for i in 0..n {
        let mut m = i;
        for d in &o.defects {
            if let Defect::Duplicate(j) = d {
                if n > 1 && *j as usize % n == i {
                    m = (i + 1) % n;
                }
            }
        }
        let k = tok::key("opening vault", i as u64);
        let mut full = !o.empty;
        for d in &o.defects {
            if let Defect::Odd(j) = d {
                if *j as usize % n == i {
                    full = !full;
                }
            }
        }
        let amount = if full { o.amounts[i].max(1) } else { 0 };
        tok::account(&mut svm, k, mint(m), signer(P), amount);
        let mut a = tok::read(&svm, &k).unwrap();
        for d in &o.defects {
            match d {
                Defect::Delegate(j) if *j as usize % n == i => {
                    a.delegate = COption::Some(who(ATTACKER));
                    a.delegated_amount = 1;
                }
                Defect::SpentDelegate(j) if *j as usize % n == i => {
                    a.delegate = COption::Some(who(admin));
                    a.delegated_amount = 0;
                }
                Defect::CloseAuthority(j) if *j as usize % n == i => a.close_authority = COption::Some(who(admin)),
                Defect::Owner(j, s) if *j as usize % n == i => a.owner = stranger(*s),
                Defect::Frozen(j) if *j as usize % n == i => a.state = AccountState::Frozen,
                _ => (),
            }
        }
        if a.delegate.is_some() || a.close_authority.is_some() || a.owner != signer(P) || a.is_frozen() {
            broken.push(format!("vault {} is not under the sole control of the pool", i));
        }
        tok::set(&mut svm, k, a);
        if o.defects.iter().any(|d| matches!(d, Defect::Fake(j) if *j as usize % n == i)) {
            // a perfect copy, which belongs to another program
            svm.accts.get_mut(&k).unwrap().owner = if o.admin % 2 == 0 { system_program::id() } else { amm::id() };
            broken.push(format!("vault {} is not a token account", i));
        }
        if (amount == 0) != (supply == 0) {
            broken.push(format!("vault {} has {} for a supply of {}", i, amount, supply));
        }
        if mints.contains(&m) {
            broken.push("a mint is repeated".into());
        }
        mints.push(m);
        amounts.push(amount);
        vaults.push(k);
    }
    for d in &o.defects {
        if let Defect::Twice(j) = d {
            if n > 0 {
                let i = *j as usize % n;
                vaults.push(vaults[i]);
                amounts.push(amounts[i]);
                mints.push(mints[i]);
                broken.push("a vault is repeated".into());
            }
        }
    }
    if !(2..=4).contains(&vaults.len()) {
        broken.push(format!("there are {} vaults", vaults.len()));
    }
    let mut ix = c::create_pool(P, admin, o.amp, &vaults);
    let mut saved_pool = None;
    for d in &o.defects {
        match d {
            Defect::Unsigned(a) => {
                ix.metas[if *a { 0 } else { 1 }].is_signer = false;
                broken.push("a signature is missing".into());
            }
            Defect::LpAuthority(_) | Defect::LpFreeze => broken.push("somebody else controls the LP mint".into()),
            Defect::TollMint | Defect::TollOwner(_) => broken.push("the toll wallet is wrong".into()),
            Defect::Signer(j) => {
                ix.metas[2].pubkey = stranger(if *j == 2 { 0 } else { *j });
                broken.push("the signer is wrong".into());
            }
            Defect::NoToll => broken.push("there is no toll".into()),
            Defect::FakeToll => {
                let k = tok::key("opening toll", 0);
                if let Some(a) = svm.get(&c::toll()).cloned() {
                    svm.accts.insert(k, a);
                }
                ix.metas[3].pubkey = k;
                broken.push("the toll is wrong".into());
            }
            Defect::Exists => {
                // somebody created it before
                if has_toll && saved_pool.is_none() {
                    let mut fresh = svm.clone();
                    put_mint(&mut fresh, lp_mint(P), Some(signer(P)), None);
                    World::set_supply(&mut fresh, &lp_mint(P), 0);
                    tok::account(&mut fresh, toll_wallet(P), lp_mint(P), who(TOLLER), 0);
                    for i in 0..2 {
                        tok::account(&mut fresh, vault(P, i), mint(i), signer(P), 0);
                    }
                    let r = c::send(&mut fresh, &c::create_pool(P, 1, 0, &[vault(P, 0), vault(P, 1)]));
                    if r.is_ok() {
                        let a = fresh.get(&pool(P)).cloned().unwrap();
                        svm.accts.insert(pool(P), a.clone());
                        saved_pool = Some(a);
                        broken.push("the pool exists".into());
                    }
                }
            }
            _ => (),
        }
    }
    st.hit(if broken.is_empty() { "flawless" } else { "flawed" });
    if broken.len() == 1 {
        st.hit("one_flaw");
    }
    st.nontrivial = broken.len() <= 1;
    let calm = o.amp == 0 || supply == 0 || (curve::balanced(&amounts) && o.amp <= 1_000_000);
    let saved_admin = svm.get(&who(admin)).unwrap().lamports;
    let r = c::send(&mut svm, &ix);
    let what = || format!("creation of a pool by {} with {:?} of mints {:?}, {} LP, amplifier {}", admin, amounts, mints, supply, o.amp);
    match r {
        Ok(()) if !broken.is_empty() => {
            return bad(&["A13"], format!("{} was accepted although {}", what(), broken.join(", ")));
        }
        Err(e) if broken.is_empty() && calm => {
            return bad(&["A13"], format!("{} was rejected: {}", what(), e));
        }
        Err(_) => {
            if let Some(a) = saved_pool {
                if svm.get(&pool(P)) != Some(&a) {
                    return bad(&["A13"], "a failed creation changed the existing pool".into());
                }
            }
            return Ok(());
        }
        Ok(()) => (),
    }
    st.hit("created");
    let y = match c::read_pool(&svm, &pool(P)) {
        Some(y) => y,
        None => return bad(&["A13"], format!("{}: the pool is not readable", what())),
    };
    if let Err(e) = sound(&pool(P), &y, &svm) {
        return bad(&["A13"], format!("{}: {}", what(), e));
    }
    let got: Vec<(Pubkey, Pubkey, u64)> = y.reserves[..y.dimension as usize].iter().map(|r| (r.mint, r.vault, r.tokens.amount)).collect();
    let want: Vec<(Pubkey, Pubkey, u64)> =
        (0..n).map(|i| (mint(mints[i]), vaults[i], amounts[i])).collect();
    let amp = match y.curve {
        Curve::ConstProd => 0,
        Curve::Stable { amplifier, .. } => amplifier,
    };
    if got != want || y.admin != who(admin) || y.mint != lp_mint(P) || y.program_toll_wallet != toll_wallet(P) {
        return bad(&["A13"], format!("{} made {:?}", what(), y));
    }
    if amp != o.amp || y.swap_fee.permillion != 0 {
        return bad(&["A13"], format!("{} made the curve {:?} with a fee of {}", what(), y.curve, y.swap_fee.permillion));
    }
    if svm.get(&who(admin)).unwrap().lamports >= saved_admin {
        return bad(&["A13"], format!("{}: the admin did not pay the rent", what()));
    }
    Ok(())
}

pub fn check(id: &'static str, quick: u32) -> Box<dyn Sub> {
    Check::boxed("creation", quick, quick * 12, strategy, move |o: &Opening, st: &mut Stats| {
        let r = open(o, st);
        crate::props::verdict(id, r, st)
    })
}

// ------------------------------------------------------------- singletons

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Wrong {
    /// signed by somebody else
    Impostor(u8),
    Unsigned,
    /// the program has no upgrade authority
    Immutable,
    /// the program data of another program, of the signer
    OtherData,
    /// data which is owned by another program
    FakeData,
    /// another program, of the signer, which is upgradeable
    OtherProgram,
    /// the program account says otherwise
    Mislead,
    /// a buffer or program account instead of program data
    NotData(u8),
    /// the program is not upgradeable
    NotUpgradeable,
    /// not the address of the singleton
    Address,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Founding {
    /// toll or discount settings; by whom it's signed, for whom, what's wrong
    tries: Vec<(bool, u8, Option<Wrong>)>,
    slot: u64,
    /// lamports which somebody sent to where the singletons are going to be
    #[serde(default)]
    dust: [u32; 2],
    /// the upgrade authority has changed: the one before is another impostor
    #[serde(default)]
    passed_on: bool,
}

fn wrong() -> BoxedStrategy<Wrong> {
    prop_oneof![
        3 => (0u8..6).prop_map(Wrong::Impostor),
        1 => Just(Wrong::Unsigned),
        1 => Just(Wrong::Immutable),
        1 => Just(Wrong::OtherData),
        1 => Just(Wrong::FakeData),
        1 => Just(Wrong::OtherProgram),
        1 => Just(Wrong::Mislead),
        2 => (0u8..3).prop_map(Wrong::NotData),
        1 => Just(Wrong::NotUpgradeable),
        1 => Just(Wrong::Address),
    ]
    .boxed()
}

fn founding(_: Tier) -> BoxedStrategy<Founding> {
    let dust = || prop_oneof![3 => Just(0u32), 1 => 1u32..5000, 1 => 1u32..5_000_000];
    (
        vec((any::<bool>(), 0u8..10, prop_oneof![1 => Just(None), 4 => wrong().prop_map(Some)]), 1..12),
        0u64..1_000_000,
        [dust(), dust()],
        any::<bool>(),
    )
        .prop_map(|(tries, slot, dust, passed_on)| Founding { tries, slot, dust, passed_on })
        .boxed()
}

fn found(f: &Founding, st: &mut Stats) -> Res {
    let mut svm = c::new_svm();
    svm.slot = f.slot;
    let other = tok::key("other program", 0);
    let other_data = tok::key("other program data", 0);
    svm.accts.insert(other, c::program_account(other_data));
    svm.accts.insert(other_data, c::program_data(Some(who(ATTACKER))));
    let mut authority: [Option<Pubkey>; 2] = [None, None];
    let upgrader = if f.passed_on { 9 } else { UPGRADER };
    svm.accts.insert(metadata(), c::program_data(Some(who(upgrader))));
    for (k, n) in [(c::toll(), f.dust[0]), (c::settings(), f.dust[1])] {
        if n > 0 {
            svm.give(k, n as u64);
            st.hit("dust");
        }
    }
    for (i, (is_toll, to, wrong)) in f.tries.iter().enumerate() {
        let mut by = who(upgrader);
        let to = who(*to as usize % c::WHO);
        let (mut program, mut data) = (amm::id(), metadata());
        let (save_program, save_data) = (svm.get(&amm::id()).cloned().unwrap(), svm.get(&metadata()).cloned().unwrap());
        let mut extra = None;
        match wrong {
            Some(Wrong::Impostor(j)) => {
                by = who([0, 4, TOLLER, c::DISCOUNTER, ATTACKER, 9 + UPGRADER - upgrader][*j as usize % 6]);
            }
            Some(Wrong::Immutable) => {
                svm.accts.insert(metadata(), c::program_data(None));
            }
            Some(Wrong::OtherData) => {
                by = who(ATTACKER);
                data = other_data;
            }
            Some(Wrong::FakeData) => {
                by = who(ATTACKER);
                data = tok::key("fake program data", i as u64);
                let mut a = c::program_data(Some(who(ATTACKER)));
                a.owner = system_program::id();
                svm.accts.insert(data, a.clone());
                extra = Some(data);
            }
            Some(Wrong::OtherProgram) => {
                by = who(ATTACKER);
                program = other;
                data = other_data;
            }
            Some(Wrong::Mislead) => {
                // this can't be: only the loader writes there; but then it's
                // not the data of the program
                svm.accts.insert(amm::id(), c::program_account(other_data));
            }
            Some(Wrong::NotData(j)) => {
                by = who(ATTACKER);
                let mut a = svm.get(&metadata()).cloned().unwrap();
                a.data = match j {
                    0 => {
                        // a buffer with an authority
                        let mut d = 1u32.to_le_bytes().to_vec();
                        d.push(1);
                        d.extend_from_slice(who(ATTACKER).as_ref());
                        d.resize(100, 0);
                        d
                    }
                    1 => vec![],
                    _ => vec![0; 45],
                };
                svm.accts.insert(metadata(), a);
            }
            Some(Wrong::NotUpgradeable) => {
                let mut a = svm.get(&amm::id()).cloned().unwrap();
                a.owner = anchor_lang::solana_program::bpf_loader::id();
                a.data = vec![0x7f; 100];
                svm.accts.insert(amm::id(), a);
            }
            _ => (),
        }
        let mut ix = if *is_toll { c::create_toll(by, program, data, to) } else { c::create_settings(by, program, data, to) };
        let k = if *is_toll { c::toll() } else { c::settings() };
        match wrong {
            Some(Wrong::Unsigned) => ix.metas[0].is_signer = false,
            Some(Wrong::Address) => {
                for m in ix.metas.iter_mut().filter(|m| m.pubkey == k) {
                    m.pubkey = if *to.as_ref().last().unwrap() % 2 == 0 {
                        tok::key("another singleton", i as u64)
                    } else if *is_toll {
                        c::settings()
                    } else {
                        c::toll()
                    };
                }
            }
            _ => (),
        }
        let slot = !*is_toll as usize;
        let first = authority[slot].is_none();
        let ok = wrong.is_none() && first;
        let r = c::send(&mut svm, &ix);
        if let Some(k) = extra {
            svm.accts.remove(&k);
        }
        svm.accts.insert(amm::id(), save_program);
        svm.accts.insert(metadata(), save_data);
        let what = || format!("creation of the {} signed by {}", if *is_toll { "toll" } else { "discount settings" }, by);
        match (&r, ok) {
            (Ok(()), false) => {
                return bad(
                    &["A16"],
                    format!("{} was accepted, {}", what(), match wrong {
                        Some(w) => format!("although {:?}", w),
                        None => "although it existed".to_string(),
                    }),
                );
            }
            (Err(e), true) => return bad(&["A16"], format!("{} was rejected: {}", what(), e)),
            (Ok(()), true) => {
                authority[slot] = Some(to);
                st.hit("founded");
            }
            (Err(_), false) => st.hit(if wrong.is_some() { "refused" } else { "refused_again" }),
        }
        let now = [c::read_toll(&svm).map(|t| t.authority), c::read_settings(&svm).map(|t| t.authority)];
        if now != authority {
            return bad(&["A16"], format!("after {}: the authorities are {:?} instead of {:?}", what(), now, authority));
        }
        if svm.get(&other_data).map(|a| a.owner) != Some(bpf_loader_upgradeable::id()) {
            return bad(&["A16"], "a program changed".into());
        }
    }
    st.nontrivial = st.n.get("founded").copied().unwrap_or(0) >= 1 && st.n.get("refused").copied().unwrap_or(0) >= 1;
    Ok(())
}

pub fn singletons(id: &'static str, quick: u32) -> Box<dyn Sub> {
    Check::boxed("singletons", quick, quick * 12, founding, move |o: &Founding, st: &mut Stats| {
        let r = found(o, st);
        crate::props::verdict(id, r, st)
    })
}
