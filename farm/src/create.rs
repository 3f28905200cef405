//! Creation of farms from accounts which may have defects: exactly those
//! without any are accepted, and the farm starts with nothing.

use crate::client as c;
use crate::client::{farm, farmer, harvest_vault, mint, signer, stake_vault, wallet, who};
use crate::props::verdict;
use crate::world::{bad, Res};
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::system_program;
use farming::models::Farm;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use svm::pbt::{Check, Stats, Sub, Tier};
use svm::tok;
use svm::vm::Svm;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Defect {
    Unsigned,
    /// the account is a farm already, of somebody else or of the same admin
    Used(bool),
    /// the account is of another kind
    Kind(u8),
    /// the account belongs to another program
    FarmOwner(u8),
    /// too small
    Small(u16),
    Signer(u8),
    Vault(u8),
    /// not a mint
    Mint(u8),
    TokenProgram(u8),
    SystemProgram(u8),
    Rent(u8),
    Poor,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opening {
    admin: u8,
    stake_mint: u8,
    slot: u64,
    defects: Vec<Defect>,
    /// lamports which somebody sent to where the vault is going to be
    dust: u32,
    /// what is done next: who tries to create it again, who administrates
    next: Vec<(u8, u8)>,
}

fn defect() -> BoxedStrategy<Defect> {
    let i = || 0u8..5;
    prop_oneof![
        Just(Defect::Unsigned),
        any::<bool>().prop_map(Defect::Used),
        i().prop_map(Defect::Kind),
        i().prop_map(Defect::FarmOwner),
        any::<u16>().prop_map(Defect::Small),
        i().prop_map(Defect::Signer),
        i().prop_map(Defect::Vault),
        i().prop_map(Defect::Mint),
        i().prop_map(Defect::TokenProgram),
        i().prop_map(Defect::SystemProgram),
        i().prop_map(Defect::Rent),
        Just(Defect::Poor),
    ]
    .boxed()
}

fn strategy(_: Tier) -> BoxedStrategy<Opening> {
    (
        0u8..7,
        0u8..c::MINTS as u8,
        prop_oneof![0u64..10, 100_000u64..1_000_000, any::<u32>().prop_map(|s| s as u64 * 1000)],
        prop_oneof![3 => vec(defect(), 0), 5 => vec(defect(), 1), 1 => vec(defect(), 2..3)],
        prop_oneof![3 => Just(0u32), 1 => 1u32..3_000_000, 1 => any::<u32>()],
        vec((0u8..7, 0u8..7), 0..6),
    )
        .prop_map(|(admin, stake_mint, slot, defects, dust, next)| Opening {
            admin,
            stake_mint,
            slot,
            defects,
            dust,
            next,
        })
        .boxed()
}

const F: usize = 0;
const OTHER: usize = 1;
const OTHER_ADMIN: usize = 4;

fn elsewhere(j: u8, own: Pubkey) -> Pubkey {
    let all =
        [signer(OTHER), stake_vault(OTHER), who(6), farm(F), tok::key("nowhere", 0), harvest_vault(F, 0), farmer(F, 0)];
    let k = all[j as usize % all.len()];
    if k == own {
        who(5)
    } else {
        k
    }
}

/// Everything but the lamports of `payer` and the accounts in `but`.
fn rest(svm: &Svm, payer: &Pubkey, but: &[Pubkey]) -> BTreeMap<Pubkey, svm::vm::Acct> {
    let mut all = svm.accts.clone();
    for k in but {
        all.remove(k);
    }
    if let Some(a) = all.get_mut(payer) {
        a.lamports = 0;
    }
    all
}

fn open(o: &Opening, st: &mut Stats) -> Res {
    let tags = &["F19"];
    let mut svm = c::new_svm();
    svm.slot = o.slot;
    for m in 0..c::MINTS {
        tok::mint(&mut svm, mint(m), None, None, u64::MAX);
        tok::account(&mut svm, wallet(6, m), mint(m), who(6), 1_000_000);
        tok::account(&mut svm, wallet(0, m), mint(m), who(0), 1_000_000);
    }
    // another farm, with a farmer
    c::put_blank_farm(&mut svm, OTHER);
    for ix in [
        c::create_farm(OTHER, OTHER_ADMIN, 1),
        c::add_harvest(OTHER, OTHER_ADMIN, 2),
        c::create_farmer(OTHER, 0, 0),
        c::start_farming(OTHER, 0, 0, 1, 1000),
    ] {
        if let Err(e) = c::send(&mut svm, &ix) {
            return bad(&["F19"], format!("a farm could not be set up: {}", e));
        }
    }
    c::put_blank_farm(&mut svm, F);
    let admin = o.admin as usize % 7;
    let m = o.stake_mint as usize % c::MINTS;
    let mut ix = c::create_farm(F, admin, m);
    let mut broken: Vec<String> = vec![];
    if o.dust > 0 {
        svm.fund(stake_vault(F), o.dust as u64);
        st.hit("dust");
    }
    for d in &o.defects {
        match *d {
            Defect::Unsigned => {
                ix.metas[0].is_signer = false;
                broken.push("the admin did not sign".into());
            }
            Defect::Used(own) => {
                let by = if own { admin } else { 5 };
                let mut again = c::create_farm(F, by, (m + 1) % c::MINTS);
                again.metas[0].is_signer = true;
                if svm.get(&farm(F)).map(|a| a.owner) == Some(farming::id()) && c::send(&mut svm, &again).is_ok() {
                    broken.push("the account is a farm already".into());
                }
            }
            Defect::Kind(j) => {
                ix.metas[1].pubkey = match j % 3 {
                    0 => farmer(OTHER, 0),
                    1 => farm(OTHER),
                    _ => stake_vault(OTHER),
                };
                broken.push("the account is of another kind".into());
            }
            Defect::FarmOwner(j) => {
                let owner = [system_program::id(), spl_token::id(), who(6)][j as usize % 3];
                svm.accts.get_mut(&farm(F)).unwrap().owner = owner;
                broken.push("the account is not the program's".into());
            }
            Defect::Small(n) => {
                let a = svm.accts.get_mut(&farm(F)).unwrap();
                let len = if n % 3 == 0 { a.data.len() - 1 - (n as usize % 50) } else { n as usize % a.data.len() };
                if a.data[..8] == [0; 8] {
                    a.data = vec![0; len];
                }
                broken.push("the account is too small".into());
            }
            Defect::Signer(j) => {
                ix.metas[2].pubkey = elsewhere(j, signer(F));
                broken.push("the signer is another one's".into());
            }
            Defect::Mint(j) => {
                let k = tok::key("no mint", j as u64);
                match j {
                    0 => drop(tok::account(&mut svm, k, mint(m), who(6), 0)),
                    1 => {
                        let mut a = svm.get(&mint(m)).unwrap().clone();
                        a.owner = farming::id();
                        svm.accts.insert(k, a);
                    }
                    2 => {
                        let mut a = svm.get(&mint(m)).unwrap().clone();
                        a.data = vec![0; a.data.len()];
                        svm.accts.insert(k, a);
                    }
                    3 => {
                        let mut a = svm.get(&mint(m)).unwrap().clone();
                        a.owner = system_program::id();
                        svm.accts.insert(k, a);
                    }
                    _ => (),
                }
                ix.metas[3].pubkey = k;
                broken.push("there is no such mint".into());
            }
            Defect::Vault(j) => {
                ix.metas[4].pubkey = elsewhere(j, stake_vault(F));
                broken.push("the vault is another one".into());
            }
            Defect::TokenProgram(j) => {
                ix.metas[5].pubkey = [system_program::id(), farming::id(), who(6)][j as usize % 3];
                broken.push("the token program is another one".into());
            }
            Defect::SystemProgram(j) => {
                ix.metas[6].pubkey = [spl_token::id(), farming::id(), who(6)][j as usize % 3];
                broken.push("the system program is another one".into());
            }
            Defect::Rent(j) => {
                ix.metas[7].pubkey = [who(6), farm(OTHER), spl_token::id()][j as usize % 3];
                broken.push("the rent sysvar is another account".into());
            }
            Defect::Poor => {
                svm.accts.get_mut(&who(admin)).unwrap().lamports = 1_000_000;
                if o.dust as u64 + 1_000_000 < svm::vm::rent_exempt(165) {
                    broken.push("the admin cannot pay".into());
                }
            }
        }
    }
    broken.sort();
    broken.dedup();
    st.hit(if broken.is_empty() { "flawless" } else { "flawed" });
    if broken.len() == 1 {
        st.hit("one_flaw");
    }
    st.nontrivial = broken.len() <= 1;
    let before = svm.clone();
    let what = || format!("creation of a farm of mint {} by {}", m, admin);
    let r = c::send(&mut svm, &ix);
    match r {
        Ok(()) if !broken.is_empty() => {
            return bad(tags, format!("{} was accepted although {}", what(), broken.join(", ")));
        }
        Err(e) if broken.is_empty() => return bad(tags, format!("{} was rejected: {}", what(), e)),
        Err(_) => return Ok(()),
        Ok(()) => (),
    }
    st.hit("created");
    let y = match c::read_farm(&svm, F) {
        Some(y) => y,
        None => return bad(tags, format!("{}: the farm is not readable", what())),
    };
    let mut want: Box<Farm> = Default::default();
    want.admin = who(admin);
    want.stake_mint = mint(m);
    want.stake_vault = stake_vault(F);
    if bytes(&y) != bytes(&want) {
        return bad(tags, format!("{}: the farm did not start with nothing but its admin, mint and vault", what()));
    }
    let v = match tok::read(&svm, &stake_vault(F)) {
        Some(v) => v,
        None => return bad(tags, format!("{}: there is no stake vault", what())),
    };
    if v.mint != mint(m)
        || v.owner != signer(F)
        || v.amount != 0
        || v.delegate.is_some()
        || v.close_authority.is_some()
        || v.is_frozen()
    {
        return bad(tags, format!("{}: the stake vault is not an empty one under the control of the farm", what()));
    }
    let but = [farm(F), stake_vault(F)];
    if rest(&svm, &who(admin), &but) != rest(&before, &who(admin), &but) {
        return bad(tags, format!("{} changed other accounts", what()));
    }
    let rent = svm::vm::rent_exempt(165);
    let paid = before.get(&who(admin)).unwrap().lamports - svm.get(&who(admin)).unwrap().lamports;
    if paid != rent.saturating_sub(o.dust as u64) {
        return bad(tags, format!("{}: {} lamports were paid for a vault worth {} with {} in it", what(), paid, rent, o.dust));
    }
    // it cannot be taken over, and serves its admin only
    for (by, op) in &o.next {
        let by = *by as usize % 7;
        let saved = svm.clone();
        let (ix, allowed) = match op % 4 {
            0 => (c::create_farm(F, by, m), false),
            1 => (c::set_window(F, by, 5), by == admin),
            2 => (c::add_harvest(F, by, 3), by == admin && tok::read(&svm, &harvest_vault(F, 3)).is_none()),
            _ => (c::create_farm(F, by, (m + 1) % c::MINTS), false),
        };
        if *op % 4 == 2 && saved.get(&who(by)).unwrap().lamports < 10_000_000 {
            continue;
        }
        match (c::send(&mut svm, &ix), allowed) {
            (Ok(()), false) => return bad(tags, format!("{} changed the new farm of {}", by, admin)),
            (Err(e), true) => return bad(tags, format!("the admin {} of a new farm was refused: {}", admin, e)),
            (Ok(()), true) => st.hit("used"),
            (Err(_), false) => {
                st.hit("refused");
                if svm.accts != saved.accts {
                    return bad(tags, "a refused request changed accounts".into());
                }
            }
        }
    }
    Ok(())
}

fn bytes(f: &Farm) -> &[u8] {
    unsafe { std::slice::from_raw_parts(f as *const Farm as *const u8, std::mem::size_of::<Farm>()) }
}

pub fn check(id: &'static str, quick: u32) -> Box<dyn Sub> {
    Check::boxed("creation", quick, quick * 12, strategy, move |o: &Opening, st: &mut Stats| {
        let r = open(o, st);
        let nontrivial = st.nontrivial;
        let v = verdict(id, r, st);
        st.nontrivial = nontrivial;
        v
    })
}
