//! Addresses and instructions of the farming program.

use anchor_lang::prelude::*;
use anchor_lang::solana_program::{instruction::AccountMeta, system_program, sysvar};
use anchor_lang::{InstructionData, ToAccountMetas};
use farming::models::{Farm, Farmer, Slot, TokenAmount};
use std::cell::RefCell;
use std::collections::HashMap;
use svm::tok;
use svm::vm::{Acct, Fail, Svm};

pub const USERS: usize = 4;
/// 0..4 farmers, 4 and 5 admins, 6 an attacker
pub const WHO: usize = 7;
pub const MINTS: usize = 13;

pub fn who(i: usize) -> Pubkey {
    cached("who", i as u64, 0, || tok::key("who", i as u64))
}
pub fn mint(i: usize) -> Pubkey {
    cached("mint", i as u64, 0, || tok::key("mint", i as u64))
}
pub fn wallet(w: usize, m: usize) -> Pubkey {
    cached("wallet", w as u64, m as u64, || tok::key("wallet", (w * 100 + m) as u64))
}
pub fn farm(i: usize) -> Pubkey {
    cached("farm", i as u64, 0, || tok::key("farm", i as u64))
}

thread_local! {
    static CACHE: RefCell<HashMap<(&'static str, u64, u64), Pubkey>> = RefCell::new(HashMap::new());
}

fn cached(tag: &'static str, a: u64, b: u64, f: impl FnOnce() -> Pubkey) -> Pubkey {
    if let Some(k) = CACHE.with(|c| c.borrow().get(&(tag, a, b)).copied()) {
        return k;
    }
    let k = f();
    CACHE.with(|c| c.borrow_mut().insert((tag, a, b), k));
    k
}

pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &farming::id()).0
}

pub fn signer(f: usize) -> Pubkey {
    cached("pda_signer", f as u64, 0, || pda(&[b"signer", farm(f).as_ref()]))
}
pub fn stake_vault(f: usize) -> Pubkey {
    cached("pda_stake", f as u64, 0, || pda(&[b"stake_vault", farm(f).as_ref()]))
}
pub fn harvest_vault(f: usize, m: usize) -> Pubkey {
    cached("pda_harvest", f as u64, m as u64, || {
        pda(&[b"harvest_vault", farm(f).as_ref(), mint(m).as_ref()])
    })
}
pub fn farmer(f: usize, u: usize) -> Pubkey {
    cached("pda_farmer", f as u64, u as u64, || {
        pda(&[b"farmer", farm(f).as_ref(), who(u).as_ref()])
    })
}
pub fn whitelist(s: usize, t: usize) -> Pubkey {
    cached("pda_wl", s as u64, t as u64, || {
        pda(&[b"whitelist_compounding", farm(s).as_ref(), farm(t).as_ref()])
    })
}

pub struct Ix {
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
}

fn ix(accounts: impl ToAccountMetas, data: impl InstructionData) -> Ix {
    Ix { metas: accounts.to_account_metas(None), data: data.data() }
}

pub fn new_svm() -> Svm {
    let mut svm = Svm::new(farming::id(), farming::entry);
    for w in 0..WHO {
        svm.fund(who(w), 1_000_000_000_000);
    }
    svm
}

/// The account which create_farm initializes.
pub fn put_blank_farm(svm: &mut Svm, f: usize) {
    svm.put(farm(f), farming::id(), vec![0; 8 + std::mem::size_of::<Farm>()]);
}

pub fn create_farm(f: usize, admin: usize, m: usize) -> Ix {
    ix(
        farming::accounts::CreateFarm {
            admin: who(admin),
            farm: farm(f),
            farm_signer_pda: signer(f),
            stake_mint: mint(m),
            stake_vault: stake_vault(f),
            token_program: spl_token::id(),
            system_program: system_program::id(),
            rent: sysvar::rent::id(),
        },
        farming::instruction::CreateFarm {},
    )
}
pub fn add_harvest(f: usize, by: usize, m: usize) -> Ix {
    ix(
        farming::accounts::AddHarvest {
            admin: who(by),
            farm: farm(f),
            farm_signer_pda: signer(f),
            harvest_mint: mint(m),
            harvest_vault: harvest_vault(f, m),
            token_program: spl_token::id(),
            system_program: system_program::id(),
            rent: sysvar::rent::id(),
        },
        farming::instruction::AddHarvest {},
    )
}
pub fn remove_harvest(f: usize, by: usize, m: usize) -> Ix {
    ix(
        farming::accounts::RemoveHarvest {
            admin: who(by),
            farm: farm(f),
            farm_signer_pda: signer(f),
            harvest_vault: harvest_vault(f, m),
            token_program: spl_token::id(),
        },
        farming::instruction::RemoveHarvest { harvest_mint: mint(m) },
    )
}
pub fn set_farm_owner(f: usize, by: usize, new: usize) -> Ix {
    ix(
        farming::accounts::SetFarmOwner { admin: who(by), new_farm_admin: who(new), farm: farm(f) },
        farming::instruction::SetFarmOwner {},
    )
}
pub fn set_window(f: usize, by: usize, slots: u64) -> Ix {
    ix(
        farming::accounts::SetMinSnapshotWindow { admin: who(by), farm: farm(f) },
        farming::instruction::SetMinSnapshotWindow { min_snapshot_window_slots: slots },
    )
}
pub fn new_period(f: usize, by: usize, m: usize, starts_at: u64, len: u64, tps: u64) -> Ix {
    ix(
        farming::accounts::NewHarvestPeriod {
            admin: who(by),
            farm: farm(f),
            harvest_wallet: wallet(by, m),
            harvest_vault: harvest_vault(f, m),
            farm_signer_pda: signer(f),
            token_program: spl_token::id(),
        },
        farming::instruction::NewHarvestPeriod {
            harvest_mint: mint(m),
            starts_at: Slot { slot: starts_at },
            period_length_in_slots: len,
            tokens_per_slot: TokenAmount { amount: tps },
        },
    )
}
pub fn take_snapshot(f: usize) -> Ix {
    ix(
        farming::accounts::TakeSnapshot { farm: farm(f), stake_vault: stake_vault(f) },
        farming::instruction::TakeSnapshot {},
    )
}
pub fn create_farmer(f: usize, u: usize, payer: usize) -> Ix {
    ix(
        farming::accounts::CreateFarmer {
            payer: who(payer),
            authority: who(u),
            farmer: farmer(f, u),
            farm: farm(f),
            system_program: system_program::id(),
        },
        farming::instruction::CreateFarmer {},
    )
}
pub fn close_farmer(f: usize, u: usize, by: usize) -> Ix {
    ix(
        farming::accounts::CloseFarmer { authority: who(by), farmer: farmer(f, u) },
        farming::instruction::CloseFarmer {},
    )
}
pub fn start_farming(f: usize, u: usize, by: usize, stake_mint: usize, amount: u64) -> Ix {
    ix(
        farming::accounts::StartFarming {
            wallet_authority: who(by),
            farmer: farmer(f, u),
            stake_wallet: wallet(by, stake_mint),
            farm: farm(f),
            stake_vault: stake_vault(f),
            token_program: spl_token::id(),
        },
        farming::instruction::StartFarming { stake: TokenAmount { amount: amount } },
    )
}
pub fn stop_farming(f: usize, u: usize, by: usize, stake_mint: usize, max: u64) -> Ix {
    ix(
        farming::accounts::StopFarming {
            authority: who(by),
            farmer: farmer(f, u),
            stake_wallet: wallet(by, stake_mint),
            farm: farm(f),
            farm_signer_pda: signer(f),
            stake_vault: stake_vault(f),
            token_program: spl_token::id(),
        },
        farming::instruction::StopFarming { unstake_max: TokenAmount { amount: max } },
    )
}
pub fn update(f: usize, u: usize) -> Ix {
    ix(
        farming::accounts::UpdateEligibleHarvest { farm: farm(f), farmer: farmer(f, u) },
        farming::instruction::UpdateEligibleHarvest {},
    )
}
pub fn update_until(f: usize, u: usize, until: u64) -> Ix {
    ix(
        farming::accounts::UpdateEligibleHarvest { farm: farm(f), farmer: farmer(f, u) },
        farming::instruction::UpdateEligibleHarvestUntil { until: Slot { slot: until } },
    )
}
/// `pairs`: harvest mint of the farm, wallet
pub fn claim(f: usize, u: usize, by: usize, pairs: &[(usize, Pubkey)]) -> Ix {
    let mut i = ix(
        farming::accounts::ClaimEligibleHarvest {
            authority: who(by),
            farmer: farmer(f, u),
            farm_signer_pda: signer(f),
            token_program: spl_token::id(),
        },
        farming::instruction::ClaimEligibleHarvest {},
    );
    for (m, w) in pairs {
        i.metas.push(AccountMeta::new(harvest_vault(f, *m), false));
        i.metas.push(AccountMeta::new(*w, false));
    }
    i
}
pub fn airdrop(f: usize, u: usize, by: usize, m: usize, amount: u64) -> Ix {
    ix(
        farming::accounts::Airdrop {
            wallet_authority: who(by),
            farmer: farmer(f, u),
            harvest_wallet: wallet(by, m),
            harvest_vault: harvest_vault(f, m),
            token_program: spl_token::id(),
        },
        farming::instruction::Airdrop { airdrop: TokenAmount { amount: amount } },
    )
}
pub fn compound_same(f: usize, u: usize, m: usize) -> Ix {
    ix(
        farming::accounts::CompoundSameFarm {
            farm: farm(f),
            farm_signer_pda: signer(f),
            whitelist_compounding: whitelist(f, f),
            stake_vault: stake_vault(f),
            harvest_vault: harvest_vault(f, m),
            farmer: farmer(f, u),
            token_program: spl_token::id(),
        },
        farming::instruction::CompoundSameFarm {},
    )
}
/// Source and target may be given farmers of different users.
pub fn compound_across(s: usize, t: usize, su: usize, tu: usize, m: usize) -> Ix {
    ix(
        farming::accounts::CompoundAcrossFarms {
            source_farm: farm(s),
            target_farm: farm(t),
            source_farm_signer_pda: signer(s),
            whitelist_compounding: whitelist(s, t),
            target_stake_vault: stake_vault(t),
            source_harvest_vault: harvest_vault(s, m),
            source_farmer: farmer(s, su),
            target_farmer: farmer(t, tu),
            token_program: spl_token::id(),
        },
        farming::instruction::CompoundAcrossFarms {},
    )
}
pub fn whitelist_farm(s: usize, t: usize, by: usize) -> Ix {
    ix(
        farming::accounts::WhitelistFarmForCompouding {
            admin: who(by),
            source_farm: farm(s),
            target_farm: farm(t),
            whitelist_compounding: whitelist(s, t),
            system_program: system_program::id(),
        },
        farming::instruction::WhitelistFarmForCompounding {},
    )
}
pub fn dewhitelist_farm(s: usize, t: usize, by: usize) -> Ix {
    ix(
        farming::accounts::DewhitelistFarmForCompounding {
            admin: who(by),
            source_farm: farm(s),
            target_farm: farm(t),
            whitelist_compounding: whitelist(s, t),
            system_program: system_program::id(),
        },
        farming::instruction::DewhitelistFarmForCompounding {},
    )
}

/// Sends the instruction; only `signers` have signed.
pub fn send(svm: &mut Svm, ix: &Ix) -> std::result::Result<(), Fail> {
    svm.run(&ix.metas, &ix.data)
}

/// The instruction without the given signature.
pub fn unsigned(mut ix: Ix, by: usize) -> Ix {
    for m in ix.metas.iter_mut() {
        if m.pubkey == who(by) {
            m.is_signer = false;
        }
    }
    ix
}

pub fn read_farm(svm: &Svm, f: usize) -> Option<Box<Farm>> {
    read_farm_at(svm, &farm(f))
}

pub fn read_farm_at(svm: &Svm, k: &Pubkey) -> Option<Box<Farm>> {
    let a = svm.get(k)?;
    let n = 8 + std::mem::size_of::<Farm>();
    if a.owner != farming::id()
        || a.data.len() < n
        || a.data[..8] != <Farm as anchor_lang::Discriminator>::discriminator()
    {
        return None;
    }
    let mut out: Box<Farm> = Box::new(Farm::default());
    unsafe {
        std::ptr::copy_nonoverlapping(
            a.data[8..n].as_ptr(),
            &mut *out as *mut Farm as *mut u8,
            std::mem::size_of::<Farm>(),
        );
    }
    Some(out)
}

pub fn read_farmer(svm: &Svm, f: usize, u: usize) -> Option<Farmer> {
    read_farmer_at(svm, &farmer(f, u))
}

pub fn read_farmer_at(svm: &Svm, k: &Pubkey) -> Option<Farmer> {
    let a: &Acct = svm.get(k)?;
    if a.owner != farming::id() {
        return None;
    }
    Farmer::try_deserialize(&mut &a.data[..]).ok()
}

pub fn accrued(f: &Farmer, m: &Pubkey) -> Option<u64> {
    f.harvests.iter().find(|h| h.mint == *m).map(|h| h.tokens.amount)
}
