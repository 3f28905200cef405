//! Addresses and instructions of the AMM program.

use amm::models::{Curve, Discount, DiscountSettings, Permillion, Pool, ProgramToll, Slot, TokenAmount, TokenLimit};
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{bpf_loader_upgradeable, instruction::AccountMeta, system_program};
use anchor_lang::{AccountDeserialize, InstructionData, ToAccountMetas};
use std::cell::RefCell;
use std::collections::HashMap;
use svm::big::Big;
use svm::tok;
use svm::vm::{Acct, Fail, Svm};

/// 0..4 users, 4 admin of pool 0, 5 owner of the toll, 6 gives discounts,
/// 7 the upgrade authority, 8 an attacker, 9 admin of pool 1
pub const WHO: usize = 10;
pub const USERS: usize = 4;
pub const TOLLER: usize = 5;
pub const DISCOUNTER: usize = 6;
pub const UPGRADER: usize = 7;
pub const ATTACKER: usize = 8;
pub const MINTS: usize = 6;
pub const POOLS: usize = 3;

pub fn admin_of(p: usize) -> usize {
    [4, 9, ATTACKER][p % 3]
}

thread_local! {
    static CACHE: RefCell<HashMap<(&'static str, u64, u64), Pubkey>> = RefCell::new(HashMap::new());
}

pub fn cached(tag: &'static str, a: u64, b: u64, f: impl FnOnce() -> Pubkey) -> Pubkey {
    if let Some(k) = CACHE.with(|c| c.borrow().get(&(tag, a, b)).copied()) {
        return k;
    }
    let k = f();
    CACHE.with(|c| c.borrow_mut().insert((tag, a, b), k));
    k
}

fn plain(tag: &'static str, a: usize, b: usize) -> Pubkey {
    cached(tag, a as u64, b as u64, || tok::key(tag, (a * 100 + b) as u64))
}

pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &amm::id()).0
}

pub fn who(i: usize) -> Pubkey {
    plain("amm who", i, 0)
}
pub fn mint(i: usize) -> Pubkey {
    plain("amm mint", i, 0)
}
pub fn wallet(w: usize, m: usize) -> Pubkey {
    plain("amm wallet", w, m)
}
pub fn pool(p: usize) -> Pubkey {
    plain("pool", p, 0)
}
pub fn vault(p: usize, m: usize) -> Pubkey {
    plain("vault", p, m)
}
pub fn lp_mint(p: usize) -> Pubkey {
    plain("lp mint", p, 0)
}
pub fn lp_wallet(w: usize, p: usize) -> Pubkey {
    plain("lp wallet", w, p)
}
pub fn toll_wallet(p: usize) -> Pubkey {
    plain("toll wallet", p, 0)
}
pub fn signer(p: usize) -> Pubkey {
    cached("amm signer", p as u64, 0, || pda(&[b"signer", pool(p).as_ref()]))
}
pub fn toll() -> Pubkey {
    cached("toll", 0, 0, || pda(&[b"toll"]))
}
pub fn settings() -> Pubkey {
    cached("settings", 0, 0, || pda(&[b"discount_settings"]))
}
pub fn discount(u: usize) -> Pubkey {
    cached("discount", u as u64, 0, || pda(&[b"discount", who(u).as_ref()]))
}
pub fn metadata() -> Pubkey {
    plain("program data", 0, 0)
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
}

fn ix(accounts: impl ToAccountMetas, data: impl InstructionData) -> Ix {
    Ix { metas: accounts.to_account_metas(None), data: data.data() }
}

/// The account of an upgradeable program which points to its data.
pub fn program_account(points_to: Pubkey) -> Acct {
    let mut data = 2u32.to_le_bytes().to_vec();
    data.extend_from_slice(points_to.as_ref());
    Acct { lamports: 1_000_000_000, owner: bpf_loader_upgradeable::id(), executable: true, data }
}

pub fn program_data(authority: Option<Pubkey>) -> Acct {
    let mut data = 3u32.to_le_bytes().to_vec();
    data.extend_from_slice(&7u64.to_le_bytes());
    match authority {
        Some(k) => {
            data.push(1);
            data.extend_from_slice(k.as_ref());
        }
        None => data.extend_from_slice(&[0; 33]),
    }
    data.extend_from_slice(&[0x7f; 40]);
    Acct { lamports: 1_000_000_000, owner: bpf_loader_upgradeable::id(), executable: false, data }
}

pub fn new_svm() -> Svm {
    let mut svm = Svm::new(amm::id(), amm::entry);
    svm.accts.insert(amm::id(), program_account(metadata()));
    svm.accts.insert(metadata(), program_data(Some(who(UPGRADER))));
    for w in 0..WHO {
        svm.fund(who(w), 1_000_000_000_000);
    }
    svm
}

pub fn create_toll(by: Pubkey, program: Pubkey, data: Pubkey, authority: Pubkey) -> Ix {
    ix(
        amm::accounts::CreateProgramToll {
            program_authority: by,
            amm: program,
            amm_metadata: data,
            program_toll_authority: authority,
            program_toll: toll(),
            system_program: system_program::id(),
        },
        amm::instruction::CreateProgramToll {},
    )
}
pub fn create_settings(by: Pubkey, program: Pubkey, data: Pubkey, authority: Pubkey) -> Ix {
    ix(
        amm::accounts::CreateDiscountSettings {
            program_authority: by,
            amm: program,
            amm_metadata: data,
            discount_settings_authority: authority,
            discount_settings: settings(),
            system_program: system_program::id(),
        },
        amm::instruction::CreateDiscountSettings {},
    )
}

/// Everything goes by the conventional addresses; `vaults` are the remaining
/// accounts.
pub fn create_pool(p: usize, admin: usize, amplifier: u64, vaults: &[Pubkey]) -> Ix {
    let mut i = ix(
        amm::accounts::CreatePool {
            admin: who(admin),
            pool: pool(p),
            pool_signer: signer(p),
            program_toll: toll(),
            program_toll_wallet: toll_wallet(p),
            lp_mint: lp_mint(p),
            token_program: spl_token::id(),
            system_program: system_program::id(),
        },
        amm::instruction::CreatePool { amplifier },
    );
    for v in vaults {
        i.metas.push(AccountMeta::new_readonly(*v, false));
    }
    i
}

fn limits(l: &[(usize, u64)]) -> Vec<TokenLimit> {
    l.iter().map(|(m, t)| TokenLimit { mint: mint(*m), tokens: TokenAmount { amount: *t } }).collect()
}

/// `max`: mint and amount in the order of the instruction; `mints`: order of
/// the vault and wallet pairs.
pub fn deposit(p: usize, u: usize, max: &[(usize, u64)], mints: &[usize]) -> Ix {
    let mut i = ix(
        amm::accounts::DepositLiquidity {
            user: who(u),
            pool: pool(p),
            pool_signer_pda: signer(p),
            lp_mint: lp_mint(p),
            lp_token_wallet: lp_wallet(u, p),
            token_program: spl_token::id(),
        },
        amm::instruction::DepositLiquidity { max_amount_tokens: limits(max) },
    );
    for m in mints {
        i.metas.push(AccountMeta::new(vault(p, *m), false));
        i.metas.push(AccountMeta::new(wallet(u, *m), false));
    }
    i
}
pub fn redeem(p: usize, u: usize, burn: u64, min: &[(usize, u64)], mints: &[usize]) -> Ix {
    let lp = if u == TOLLER { toll_wallet(p) } else { lp_wallet(u, p) };
    let mut i = ix(
        amm::accounts::RedeemLiquidity {
            user: who(u),
            pool: pool(p),
            pool_signer: signer(p),
            lp_mint: lp_mint(p),
            lp_token_wallet: lp,
            token_program: spl_token::id(),
        },
        amm::instruction::RedeemLiquidity {
            lp_tokens_to_burn: TokenAmount { amount: burn },
            min_amount_tokens: limits(min),
        },
    );
    for m in mints {
        i.metas.push(AccountMeta::new(vault(p, *m), false));
        i.metas.push(AccountMeta::new(wallet(u, *m), false));
    }
    i
}
pub fn swap(p: usize, u: usize, sell: usize, buy: usize, amount: u64, min_buy: u64) -> Ix {
    ix(
        amm::accounts::Swap {
            user: who(u),
            discount: discount(u),
            pool: pool(p),
            pool_signer: signer(p),
            sell_wallet: wallet(u, sell),
            buy_wallet: wallet(u, buy),
            sell_vault: vault(p, sell),
            buy_vault: vault(p, buy),
            lp_mint: lp_mint(p),
            program_toll_wallet: toll_wallet(p),
            token_program: spl_token::id(),
        },
        amm::instruction::Swap { sell: TokenAmount { amount }, min_buy: TokenAmount { amount: min_buy } },
    )
}
pub fn set_fee(p: usize, by: usize, fee: u64) -> Ix {
    ix(
        amm::accounts::SetPoolSwapFee { admin: who(by), pool: pool(p) },
        amm::instruction::SetPoolSwapFee { fee: Permillion { permillion: fee } },
    )
}
pub fn put_discount(by: usize, user: usize, amount: u64, valid_until: u64) -> Ix {
    let mut i = ix(
        amm::accounts::PutDiscount {
            authority: who(by),
            discount: discount(user),
            discount_settings: settings(),
            system_program: system_program::id(),
        },
        amm::instruction::PutDiscount {
            user: who(user),
            discount_amount: Permillion { permillion: amount },
            valid_until: Slot { slot: valid_until },
        },
    );
    // the account may have to be created
    i.metas[0].is_writable = true;
    i
}

pub fn send(svm: &mut Svm, ix: &Ix) -> std::result::Result<(), Fail> {
    svm.run(&ix.metas, &ix.data)
}

fn read<T: AccountDeserialize>(svm: &Svm, k: &Pubkey) -> Option<T> {
    let a = svm.get(k)?;
    if a.owner != amm::id() {
        return None;
    }
    T::try_deserialize(&mut &a.data[..]).ok()
}
pub fn read_pool(svm: &Svm, k: &Pubkey) -> Option<Pool> {
    read(svm, k)
}
pub fn read_discount(svm: &Svm, k: &Pubkey) -> Option<Discount> {
    read(svm, k)
}
pub fn read_toll(svm: &Svm) -> Option<ProgramToll> {
    read(svm, &toll())
}
pub fn read_settings(svm: &Svm) -> Option<DiscountSettings> {
    read(svm, &settings())
}

/// amplifier and the stored invariant in units of 1e-18
pub fn curve(p: &Pool) -> (u64, Big) {
    match &p.curve {
        Curve::ConstProd => (0, Big::zero()),
        Curve::Stable { amplifier, invariant } => (*amplifier, {
            // 24 bytes, as in the account
            let raw = invariant.try_to_vec().unwrap();
            let limb = |i: usize| u64::from_le_bytes(raw[8 * i..8 * i + 8].try_into().unwrap());
            Big::from_limbs64(&[limb(0), limb(1), limb(2)])
        }),
    }
}
