//! Token mints and accounts in the database.

use crate::vm::Svm;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::{program_option::COption, program_pack::Pack};
use spl_token::state::{Account, AccountState, Mint};

pub fn mint(svm: &mut Svm, key: Pubkey, authority: Option<Pubkey>, freeze: Option<Pubkey>, supply: u64) {
    let m = Mint {
        mint_authority: authority.map(COption::Some).unwrap_or(COption::None),
        supply,
        decimals: 6,
        is_initialized: true,
        freeze_authority: freeze.map(COption::Some).unwrap_or(COption::None),
    };
    let mut d = vec![0; Mint::LEN];
    Mint::pack(m, &mut d).unwrap();
    svm.put(key, spl_token::id(), d);
}

pub fn account(svm: &mut Svm, key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let a = Account {
        mint,
        owner,
        amount,
        delegate: COption::None,
        state: AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    };
    set(svm, key, a);
}

pub fn set(svm: &mut Svm, key: Pubkey, a: Account) {
    let mut d = vec![0; Account::LEN];
    Account::pack(a, &mut d).unwrap();
    svm.put(key, spl_token::id(), d);
}

pub fn read(svm: &Svm, key: &Pubkey) -> Option<Account> {
    let a = svm.get(key)?;
    if a.owner != spl_token::id() || a.data.len() != Account::LEN {
        return None;
    }
    Account::unpack(&a.data).ok()
}

/// Zero if there is no such account.
pub fn amount(svm: &Svm, key: &Pubkey) -> u64 {
    read(svm, key).map(|a| a.amount).unwrap_or(0)
}

pub fn add(svm: &mut Svm, key: &Pubkey, by: u64) -> bool {
    match read(svm, key) {
        Some(mut a) => match a.amount.checked_add(by) {
            Some(n) => {
                a.amount = n;
                set(svm, *key, a);
                true
            }
            None => false,
        },
        None => false,
    }
}

pub fn read_mint(svm: &Svm, key: &Pubkey) -> Option<Mint> {
    let a = svm.get(key)?;
    if a.owner != spl_token::id() || a.data.len() != Mint::LEN {
        return None;
    }
    Mint::unpack(&a.data).ok()
}

/// A deterministic key.
pub fn key(tag: &str, n: u64) -> Pubkey {
    let h = anchor_lang::solana_program::hash::hashv(&[b"verif", tag.as_bytes(), &n.to_le_bytes()]);
    Pubkey::new(h.as_ref())
}
