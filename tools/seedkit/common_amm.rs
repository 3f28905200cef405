//! Shared by the scenarios: pools, users and shorthands.
#![allow(dead_code)]
pub use crate::client::*;
pub use anchor_lang::prelude::Pubkey;
pub use svm::tok;
pub use svm::vm::{Acct, Fail, Svm};

pub type R = Result<(), Fail>;

pub fn start() -> Svm {
    svm::vm::init();
    let mut s = new_svm();
    s.slot = 1000;
    for m in 0..MINTS {
        tok::mint(&mut s, mint(m), None, None, u64::MAX);
        for w in 0..WHO {
            tok::account(&mut s, wallet(w, m), mint(m), who(w), 1 << 60);
        }
    }
    send(&mut s, &create_toll(who(UPGRADER), amm::id(), metadata(), who(TOLLER))).expect("toll");
    send(&mut s, &create_settings(who(UPGRADER), amm::id(), metadata(), who(DISCOUNTER))).expect("settings");
    s
}

/// Pool `p` of the mints 0.., with a first deposit of user 0 (none if empty).
pub fn open(s: &mut Svm, p: usize, amp: u64, n: usize, first: &[u64], fee: u64) {
    accounts(s, p, n);
    let vaults: Vec<Pubkey> = (0..n).map(|m| vault(p, m)).collect();
    send(s, &create_pool(p, admin_of(p), amp, &vaults)).expect("create_pool");
    if fee > 0 {
        send(s, &set_fee(p, admin_of(p), fee)).expect("set_fee");
    }
    if !first.is_empty() {
        put(s, p, 0, first).expect("first deposit");
    }
}

pub fn accounts(s: &mut Svm, p: usize, n: usize) {
    tok::mint(s, lp_mint(p), Some(signer(p)), None, 0);
    tok::account(s, toll_wallet(p), lp_mint(p), who(TOLLER), 0);
    for u in 0..WHO {
        tok::account(s, lp_wallet(u, p), lp_mint(p), who(u), 0);
    }
    for m in 0..n {
        tok::account(s, vault(p, m), mint(m), signer(p), 0);
    }
}

pub fn put(s: &mut Svm, p: usize, u: usize, max: &[u64]) -> R {
    let l: Vec<(usize, u64)> = max.iter().copied().enumerate().collect();
    let m: Vec<usize> = (0..max.len()).collect();
    send(s, &deposit(p, u, &l, &m))
}
pub fn take(s: &mut Svm, p: usize, u: usize, burn: u64, min: &[u64]) -> R {
    let l: Vec<(usize, u64)> = min.iter().copied().enumerate().collect();
    let m: Vec<usize> = (0..min.len()).collect();
    send(s, &redeem(p, u, burn, &l, &m))
}
pub fn trade(s: &mut Svm, p: usize, u: usize, sell: usize, buy: usize, amount: u64, min: u64) -> R {
    send(s, &swap(p, u, sell, buy, amount, min))
}
pub fn has(s: &Svm, u: usize, m: usize) -> u64 {
    tok::amount(s, &wallet(u, m))
}
pub fn lp(s: &Svm, u: usize, p: usize) -> u64 {
    tok::amount(s, &lp_wallet(u, p))
}
pub fn reserves(s: &Svm, p: usize) -> Vec<u64> {
    let y = read_pool(s, &pool(p)).expect("pool");
    y.reserves[..y.dimension as usize].iter().map(|r| r.tokens.amount).collect()
}
pub fn supply(s: &Svm, p: usize) -> u64 {
    tok::read_mint(s, &lp_mint(p)).expect("LP mint").supply
}
pub fn product(x: &[u64]) -> svm::big::Big {
    x.iter().fold(svm::big::Big::one(), |a, v| &a * &svm::big::Big::from(*v))
}
