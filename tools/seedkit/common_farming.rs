//! Shared by the scenarios: farms, users and shorthands. Admin of farm 0 is 4,
//! of farm 1 is 5. Mint 0 is staked, the others are harvested.
#![allow(dead_code)]
pub use crate::client::*;
pub use anchor_lang::prelude::Pubkey;
pub use svm::tok;
pub use svm::vm::{Acct, Fail, Svm};

pub type R = Result<(), Fail>;

pub fn start() -> Svm {
    svm::vm::init();
    let mut s = new_svm();
    s.slot = 100;
    for m in 0..MINTS {
        tok::mint(&mut s, mint(m), None, None, u64::MAX);
        for w in 0..WHO {
            tok::account(&mut s, wallet(w, m), mint(m), who(w), 1 << 50);
        }
    }
    s
}

pub fn admin(f: usize) -> usize {
    4 + f
}

/// A farm with these harvests, where a snapshot may be taken in every slot.
pub fn open(s: &mut Svm, f: usize, stake: usize, harvests: &[usize]) {
    put_blank_farm(s, f);
    send(s, &create_farm(f, admin(f), stake)).expect("create_farm");
    send(s, &set_window(f, admin(f), 1)).expect("set_window");
    for m in harvests {
        send(s, &add_harvest(f, admin(f), *m)).expect("add_harvest");
    }
}
pub fn join(s: &mut Svm, f: usize, u: usize) {
    send(s, &create_farmer(f, u, u)).expect("create_farmer");
}
pub fn stake(s: &mut Svm, f: usize, u: usize, n: u64) -> R {
    let m = mint_of(s, f);
    send(s, &start_farming(f, u, u, m, n))
}
pub fn unstake(s: &mut Svm, f: usize, u: usize, n: u64) -> R {
    let m = mint_of(s, f);
    send(s, &stop_farming(f, u, u, m, n))
}
fn mint_of(s: &Svm, f: usize) -> usize {
    let k = read_farm(s, f).expect("farm").stake_mint;
    (0..MINTS).find(|m| mint(*m) == k).unwrap()
}
pub fn snap(s: &mut Svm, f: usize) {
    send(s, &take_snapshot(f)).expect("take_snapshot");
}
pub fn period(s: &mut Svm, f: usize, m: usize, starts: u64, len: u64, tps: u64) -> R {
    send(s, &new_period(f, admin(f), m, starts, len, tps))
}
pub fn settle(s: &mut Svm, f: usize, u: usize) -> R {
    send(s, &update(f, u))
}
pub fn collect(s: &mut Svm, f: usize, u: usize, m: usize) -> R {
    send(s, &claim(f, u, u, &[(m, wallet(u, m))]))
}
pub fn owed(s: &Svm, f: usize, u: usize, m: usize) -> u64 {
    accrued(&read_farmer(s, f, u).expect("farmer"), &mint(m)).unwrap_or(0)
}
pub fn deposited(s: &Svm, f: usize, u: usize) -> u64 {
    let x = read_farmer(s, f, u).expect("farmer");
    x.staked.amount + x.vested.amount
}
pub fn has(s: &Svm, u: usize, m: usize) -> u64 {
    tok::amount(s, &wallet(u, m))
}
