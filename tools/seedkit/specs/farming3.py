FARM = "programs/farming/src/models/farm.rs"
FARMER = "programs/farming/src/models/farmer.rs"
LIB = "programs/farming/src/lib.rs"
EP = "programs/farming/src/endpoints/"

bug("f09-window-after-wrap", "F09", "farming",
    "a second snapshot too soon after the one with which the ring buffer starts again",
    "The slot of the last snapshot is read from index one while the tip is at zero; right after the buffer starts again, snapshots can be taken too soon.",
    [(FARM, "            [(snapshots.ring_buffer_tip as usize)]\n", "            [(snapshots.ring_buffer_tip as usize).max(1)]\n")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    send(&mut s, &set_window(0, 4, 10)).unwrap();
    for _ in 0..1000 {
        s.slot += 10;
        snap(&mut s, 0);
    }
    s.slot += 3;
    assert!(send(&mut s, &take_snapshot(0)).is_err(), "two snapshots within the window");
}
""")

bug("f12-mint-of-source", "F12", "farming",
    "a source farm in which its own stake mint can be harvested too, and is staked something else than in the target farm",
    "A compounding between farms takes the harvest in the stake mint of the source farm, and pays the same amount in that of the target.",
    [(EP + "compound_across_farms.rs", ".claim_harvest(target_farm.stake_mint)?", ".claim_harvest(source_farm.stake_mint)?")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[0, 1]);
    open(&mut s, 1, 1, &[2]);
    send(&mut s, &whitelist_farm(0, 1, 4)).unwrap();
    join(&mut s, 0, 1);
    join(&mut s, 1, 1);
    join(&mut s, 0, 2);
    send(&mut s, &airdrop(0, 1, 3, 0, 500)).unwrap();
    send(&mut s, &airdrop(0, 1, 3, 1, 70)).unwrap();
    send(&mut s, &airdrop(0, 2, 3, 1, 5000)).unwrap();
    send(&mut s, &compound_across(0, 1, 1, 1, 1)).unwrap();
    assert_eq!((owed(&s, 0, 1, 0), owed(&s, 0, 1, 1), deposited(&s, 1, 1)), (500, 0, 70));
}
""")

bug("f12-any-whitelisting", "F12", "farming",
    "a pair of farms which is not whitelisted, and the whitelisting of another pair",
    "The account which proves the whitelisting may be that of any pair of farms.",
    [(EP + "compound_across_farms.rs", """    #[account(
        seeds = [
            Farm::WHITELIST_PDA_PREFIX,
            source_farm.key().as_ref(),
            target_farm.key().as_ref()
        ],
        bump,
    )]
    pub whitelist_compounding""", """    pub whitelist_compounding""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    open(&mut s, 1, 1, &[2]);
    send(&mut s, &whitelist_farm(1, 0, 5)).unwrap();
    join(&mut s, 0, 1);
    join(&mut s, 1, 1);
    send(&mut s, &airdrop(0, 1, 3, 1, 500)).unwrap();
    let mut i = compound_across(0, 1, 1, 1, 1);
    for a in i.metas.iter_mut() {
        if a.pubkey == whitelist(0, 1) {
            a.pubkey = whitelist(1, 0);
        }
    }
    assert!(send(&mut s, &i).is_err(), "compounded without the source's consent");
}
""")

bug("f03-tenth-period", "F03", "farming",
    "ten recorded periods, the first of which has not been settled yet",
    "The oldest of ten periods is left out of the history of emissions.",
    [(FARM, "            .chain(iter::once(padding.as_slice()))\n", "            .chain(iter::once(&padding[1..]).filter(|p| p.len() == 2))\n")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    s.slot = 105;
    snap(&mut s, 0);
    for i in 0..10 {
        period(&mut s, 0, 1, 0, 2, 10 + i).expect("period");
        s.slot += 3;
    }
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 1), 290);
}
""")

bug("f10-begun-in-the-past", "F10", "farming",
    "a period given a beginning in the past and an end in the future",
    "Only a period which is over by now is refused; one which began in the past is accepted and alters slots which were settled already.",
    [(EP + "new_harvest_period.rs", "} else if starts_at < current_slot {",
      "} else if starts_at.slot.saturating_add(period_length_in_slots)\n        <= current_slot.slot\n    {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    s.slot = 1000;
    assert!(period(&mut s, 0, 1, 950, 100, 7).is_err(), "a period which began in the past");
}
""")

bug("f11-pays-what-there-is", "F11", "farming",
    "an admin whose wallet holds less than the price of the period",
    "If the wallet can't pay the period, all that it holds is taken instead, and the period is opened without being funded.",
    [(EP + "new_harvest_period.rs", """            if deposit_amount > accounts.harvest_wallet.amount {
                return Err(error!(err::acc(format!(
                    "Insufficient tokens in harvest wallet, must deposit {}",
                    deposit_amount
                ))));
            }
""", """            let deposit_amount =
                deposit_amount.min(accounts.harvest_wallet.amount);
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    assert!(period(&mut s, 0, 1, 200, 1 << 30, 1 << 30).is_err(), "a period which isn't paid");
}
""")

bug("f17-settled-by-another-farm", "F17", "farming",
    "a settlement which names another farm than the farmer's, one with the same harvest mint",
    "A farmer can be settled with the emission and the snapshots of another farm, and is credited what the vault of its own has for others.",
    [(EP + "update_eligible_harvest.rs", """    #[account(
        mut,
        constraint = farmer.farm == farm.key()
            @ err::acc("Farmer is set up for a different farm"),
    )]
""", """    #[account(mut)]
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    open(&mut s, 1, 3, &[1]);
    for f in 0..2 {
        join(&mut s, f, 6);
        join(&mut s, f, 1);
    }
    stake(&mut s, 0, 6, 1000).expect("deposit");
    stake(&mut s, 0, 1, 1000).expect("deposit");
    stake(&mut s, 1, 6, 1).expect("deposit");
    period(&mut s, 0, 1, 110, 100, 2).expect("period");
    period(&mut s, 1, 1, 110, 100, 2).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    snap(&mut s, 1);
    s.slot = 150;
    settle(&mut s, 0, 6).expect("settle");
    s.slot = 155;
    let mut i = update(0, 6);
    for a in i.metas.iter_mut() {
        if a.pubkey == farm(0) {
            a.pubkey = farm(1);
        }
    }
    let _ = send(&mut s, &i);
    settle(&mut s, 0, 6).expect("settle");
    assert!(owed(&s, 0, 6, 1) <= 46, "credited {}", owed(&s, 0, 6, 1));
}
""")

bug("f09-long-window-cut", "F09", "farming",
    "a minimum window which is longer than the default one",
    "A window longer than the default of 7200 slots is cut to it, so that snapshots can be taken sooner than the admin has set.",
    [(FARM, "            self.min_snapshot_window_slots\n        };", "            self.min_snapshot_window_slots\n                .min(consts::MIN_SNAPSHOT_WINDOW_SLOTS)\n        };")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    send(&mut s, &set_window(0, 4, 20_000)).unwrap();
    s.slot = 30_000;
    snap(&mut s, 0);
    s.slot += 10_000;
    assert!(send(&mut s, &take_snapshot(0)).is_err(), "two snapshots within the window");
}
""")

bug("f05-deposit-restarts-vesting", "F05", "farming",
    "a second deposit, after a snapshot, by somebody whose first one was not settled since that snapshot",
    "A deposit is added before the vested tokens are checked, so that an earlier deposit which has vested meanwhile starts to vest anew.",
    [(EP + "start_farming.rs", """    accounts
        .farmer
        .check_vested_period_and_update_harvest(&farm, current_slot)?;

    // marks the funds as vested, they won't be eligible for harvest until the
    // next snapshot
    accounts.farmer.add_to_vested(current_slot, stake)?;
""", """    accounts.farmer.add_to_vested(current_slot, stake)?;
    accounts
        .farmer
        .check_vested_period_and_update_harvest(&farm, current_slot)?;

""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    period(&mut s, 0, 1, 110, 90, 7).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 119;
    stake(&mut s, 0, 1, 1).expect("deposit");
    assert_eq!(owed(&s, 0, 1, 1), 70);
}
""")

bug("f02-difference-first", "F02", "farming",
    "a withdrawal of more than the staked tokens, with some vested ones which are not enough either, and not of everything",
    "The limit is subtracted from the staked tokens before the vested ones are added, so that withdrawals of more than is staked fail.",
    [(FARMER, "                self.staked.amount -= max.amount - self.vested.amount;\n",
      "                self.staked.amount =\n                    self.staked.amount - max.amount + self.vested.amount;\n")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 119;
    stake(&mut s, 0, 1, 900).expect("deposit");
    unstake(&mut s, 0, 1, 1500).expect("withdrawal");
    assert_eq!(has(&s, 1, 0), (1 << 50) - 400);
}
""")
