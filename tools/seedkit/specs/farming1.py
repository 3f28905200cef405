FARM = "programs/farming/src/models/farm.rs"
FARMER = "programs/farming/src/models/farmer.rs"
LIB = "programs/farming/src/lib.rs"
EP = "programs/farming/src/endpoints/"

bug("f01-close-with-vested", "F01", "farming",
    "a farmer who closes the account while the only deposit is still vested",
    "A farmer can be closed while tokens are vested, which then stay in the stake vault without belonging to anybody.",
    [(EP + "close_farmer.rs", "    if farmer.total_deposited()?.amount != 0 {", "    if farmer.staked.amount != 0 {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 500).expect("deposit");
    s.slot += 1;
    let _ = send(&mut s, &close_farmer(0, 1, 1));
    assert!(read_farmer(&s, 0, 1).is_some(), "closed with 500 vested tokens");
    assert_eq!(deposited(&s, 0, 1), tok::amount(&s, &stake_vault(0)));
}
""")

bug("f02-unsigned-withdrawal", "F02", "farming",
    "a withdrawal in the name of a farmer who didn't sign it",
    "The authority of a farmer needn't sign a withdrawal, only its key has to be given; anybody can take the deposit.",
    [(EP + "stop_farming.rs", "    pub authority: Signer<'info>,", "    ///\n    /// CHECK: the farmer's address is derived from this key\n    pub authority: AccountInfo<'info>,")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 500).expect("deposit");
    let mut i = stop_farming(0, 1, 1, 0, 500);
    for a in i.metas.iter_mut() {
        a.is_signer = false;
        if a.pubkey == wallet(1, 0) {
            a.pubkey = wallet(6, 0);
        }
    }
    let _ = send(&mut s, &i);
    assert_eq!(deposited(&s, 0, 1), 500, "somebody else took the deposit");
}
""")

bug("f03-last-slot-of-period", "F03", "farming",
    "a harvest period whose last slot is the first one of a snapshot window or of what is left to settle",
    "A period which ends in the very slot a settlement starts from is left out, so that the harvest of that slot is lost.",
    [(FARMER, "                if range.end() < &starts_at {", "                if range.end() <= &starts_at {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 100).expect("deposit");
    period(&mut s, 0, 1, 110, 11, 70).expect("period of the slots 110 to 120");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 119;
    settle(&mut s, 0, 1).expect("settle");
    s.slot = 130;
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 1), 770);
}
""")

bug("f04-withdraw-before-settling", "F04", "farming",
    "a withdrawal by a farmer whose harvest was not settled right before it",
    "A withdrawal happens before the harvest is settled, hence the past slots are settled with the lower stake.",
    [(EP + "stop_farming.rs", """    accounts
        .farmer
        .check_vested_period_and_update_harvest(&farm, Slot::current()?)?;

    // removes the amount of tokens to be unstaked from the
    let unstake = accounts.farmer.unstake(unstake_max)?;
""", """    // removes the amount of tokens to be unstaked from the
    let unstake = accounts.farmer.unstake(unstake_max)?;

    accounts
        .farmer
        .check_vested_period_and_update_harvest(&farm, Slot::current()?)?;
""")],
    """
fn main() {
    let run = |settle_first: bool| {
        let mut s = start();
        open(&mut s, 0, 0, &[1]);
        join(&mut s, 0, 1);
        stake(&mut s, 0, 1, 100).expect("deposit");
        period(&mut s, 0, 1, 110, 100, 70).expect("period");
        s.slot = 105;
        snap(&mut s, 0);
        s.slot = 150;
        if settle_first {
            settle(&mut s, 0, 1).expect("settle");
        }
        unstake(&mut s, 0, 1, 60).expect("withdraw");
        s.slot = 250;
        settle(&mut s, 0, 1).expect("settle");
        owed(&s, 0, 1, 1)
    };
    assert_eq!(run(false), run(true), "the harvest depends on when it was settled");
}
""")

bug("f05-compound-restarts-vesting", "F05", "farming",
    "compounding in the same farm while an earlier deposit has been vested since before a snapshot",
    "The compounded tokens are added before the vested ones are checked, so that the vesting of these starts anew.",
    [(EP + "compound_same_farm.rs", """    accounts
        .farmer
        .check_vested_period_and_update_harvest(&farm, current_slot)?;

""", ""),
     (EP + "compound_same_farm.rs", """        .add_to_vested(current_slot, compound_tokens)?;
""", """        .add_to_vested(current_slot, compound_tokens)?;
    accounts
        .farmer
        .check_vested_period_and_update_harvest(&farm, current_slot)?;
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[0, 1]);
    send(&mut s, &whitelist_farm(0, 0, admin(0))).expect("whitelist");
    join(&mut s, 0, 1);
    send(&mut s, &airdrop(0, 1, 2, 0, 10)).expect("airdrop");
    stake(&mut s, 0, 1, 100).expect("deposit");
    period(&mut s, 0, 1, 110, 100, 70).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 108;
    send(&mut s, &compound_same(0, 1, 0)).expect("compound");
    s.slot = 119;
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 1), 700, "the 100 tokens were in the snapshot at slot 105");
}
""")

bug("f06-round-up-per-window", "F06", "farming",
    "shares which are not whole, so that rounding the farmers' harvest to the nearest adds up to more than there is",
    "The harvest of a window is rounded to the nearest token instead of down; together the farmers get more than was emitted.",
    [(FARMER, "                    .checked_add(eligible_harvest.try_floor()?)", "                    .checked_add(eligible_harvest.try_round()?)")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    for u in 0..3 {
        join(&mut s, 0, u);
        stake(&mut s, 0, u, 100).expect("deposit");
    }
    period(&mut s, 0, 1, 110, 2, 4).expect("period of eight tokens");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 120;
    let mut all = 0;
    for u in 0..3 {
        settle(&mut s, 0, u).expect("settle");
        all += owed(&s, 0, u, 1);
    }
    assert!(all <= 8, "{} of 8 tokens", all);
}
""")

bug("f07-settle-into-the-future", "F07", "farming",
    "a limited settlement whose limit is in the future",
    "A settlement until a future slot is not cut to the current one, hence harvest is credited before it is emitted.",
    [(LIB, "            Slot::current()?.min(until),", "            until,")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 100).expect("deposit");
    period(&mut s, 0, 1, 110, 100, 70).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 119;
    let _ = send(&mut s, &update_until(0, 1, 190));
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 1), 700, "ten slots have passed");
}
""")

bug("f08-repeated-pair", "F08", "farming",
    "a claim which lists the same vault twice",
    "The claimed amounts are only set to zero after all transfers, so a claim which names a vault twice is paid twice.",
    [(EP + "claim_eligible_harvest.rs", """    // for each [vault, wallet] pair""", """    let mut claimed_mints = Vec::new();

    // for each [vault, wallet] pair"""),
     (EP + "claim_eligible_harvest.rs", """            // update the map as we will eventually convert it back
            *eligible_harvest = TokenAmount::new(0);
""", """            claimed_mints.push(mint);
"""),
     (EP + "claim_eligible_harvest.rs", """    // the amounts which have been claimed were set to 0, update the array
""", """    for mint in claimed_mints {
        farmer_harvests.insert(mint, TokenAmount::new(0));
    }

    // the amounts which have been claimed were set to 0, update the array
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    for u in 0..2 {
        join(&mut s, 0, u);
        send(&mut s, &airdrop(0, u, 2, 1, 100)).expect("airdrop");
    }
    let had = has(&s, 1, 1);
    let w = wallet(1, 1);
    let _ = send(&mut s, &claim(0, 1, 1, &[(1, w), (1, w)]));
    assert!(has(&s, 1, 1) - had <= 100, "paid twice");
}
""")

bug("f10-replace-in-first-slot", "F10", "farming",
    "a new period opened in the very slot in which the scheduled one begins",
    "A period which begins in the current slot can still be replaced, although it's open already.",
    [(FARM, "        if latest_period.starts_at > current_slot {", "        if latest_period.starts_at >= current_slot {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    period(&mut s, 0, 1, 110, 10, 70).expect("period");
    s.slot = 110;
    let _ = period(&mut s, 0, 1, 120, 10, 5);
    let f = read_farm(&s, 0).unwrap();
    assert!(f.harvests[0].periods.iter().any(|p| p.starts_at.slot == 110), "an open period is gone");
}
""")

bug("f11-refund-at-new-rate", "F11", "farming",
    "a scheduled period replaced by one of another rate",
    "What is returned for a replaced period is calculated with the rate of the new one.",
    [(EP + "new_harvest_period.rs", """        starts_at,
        ends_at,
        tps,
    }) = scheduled_launch""", """        starts_at,
        ends_at,
        ..
    }) = scheduled_launch""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    let had = has(&s, admin(0), 1);
    period(&mut s, 0, 1, 110, 10, 70).expect("period");
    assert_eq!(had - has(&s, admin(0), 1), 700);
    period(&mut s, 0, 1, 120, 20, 10).expect("replacement");
    assert_eq!(had - has(&s, admin(0), 1), 200);
}
""")

bug("f12-compound-of-anybody", "F12", "farming",
    "two farms whitelisted for compounding, and farmers of different users given as source and target",
    "The farmers of a compounding between farms may belong to different users, so the harvest of others can be taken.",
    [(EP + "compound_across_farms.rs", """        constraint = source_farmer.authority == target_farmer.authority
            @ err::acc("Source and target farmer must be of the same user"),
""", "")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    open(&mut s, 1, 1, &[2]);
    send(&mut s, &whitelist_farm(0, 1, admin(0))).expect("whitelist");
    join(&mut s, 0, 1);
    join(&mut s, 1, 1);
    join(&mut s, 1, 2);
    send(&mut s, &airdrop(0, 1, 3, 1, 100)).expect("airdrop");
    assert!(send(&mut s, &compound_across(0, 1, 1, 2, 1)).is_err(), "compounded to somebody else");
    send(&mut s, &compound_across(0, 1, 1, 1, 1)).expect("compound");
    assert_eq!(deposited(&s, 1, 1), 100);
}
""")

bug("f13-airdrop-into-any-account", "F13", "farming",
    "an airdrop which names another token account than the harvest vault as the one to pay into",
    "The account an airdrop is paid into isn't checked to be the harvest vault, so that one can credit tokens which were never paid.",
    [(EP + "airdrop.rs", """    #[account(
        mut,
        seeds = [
            Harvest::VAULT_PREFIX,
            farmer.farm.as_ref(),
            harvest_wallet.mint.as_ref(),
        ],
        bump,
    )]
    pub harvest_vault: AccountInfo<'info>,""", """    #[account(mut)]
    pub harvest_vault: AccountInfo<'info>,""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    let mut i = airdrop(0, 1, 1, 1, 100);
    let own = tok::key("own", 1);
    tok::account(&mut s, own, mint(1), who(1), 0);
    for a in i.metas.iter_mut().filter(|a| a.pubkey == harvest_vault(0, 1)) {
        a.pubkey = own;
    }
    let _ = send(&mut s, &i);
    assert_eq!(owed(&s, 0, 1, 1), tok::amount(&s, &harvest_vault(0, 1)));
}
""")

bug("f14-first-harvest-unchecked", "F14", "farming",
    "a farm with ten harvest mints, or a new farmer, where the first harvest of the farmer isn't the empty one",
    "The first harvest of a farmer is taken for the uninitialized one and not looked at when the account is closed.",
    [(EP + "close_farmer.rs", "    if farmer.harvests.iter().any(|h| h.tokens.amount != 0) {",
      "    // the harvests are ordered by mint, the first is that of the default key\n    if farmer.harvests.iter().skip(1).any(|h| h.tokens.amount != 0) {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
    join(&mut s, 0, 1);
    for m in 1..11 {
        if send(&mut s, &airdrop(0, 1, 2, m, 5)).is_ok() {
            let _ = send(&mut s, &close_farmer(0, 1, 1));
            assert!(read_farmer(&s, 0, 1).is_some(), "closed with 5 tokens to claim of mint {}", m);
            collect(&mut s, 0, 1, m).expect("claim");
        }
    }
}
""")

bug("f15-removed-mints-kept", "F15", "farming",
    "ten harvest mints of which one is replaced by a new one while the farmer still has the old one in the account",
    "Mints which the admin removed stay in the farmer's account and can push out others, with what is owed in them.",
    [(FARMER, """    farmer_harvests.retain(|farmer_harvest_mint, _| {
        farm_harvests.contains_key(farmer_harvest_mint)
    });
""", """    farmer_harvests.retain(|farmer_harvest_mint, tokens| {
        farm_harvests.contains_key(farmer_harvest_mint)
            || *farmer_harvest_mint != Pubkey::default() && tokens.amount == 0
    });
""")],
    """
fn main() {
    let mints = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    for gone in mints {
        let mut s = start();
        open(&mut s, 0, 0, &mints);
        join(&mut s, 0, 1);
        for m in mints.iter().filter(|m| **m != gone) {
            send(&mut s, &airdrop(0, 1, 2, *m, 5)).expect("airdrop");
        }
        send(&mut s, &remove_harvest(0, admin(0), gone)).expect("remove");
        send(&mut s, &add_harvest(0, admin(0), 11)).expect("add");
        stake(&mut s, 0, 1, 100).expect("deposit");
        s.slot += 5;
        snap(&mut s, 0);
        s.slot += 5;
        settle(&mut s, 0, 1).expect("settle");
        for m in mints.iter().filter(|m| **m != gone) {
            assert_eq!(owed(&s, 0, 1, *m), 5, "mint {} after {} was replaced", m, gone);
        }
    }
}
""")

bug("f16-dewhitelist-by-target", "F16", "farming",
    "an attempt to revoke a whitelisting, by the admin of the other farm",
    "It's the admin of the target farm who can revoke a whitelisting, instead of the one of the source farm.",
    [(EP + "dewhitelist_farm_for_compounding.rs", """    let source_farm = accounts.source_farm.load()?;

    if source_farm.admin != accounts.admin.key() {""", """    let target_farm = accounts.target_farm.load()?;

    if target_farm.admin != accounts.admin.key() {""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    open(&mut s, 1, 1, &[2]);
    send(&mut s, &whitelist_farm(0, 1, admin(0))).expect("whitelist");
    assert!(send(&mut s, &dewhitelist_farm(0, 1, admin(1))).is_err(), "revoked by the wrong admin");
    send(&mut s, &dewhitelist_farm(0, 1, admin(0))).expect("revoke");
}
""")

bug("f17-deposit-into-any-account", "F17", "farming",
    "a deposit which names an own token account instead of the stake vault",
    "The account a deposit is paid into isn't checked to be the stake vault, so that one can withdraw what was never deposited.",
    [(EP + "start_farming.rs", """    #[account(
        mut,
        seeds = [
            Farm::STAKE_VAULT_PREFIX,
            farm.key().as_ref(),
        ],
        bump,
    )]
    pub stake_vault: AccountInfo<'info>,""", """    #[account(mut)]
    pub stake_vault: AccountInfo<'info>,""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    join(&mut s, 0, 6);
    stake(&mut s, 0, 1, 1_000).expect("deposit");
    let mut i = start_farming(0, 6, 6, 0, 1_000);
    let own = tok::key("own", 1);
    tok::account(&mut s, own, mint(0), who(6), 0);
    for a in i.metas.iter_mut().filter(|a| a.pubkey == stake_vault(0)) {
        a.pubkey = own;
    }
    let _ = send(&mut s, &i);
    let _ = unstake(&mut s, 0, 6, 1_000);
    assert_eq!(tok::amount(&s, &stake_vault(0)), 1_000, "the deposit of another was taken");
}
""")

