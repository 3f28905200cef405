FARM = "programs/farming/src/models/farm.rs"
FARMER = "programs/farming/src/models/farmer.rs"
LIB = "programs/farming/src/lib.rs"
EP = "programs/farming/src/endpoints/"

bug("f19-unsigned-admin", "F19", "farming",
    "an admin who did not sign, and a vault's address which holds enough lamports already, so that nobody has to pay",
    "The admin of a new farm needn't sign if the stake vault has been paid for beforehand.",
    [(EP + "create_farm.rs", "    pub admin: Signer<'info>,", "    /// CHECK: pays for the vault\n    pub admin: AccountInfo<'info>,")],
    """
fn main() {
    let mut s = start();
    put_blank_farm(&mut s, 0);
    s.fund(stake_vault(0), 1_000_000_000);
    let mut i = create_farm(0, 4, 0);
    for a in i.metas.iter_mut() {
        a.is_signer = false;
    }
    assert!(send(&mut s, &i).is_err(), "a farm was created in the name of somebody who did not sign");
}
""")

bug("f01-claim-from-stake-vault", "F01", "farming",
    "a harvest mint which is the stake mint too, and a claim which names the stake vault instead of the harvest vault",
    "A claim may be paid from any account which the farm's signer owns, so that harvest can be taken out of the deposits.",
    [(EP + "claim_eligible_harvest.rs", "        let mint = TokenAccount::try_deserialize(&mut data)?.mint;",
      "        let account = TokenAccount::try_deserialize(&mut data)?;\n        let (mint, owner) = (account.mint, account.owner);"),
     (EP + "claim_eligible_harvest.rs", """        let (expected_vault, _) = Pubkey::find_program_address(
            &[
                Harvest::VAULT_PREFIX,
                accounts.farmer.farm.as_ref(),
                mint.as_ref(),
            ],
            ctx.program_id,
        );

        if expected_vault != vault.key() {
            return Err(error!(err::acc(format!(
                "Harvest vault for mint '{}' expected to be '{}' but got '{}'",
                mint,
                expected_vault,
                vault.key()
            ))));
        }
""", """        if owner != accounts.farm_signer_pda.key() {
            return Err(error!(err::acc(format!(
                "Harvest vault for mint '{}' must be owned by '{}'",
                mint,
                accounts.farm_signer_pda.key()
            ))));
        }
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[0]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 5000).expect("deposit");
    period(&mut s, 0, 0, 110, 10, 7).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 130;
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 0), 70);
    let mut i = claim(0, 1, 1, &[(0, wallet(1, 0))]);
    for a in i.metas.iter_mut() {
        if a.pubkey == harvest_vault(0, 0) {
            a.pubkey = stake_vault(0);
        }
    }
    let _ = send(&mut s, &i);
    assert_eq!(tok::amount(&s, &stake_vault(0)), deposited(&s, 0, 1));
}
""")

bug("f02-farmer-of-another-farm", "F02", "farming",
    "a withdrawal by somebody who has a deposit in another farm",
    "A withdrawal only needs a farmer of the authority, of whatever farm; a deposit in a worthless farm can be withdrawn from another one's vault.",
    [(EP + "stop_farming.rs", """        mut,
        seeds = [
            Farmer::ACCOUNT_PREFIX,
            farm.key().as_ref(),
            authority.key().as_ref(),
        ],
        bump,
    )]
    pub farmer""", """        mut,
        constraint = farmer.authority == authority.key()
            @ err::acc("Authority does not own this farmer"),
    )]
    pub farmer""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    open(&mut s, 1, 2, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 500).expect("deposit");
    join(&mut s, 1, 2);
    stake(&mut s, 1, 2, 500).expect("deposit in the other farm");
    let before = has(&s, 2, 0);
    let mut i = stop_farming(0, 2, 2, 0, 500);
    for a in i.metas.iter_mut() {
        if a.pubkey == farmer(0, 2) {
            a.pubkey = farmer(1, 2);
        }
    }
    let _ = send(&mut s, &i);
    assert_eq!(has(&s, 2, 0), before, "withdrawn without any deposit in this farm");
}
""")

bug("f03-floor-per-period", "F03", "farming",
    "several periods which begin within the same snapshot window, and shares which are no whole tokens in each",
    "The harvest is rounded down for each period of a window and not once per window, so that up to a token per period is lost.",
    [(FARMER, """                    eligible_harvest = eligible_harvest.try_add(
                        Decimal::from(slots)
                            .try_mul(farmer_share)?
                            .try_mul(Decimal::from(tps.amount))?,
                    )?;""", """                    let in_period = Decimal::from(slots)
                        .try_mul(farmer_share)?
                        .try_mul(Decimal::from(tps.amount))?
                        .try_floor()?;
                    eligible_harvest =
                        eligible_harvest.try_add(Decimal::from(in_period))?;""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    join(&mut s, 0, 2);
    stake(&mut s, 0, 1, 1).expect("deposit");
    stake(&mut s, 0, 2, 1).expect("deposit");
    s.slot = 105;
    snap(&mut s, 0);
    period(&mut s, 0, 1, 106, 3, 1).expect("first period");
    s.slot = 107;
    period(&mut s, 0, 1, 109, 3, 1).expect("second period");
    s.slot = 130;
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 1), 3);
}
""")

bug("f04-settled-in-slot-of-snapshot", "F04", "farming",
    "a settlement in the very slot in which a snapshot was taken, and a total stake which changed with it",
    "Who settles in the slot of a snapshot gets that slot by the share of the last window.",
    [(FARMER, "            .skip_while(|snapshot| snapshot.started_at > until);", "            .skip_while(|snapshot| snapshot.started_at >= until);")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    join(&mut s, 0, 2);
    stake(&mut s, 0, 1, 100).expect("deposit");
    period(&mut s, 0, 1, 101, 1000, 100).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 110;
    stake(&mut s, 0, 2, 300).expect("deposit");
    s.slot = 120;
    snap(&mut s, 0);
    let mut other = s.clone();
    settle(&mut s, 0, 1).expect("settle");
    for s in [&mut s, &mut other] {
        s.slot = 130;
        settle(s, 0, 1).expect("settle");
    }
    assert_eq!(owed(&s, 0, 1, 1), owed(&other, 0, 1, 1));
}
""")

bug("f06-snapshot-of-any-account", "F06", "farming",
    "a snapshot taken of another token account of the stake mint, with next to nothing in it",
    "Snapshots may be taken of any account of the stake mint; with a small one all shares are too big, so that more is credited than emitted.",
    [(EP + "take_snapshot.rs", "    if accounts.stake_vault.key() != farm.stake_vault {", "    if accounts.stake_vault.mint != farm.stake_mint {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    period(&mut s, 0, 1, 106, 10, 10).expect("period");
    s.slot = 105;
    let k = tok::key("small", 0);
    tok::account(&mut s, k, mint(0), who(6), 10);
    let mut i = take_snapshot(0);
    for a in i.metas.iter_mut() {
        if a.pubkey == stake_vault(0) {
            a.pubkey = k;
        }
    }
    if send(&mut s, &i).is_err() {
        snap(&mut s, 0);
    }
    s.slot = 130;
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 1), 100);
}
""")

bug("f07-rewind", "F07", "farming",
    "a settlement limited to a slot which has been settled already",
    "The settlement position is set even if nothing was to be settled; with a limit in the past it goes back, and slots are credited twice.",
    [(FARMER, """        // and then use the staked funds to calculate harvest until this slot
        self.update_eligible_harvest(farm, current_slot)?;
""", """        // and then use the staked funds to calculate harvest until this slot
        self.update_eligible_harvest(farm, current_slot)?;

        // plus one because calculation is _inclusive_ of the current slot
        self.calculate_next_harvest_from.slot = current_slot.slot + 1;
"""),
     (FARMER, """        self.set_harvests(farmer_harvests)?;

        // plus one because calculation is _inclusive_ of the current slot
        self.calculate_next_harvest_from.slot = current_slot.slot + 1;

        Ok(())""", """        self.set_harvests(farmer_harvests)""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    period(&mut s, 0, 1, 106, 10, 10).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 130;
    settle(&mut s, 0, 1).expect("settle");
    let _ = send(&mut s, &update_until(0, 1, 107));
    settle(&mut s, 0, 1).expect("settle");
    assert_eq!(owed(&s, 0, 1, 1), 100);
}
""")

bug("f08-stop-at-empty", "F08", "farming",
    "a claim of several mints, where nothing is owed in one which is not the last",
    "A claim stops at the first pair in which nothing is owed, and leaves out those after it.",
    [(EP + "claim_eligible_harvest.rs", """        if let Some(eligible_harvest) =
            farmer_harvests.get_mut(&mint).filter(|h| h.amount > 0)
        {
            let vault = vault.to_account_info();
            let wallet = wallet.to_account_info();
            token::transfer(
                accounts
                    .as_transfer_eligible_harvest_context(vault, wallet)
                    .with_signer(&[&pda_seeds[..]]),
                eligible_harvest.amount,
            )?;

            // update the map as we will eventually convert it back
            *eligible_harvest = TokenAmount::new(0);
        }
""", """        let eligible_harvest = match farmer_harvests.get_mut(&mint) {
            Some(h) if h.amount > 0 => h,
            _ => break,
        };
        let vault = vault.to_account_info();
        let wallet = wallet.to_account_info();
        token::transfer(
            accounts
                .as_transfer_eligible_harvest_context(vault, wallet)
                .with_signer(&[&pda_seeds[..]]),
            eligible_harvest.amount,
        )?;

        // update the map as we will eventually convert it back
        *eligible_harvest = TokenAmount::new(0);
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1, 2]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    period(&mut s, 0, 2, 106, 10, 10).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 130;
    settle(&mut s, 0, 1).expect("settle");
    let before = has(&s, 1, 2);
    send(&mut s, &claim(0, 1, 1, &[(1, wallet(1, 1)), (2, wallet(1, 2))])).expect("claim");
    assert_eq!(has(&s, 1, 2), before + 100);
}
""")

bug("f10-period-which-began-before", "F10", "farming",
    "ten periods within more than a thousand snapshots, the oldest of which began before and ended after the oldest snapshot",
    "A period is dropped once it began before the oldest snapshot, although farmers can still be owed for the rest of it.",
    [(FARM, "            && oldest_period.ends_at.slot >= oldest_snapshot.started_at.slot", "            && oldest_period.starts_at.slot\n                >= oldest_snapshot.started_at.slot")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    period(&mut s, 0, 1, 110, 500, 10).expect("period");
    s.slot = 105;
    while s.slot < 105 + 1200 {
        snap(&mut s, 0);
        s.slot += 1;
    }
    let mut refused = false;
    for k in 0..10 {
        s.slot += 3;
        let now = s.slot;
        refused = period(&mut s, 0, 1, now, 2, 1).is_err();
        assert!(!refused || k == 9);
    }
    assert!(refused, "the period until slot 609 was dropped, with a snapshot of slot {}", read_farm(&s, 0).unwrap().oldest_snapshot().started_at.slot);
}
""")

bug("f11-whole-price-needed", "F11", "farming",
    "an admin who replaces a scheduled period and has enough for the difference only",
    "To replace a period, the admin must have the whole price of the new one, and not only what is to be paid in addition.",
    [(EP + "new_harvest_period.rs", "            if deposit_amount > accounts.harvest_wallet.amount {", "            if new_period_total_tokens.amount > accounts.harvest_wallet.amount\n            {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    tok::account(&mut s, wallet(4, 1), mint(1), who(4), 1100);
    period(&mut s, 0, 1, 1000, 100, 10).expect("period");
    period(&mut s, 0, 1, 1000, 100, 11).expect("only 100 more tokens are needed");
    assert_eq!(has(&s, 4, 1), 0);
}
""")

bug("f12-compound-elsewhere", "F12", "farming",
    "a compounding between farms which names another account instead of the target's stake vault",
    "The account which gets the compounded tokens only has to be of the right mint, while the target farmer is credited with a deposit.",
    [(EP + "compound_across_farms.rs", """    #[account(
        mut,
        seeds = [
            Farm::STAKE_VAULT_PREFIX,
            target_farm.key().as_ref(),
        ],
        bump,
    )]
    pub target_stake_vault""", """    #[account(mut)]
    pub target_stake_vault""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[2]);
    open(&mut s, 1, 2, &[1]);
    send(&mut s, &whitelist_farm(0, 1, admin(0))).expect("whitelist");
    join(&mut s, 0, 1);
    join(&mut s, 1, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    period(&mut s, 0, 2, 106, 10, 10).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 130;
    let mut i = compound_across(0, 1, 1, 1, 2);
    for a in i.metas.iter_mut() {
        if a.pubkey == stake_vault(1) {
            a.pubkey = wallet(6, 2);
        }
    }
    let _ = send(&mut s, &i);
    assert_eq!(deposited(&s, 1, 1), tok::amount(&s, &stake_vault(1)));
}
""")

bug("f13-claimed-mint-forgotten", "F13", "farming",
    "an airdrop to a farmer who has claimed the harvest of that mint since the last settlement",
    "A claim removes the mints in which nothing is owed any more from the farmer, who can't be given an airdrop in them until the next settlement.",
    [(EP + "claim_eligible_harvest.rs", "    accounts.farmer.set_harvests(farmer_harvests)?;",
      "    accounts\n        .farmer\n        .set_harvests(farmer_harvests.into_iter().filter(|(_, h)| h.amount > 0))?;")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    send(&mut s, &airdrop(0, 1, 2, 1, 50)).expect("airdrop");
    collect(&mut s, 0, 1, 1).expect("claim");
    send(&mut s, &airdrop(0, 1, 2, 1, 50)).expect("another airdrop");
    assert_eq!(owed(&s, 0, 1, 1), 50);
}
""")

bug("f14-closed-by-anybody", "F14", "farming",
    "a closing of an empty farmer account in the name of somebody who did not sign",
    "The authority needn't sign when its farmer account is closed, so that anybody can close those which are empty.",
    [(EP + "close_farmer.rs", "    pub authority: Signer<'info>,", "    /// CHECK: compared with the farmer's authority\n    pub authority: AccountInfo<'info>,")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    let mut i = close_farmer(0, 1, 1);
    for a in i.metas.iter_mut() {
        a.is_signer = false;
    }
    let _ = send(&mut s, &i);
    assert!(read_farmer(&s, 0, 1).is_some(), "closed by somebody else");
}
""")

bug("f15-periods-inherited", "F15", "farming",
    "a harvest which is added after another one with periods was removed",
    "The periods of a removed harvest stay in its place and are taken over by the next one which is added.",
    [(EP + "remove_harvest.rs", "        .map(|h| *h = Harvest::default())", """        .map(|h| {
            h.mint = Pubkey::default();
            h.vault = Pubkey::default();
        })"""),
     (FARM, """            harvest.vault = harvest_vault;
            harvest.periods = iter::repeat(HarvestPeriod::default())
                .take(consts::HARVEST_PERIODS_LEN)
                .collect::<Vec<_>>()
                .try_into()
                .map_err(|_| {
                    msg!(
                    "Cannot convert harvest period history vector into array"
                );
                    FarmingError::InvariantViolation
                })?;
""", """            harvest.vault = harvest_vault;
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    period(&mut s, 0, 1, 106, 10, 10).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot = 130;
    settle(&mut s, 0, 1).expect("settle");
    collect(&mut s, 0, 1, 1).expect("claim");
    send(&mut s, &remove_harvest(0, admin(0), 1)).expect("remove");
    send(&mut s, &add_harvest(0, admin(0), 2)).expect("add");
    let y = read_farm(&s, 0).unwrap();
    let h = y.harvests.iter().find(|h| h.mint == mint(2)).unwrap();
    assert!(h.periods.iter().all(|p| p.tps.amount == 0), "a new harvest with periods");
}
""")

bug("f16-default-window-set-by-anybody", "F16", "farming",
    "a farm whose snapshot window has not been set yet, and somebody who is not its admin",
    "The snapshot window of a farm which still has the default can be set by anybody.",
    [(EP + "set_min_snapshot_window.rs", "    if farm.admin != accounts.admin.key() {", "    if farm.min_snapshot_window_slots != 0\n        && farm.admin != accounts.admin.key()\n    {")],
    """
fn main() {
    let mut s = start();
    put_blank_farm(&mut s, 0);
    send(&mut s, &create_farm(0, 4, 0)).expect("create_farm");
    let _ = send(&mut s, &set_window(0, 6, 1_000_000_000));
    assert_eq!(read_farm(&s, 0).unwrap().min_snapshot_window_slots, 0);
}
""")

bug("f17-deposit-into-another-farm", "F17", "farming",
    "a deposit which names another farm, with its vault, than the one of the farmer",
    "The farm which gets a deposit needn't be that of the farmer who is credited; worthless tokens become a deposit in another farm.",
    [(EP + "start_farming.rs", """    #[account(
        mut,
        constraint = farmer.farm == farm.key()
            @ err::acc("Farmer is set up for a different farm"),
    )]
    pub farmer""", """    #[account(mut)]
    pub farmer""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    open(&mut s, 1, 3, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1000).expect("deposit");
    join(&mut s, 0, 6);
    let mut i = start_farming(1, 6, 6, 3, 1000);
    for a in i.metas.iter_mut() {
        if a.pubkey == farmer(1, 6) {
            a.pubkey = farmer(0, 6);
        }
    }
    let _ = send(&mut s, &i);
    let _ = unstake(&mut s, 0, 6, 1000);
    assert_eq!(tok::amount(&s, &stake_vault(0)), 1000);
}
""")

bug("f18-slots-times-stake", "F18", "farming",
    "a big deposit which is not settled for a long time, so that slots times stake exceeds 64 bits",
    "Slots are multiplied by the stake in 64 bits, so that the settlement of big deposits overflows after some time and they can't be withdrawn any more.",
    [(FARMER, """                    eligible_harvest = eligible_harvest.try_add(
                        Decimal::from(slots)
                            .try_mul(farmer_share)?
                            .try_mul(Decimal::from(tps.amount))?,
                    )?;""", """                    let staked_slots = slots
                        .checked_mul(farmer_staked.amount)
                        .ok_or(FarmingError::MathOverflow)?;
                    eligible_harvest = eligible_harvest.try_add(
                        Decimal::from(staked_slots)
                            .try_div(Decimal::from(snapshot.staked.amount))?
                            .try_mul(Decimal::from(tps.amount))?,
                    )?;""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, &[1]);
    join(&mut s, 0, 1);
    stake(&mut s, 0, 1, 1 << 48).expect("deposit");
    period(&mut s, 0, 1, 106, 1 << 20, 3).expect("period");
    s.slot = 105;
    snap(&mut s, 0);
    s.slot += 1 << 18;
    unstake(&mut s, 0, 1, 1 << 48).expect("withdrawal");
    assert_eq!(has(&s, 1, 0), 1 << 50);
}
""")
