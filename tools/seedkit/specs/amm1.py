POOL = "programs/amm/src/models/pool.rs"
SWAP = "programs/amm/src/endpoints/swap.rs"
DEPOSIT = "programs/amm/src/endpoints/deposit_liquidity.rs"
REDEEM = "programs/amm/src/endpoints/redeem_liquidity.rs"
CREATE = "programs/amm/src/endpoints/create_pool.rs"

bug("a01-dust-pays-one", "A01", "amm",
    "a constant product pool and a sale so small that it is worth less than one token of the bought reserve",
    "Every swap pays at least one token, so a sale worth less than that decreases the product of reserves.",
    [(POOL, "        Ok(tokens_to_receive.into())", "        // never leave the trader with nothing\n        Ok(tokens_to_receive.max(1).into())")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[900_000, 1_000], 0);
    let before = product(&reserves(&s, 0));
    trade(&mut s, 0, 1, 0, 1, 100, 0).expect("swap");
    assert!(product(&reserves(&s, 0)) >= before, "the product decreased");
}
""")

bug("a04-skip-update-without-fee", "A04", "amm",
    "a stable pool and several swaps for which no fee is taken",
    "The invariant isn't recomputed after a swap without fee, although rounding in favour of the pool increases it.",
    [(SWAP, "    accs.pool.update_curve_invariant()?;\n",
            "    if swap_fee.amount > 0 {\n        accs.pool.update_curve_invariant()?;\n    }\n")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 10, 3, &[1_000, 1_000, 1_000], 0);
    for i in 0..12 {
        trade(&mut s, 0, 1, i % 3, (i + 1) % 3, 7, 0).expect("swap");
    }
    // the same reserves in a new pool
    let x = reserves(&s, 0);
    open(&mut s, 1, 10, 3, &x, 0);
    let a = curve(&read_pool(&s, &pool(0)).unwrap());
    let b = curve(&read_pool(&s, &pool(1)).unwrap());
    assert_eq!(a, b, "two pools of the same reserves {:?} differ in the invariant", x);
}
""")

bug("a06-at-least-one-lp", "A06", "amm",
    "a pool whose LP supply is much smaller than its reserves, and a deposit worth less than one LP token",
    "A deposit which is worth less than one LP token is given one, at the expense of the other holders.",
    [(DEPOSIT, """    let lp_tokens_to_distribute = lp_tokens_to_distribute.ok_or_else(|| {
        msg!("Provided liquidity is too small to be represented");
        AmmError::InvalidArg
    })?;""", """    // LP tokens might not have enough precision for small deposits
    let lp_tokens_to_distribute =
        lp_tokens_to_distribute.unwrap_or_else(|| TokenAmount::new(1));""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[5, 1_000_000], 0);
    // the LP supply is 5; make the first reserve larger
    trade(&mut s, 0, 2, 0, 1, 4, 0).expect("swap");
    for _ in 0..5 {
        let x = reserves(&s, 0)[0];
        trade(&mut s, 0, 2, 0, 1, x - 1, 0).expect("swap");
    }
    let (a, b) = (has(&s, 1, 0), has(&s, 1, 1));
    let _ = put(&mut s, 0, 1, &[10, 1_000_000]);
    let n = lp(&s, 1, 0);
    if n > 0 {
        take(&mut s, 0, 1, n, &[0, 0]).expect("redeem");
    }
    assert!(has(&s, 1, 0) <= a && has(&s, 1, 1) <= b, "a deposit and redemption made a profit");
}
""")

bug("a08-minimum-not-accepted", "A08", "amm",
    "a swap whose minimum is exactly the result",
    "A swap which gives exactly the minimum the user asked for is refused.",
    [(SWAP, "    if min_buy > bought {", "    if min_buy >= bought && min_buy.amount != 0 {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000, 1_000], 0);
    assert!(trade(&mut s, 0, 1, 0, 1, 100, 91).is_err());
    trade(&mut s, 0, 1, 0, 1, 100, 90).expect("exactly 90 are bought");
}
""")

bug("a09-expires-a-slot-early", "A09", "amm",
    "a swap in the very slot until which the user's discount is valid",
    "A discount doesn't apply in the last slot it is valid for.",
    [("programs/amm/src/models/discount.rs", "time <= self.valid_until", "time < self.valid_until")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 10_000);
    send(&mut s, &put_discount(DISCOUNTER, 1, 1_000_000, 1_100)).expect("discount");
    s.slot = 1_100;
    let had = has(&s, 1, 1);
    trade(&mut s, 0, 1, 0, 1, 1_000, 0).expect("swap");
    assert_eq!(has(&s, 1, 1) - had, 999, "no fee in the last slot of the discount");
}
""")

bug("a10-toll-of-two-reserves", "A10", "amm",
    "a pool of more than two reserves, and a fee of which the toll is at least a token",
    "The toll is divided by two whatever the number of reserves, so that pools of three or four pay too much.",
    [(SWAP, "            .try_div(Decimal::from(pool.dimension))?", "            .try_div(Decimal::from(pool.dimension.min(2)))?")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 4, &[1_000_000, 1_000_000, 1_000_000, 1_000_000], 10_000);
    trade(&mut s, 0, 1, 0, 1, 120_000, 0).expect("swap");
    // a fee of 1200 and a third of it is a toll of 400 or 100 of each
    let toll = tok::amount(&s, &toll_wallet(0));
    assert!(toll <= 100, "toll of {}", toll);
}
""")

bug("a11-fee-without-toll-not-booked", "A11", "amm",
    "a swap with a fee so small that the toll rounds to zero",
    "The fee is added to the reserves only if there's a toll to pay from it; the books differ from the vaults after small swaps.",
    [(SWAP, """    accs.pool
        .reserve_mut(sell_mint)
        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(swap_fee)?;
""", """    // the mint is part of the pool as per constraints and swap fn
    let fee_reserve = accs.pool.reserve_mut(sell_mint).unwrap();
    if swap_fee.amount > 2 {
        fee_reserve.add_tokens(swap_fee)?;
    }
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 1_000);
    trade(&mut s, 0, 1, 0, 1, 500, 0).expect("swap");
    for m in 0..2 {
        assert_eq!(reserves(&s, 0)[m], tok::amount(&s, &vault(0, m)), "reserve {} and vault", m);
    }
}
""")

bug("a12-fee-rounded-down", "A12", "amm",
    "a trade which is split into parts so small that the fee of each is less than one token",
    "The swap fee is rounded down, so that nobody who splits a trade into small parts pays it.",
    [(SWAP, """            .try_mul(swap_fee_share)?
            .try_ceil()?,""", """            .try_mul(swap_fee_share)?
            .try_floor()?,""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1 << 40, 1 << 42], 10_000);
    open(&mut s, 1, 0, 2, &[1 << 40, 1 << 42], 10_000);
    let had = has(&s, 1, 1);
    trade(&mut s, 0, 1, 0, 1, 99 * 40, 0).expect("swap");
    let whole = has(&s, 1, 1) - had;
    let had = has(&s, 1, 1);
    for _ in 0..40 {
        trade(&mut s, 1, 1, 0, 1, 99, 0).expect("swap");
    }
    let parts = has(&s, 1, 1) - had;
    assert!(parts <= whole, "{} for the parts but {} for the whole", parts, whole);
}
""")

bug("a13-some-vault-filled", "A13", "amm",
    "a pool created with LP supply over vaults of which some are filled and some empty",
    "With LP tokens minted, it suffices that the first vault isn't empty.",
    [(CREATE, "} else if !is_lp_mint_without_supply && vault.amount == 0 {",
              "} else if !is_lp_mint_without_supply\n            && mints.is_empty()\n            && vault.amount == 0\n        {")],
    """
fn main() {
    let mut s = start();
    tok::mint(&mut s, lp_mint(0), Some(signer(0)), None, 500);
    tok::account(&mut s, toll_wallet(0), lp_mint(0), who(TOLLER), 0);
    for (m, n) in [(0, 500), (1, 0)] {
        tok::account(&mut s, vault(0, m), mint(m), signer(0), n);
    }
    let r = send(&mut s, &create_pool(0, admin_of(0), 0, &[vault(0, 0), vault(0, 1)]));
    assert!(r.is_err(), "a pool with LP tokens but an empty vault");
}
""")

bug("a14-fee-limit-in-basis-points", "A14", "amm",
    "a swap fee less than one basis point above the limit of 1 %",
    "The limit on the swap fee is compared in basis points, so that fees slightly above it are accepted.",
    [("programs/amm/src/endpoints/set_pool_swap_fee.rs", "    if fee > consts::MAX_SWAP_FEE {",
      "    let basis_points = fee.permillion / 100;\n    if basis_points > consts::MAX_SWAP_FEE.permillion / 100 {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000, 1_000], 10_000);
    assert!(send(&mut s, &set_fee(0, admin_of(0), 10_001)).is_err(), "a fee above the limit");
}
""")

bug("a15-update-unchecked", "A15", "amm",
    "an update of a discount which exists already",
    "The limits of a discount are only checked when it's created and not when it's updated.",
    [("programs/amm/src/endpoints/put_discount.rs", "    if valid_until <= Slot::current()? {",
      "    let is_update = accs.discount.owner == &crate::ID;\n    if !is_update && valid_until <= Slot::current()? {")],
    """
fn main() {
    let mut s = start();
    assert!(send(&mut s, &put_discount(DISCOUNTER, 1, 500_000, 1_000)).is_err());
    send(&mut s, &put_discount(DISCOUNTER, 1, 500_000, 1_001)).expect("discount");
    assert!(send(&mut s, &put_discount(DISCOUNTER, 1, 600_000, 900)).is_err(), "valid until a past slot");
}
""")

bug("a16-any-program-data", "A16", "amm",
    "the program data of another program, whose upgrade authority is the attacker",
    "The program data which shows the upgrade authority needn't be that of the program itself.",
    [("programs/amm/src/endpoints/create_discount_settings.rs",
      "        constraint = amm.programdata_address()? == Some(amm_metadata.key())",
      "        constraint = amm.programdata_address()?.is_some()")],
    """
fn main() {
    svm::vm::init();
    let mut s = new_svm();
    let own = tok::key("own program data", 1);
    s.accts.insert(own, program_data(Some(who(5))));
    let r = send(&mut s, &create_settings(who(5), amm::id(), own, who(5)));
    assert!(r.is_err(), "settings created by the authority of another program");
    send(&mut s, &create_settings(who(UPGRADER), amm::id(), metadata(), who(DISCOUNTER))).expect("settings");
}
""")

bug("a17-sell-into-any-vault", "A17", "amm",
    "an attacker who passes an own token account of the sold mint instead of the vault",
    "The vault which gets the sold tokens only has to be of a mint of the pool, hence an attacker can pay himself.",
    [(SWAP, "        constraint = pool.reserve_vault(sell_vault.mint) == Some(sell_vault.key())",
            "        constraint = pool.reserve_vault(sell_vault.mint).is_some()")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 0);
    let own = tok::key("own vault", 1);
    tok::account(&mut s, own, mint(0), who(1), 0);
    let mut i = swap(0, 1, 0, 1, 500_000, 0);
    for a in i.metas.iter_mut().filter(|a| a.pubkey == vault(0, 0)) {
        a.pubkey = own;
    }
    let r = send(&mut s, &i);
    assert!(r.is_err() && tok::amount(&s, &vault(0, 1)) == 1_000_000, "bought for nothing");
}
""")

bug("a18-last-redemption-refused", "A18", "amm",
    "a redemption of all LP tokens there are",
    "The last LP tokens can't be redeemed, since the burnt amount must be less than the supply.",
    [(REDEEM, "    if lp_tokens_to_burn.amount > accs.lp_mint.supply {", "    if lp_tokens_to_burn.amount >= accs.lp_mint.supply {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 5, 2, &[1_000, 1_000], 0);
    put(&mut s, 0, 1, &[100, 100]).expect("deposit");
    take(&mut s, 0, 1, 100, &[0, 0]).expect("redeem");
    take(&mut s, 0, 0, 1_000, &[0, 0]).expect("redeem the rest");
    assert_eq!(reserves(&s, 0), vec![0, 0]);
}
""")
