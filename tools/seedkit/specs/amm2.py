POOL = "programs/amm/src/models/pool.rs"
SWAP = "programs/amm/src/endpoints/swap.rs"
DEPOSIT = "programs/amm/src/endpoints/deposit_liquidity.rs"
REDEEM = "programs/amm/src/endpoints/redeem_liquidity.rs"
CREATE = "programs/amm/src/endpoints/create_pool.rs"
DISCOUNT = "programs/amm/src/endpoints/put_discount.rs"
NEWTON = "programs/amm/src/math/stable_curve_invariant.rs"
CURVE = "programs/amm/src/math/swap_equation.rs"

bug("a01-round-above-a-billion", "A01", "amm",
    "a constant product pool and a swap which gives more than a billion tokens and a fraction of at least one half",
    "Large results are rounded to the nearest token instead of down, so that the product of reserves decreases.",
    [(POOL, "        .and_then(|t| t.try_floor())?;", """        .and_then(|t| {
            // a token doesn't matter in large trades
            if t > Decimal::from(1_000_000_000_u64) {
                t.try_round()
            } else {
                t.try_floor()
            }
        })?;""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[100_000_000_000, 100_000_000_000], 0);
    for i in 0..30 {
        let before = product(&reserves(&s, 0));
        trade(&mut s, 0, 1, i % 2, 1 - i % 2, 2_000_000_000 + 7 * i as u64, 0).expect("swap");
        assert!(product(&reserves(&s, 0)) >= before, "the product decreased");
    }
}
""")

bug("a02-nothing-bought-refused", "A02", "amm",
    "a sale which is worth less than one token of the bought reserve, with a minimum of zero",
    "Swaps whose result is rounded to zero are refused although the seller asked for no minimum.",
    [(SWAP, "    if min_buy > bought {", "    if min_buy > bought || bought.amount == 0 {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000], 0);
    trade(&mut s, 0, 1, 0, 1, 999, 0).expect("a swap worth less than one token");
    assert!(trade(&mut s, 0, 1, 0, 1, 999, 1).is_err());
}
""")

bug("a03-one-less-neglected", "A03", "amm",
    "a stable pool whose amplifier is above a thousand",
    "For large amplifiers A n^n is used instead of A n^n - 1, so that swaps don't follow the curve.",
    [(CURVE, "        d.try_mul(n_pow_n.try_mul(*amp)?.try_sub(Decimal::one())?)?;",
             """        d.try_mul(if *amp > Decimal::from(1_000_u64) {
            // negligible
            n_pow_n.try_mul(*amp)?
        } else {
            n_pow_n.try_mul(*amp)?.try_sub(Decimal::one())?
        })?;""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 2_000, 2, &[1_000_000_000, 1_000_000_000], 0);
    let before = [has(&s, 1, 0), has(&s, 1, 1)];
    trade(&mut s, 0, 1, 0, 1, 1_000_000, 0).expect("swap");
    let got = has(&s, 1, 1) - before[1];
    assert!(got <= 1_000_000, "bought {} of a balanced pool for 1000000", got);
    trade(&mut s, 0, 1, 1, 0, got, 0).expect("swap back");
    assert!(has(&s, 1, 0) <= before[0], "a profit of {}", has(&s, 1, 0) - before[0]);
    assert!(got > 999_000);
}
""")

bug("a04-redemption-from-the-second-reserve", "A04", "amm",
    "a stable pool and a redemption so small that no token of the first reserve is given but some of another one",
    "The invariant is only updated after a redemption if the first reserve changed.",
    [(REDEEM, """    // no-op if const prod
    accs.pool.update_curve_invariant()?;
""", """    // no-op if const prod or if nothing was redeemed
    let first_reserve_mint = accs.pool.reserves()[0].mint;
    let is_anything_redeemed = tokens_to_redeem
        .get(&first_reserve_mint)
        .map(|t| t.amount > 0)
        .unwrap_or(false);
    if is_anything_redeemed {
        accs.pool.update_curve_invariant()?;
    }
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 10, 2, &[1_000, 100_000], 0);
    // fees make LP tokens worth more than a token
    trade(&mut s, 0, 1, 1, 0, 90_000, 0).expect("swap");
    let lp = supply(&s, 0);
    let x = reserves(&s, 0);
    assert!(x[0] < lp && x[1] > lp);
    for _ in 0..3 {
        take(&mut s, 0, 0, 1, &[0, 0]).expect("redeem");
    }
    // the same reserves in a new pool
    let x = reserves(&s, 0);
    open(&mut s, 1, 10, 2, &x, 0);
    let a = curve(&read_pool(&s, &pool(0)).unwrap());
    let b = curve(&read_pool(&s, &pool(1)).unwrap());
    assert_eq!(a, b, "two pools of the same reserves {:?} differ in the invariant", x);
}
""")

bug("a05-inverted-if-all-are-large", "A05", "amm",
    "a pool of a reserve near the limits of u64 and another one below ten billion",
    "The ratio is only inverted if all reserves are large, so that too little is deposited into pools of a huge and a small reserve.",
    [(POOL, "            reserves.iter().any(|(_, t)| t.amount > 10_000_000_000);",
            "            reserves.iter().all(|(_, t)| t.amount > 10_000_000_000);")],
    """
fn main() {
    let mut s = start();
    for u in 0..2 {
        tok::account(&mut s, wallet(u, 0), mint(0), who(u), 1 << 63);
    }
    let x = 9_000_000_000_000_000_000;
    open(&mut s, 0, 0, 2, &[x, 1_000_000_000], 0);
    let had = has(&s, 1, 0);
    // a third of the pool
    let max = x / 3 - 1;
    put(&mut s, 0, 1, &[max, 1_000_000_000]).expect("deposit");
    let paid = had - has(&s, 1, 0);
    assert!(paid <= max && paid >= max - 1, "{} of {}", paid, max);
}
""")

bug("a07-majority-rounds-up", "A07", "amm",
    "a redemption of more than half of the LP tokens whose exact share has a fraction of at least one half",
    "Redemptions of more than half of the supply are rounded to the nearest token instead of down.",
    [(POOL, """                        Decimal::from(r.tokens.amount)
                            .try_mul(weight)?
                            .try_floor()?,""", """                        Decimal::from(r.tokens.amount).try_mul(weight).and_then(
                            |tokens| {
                                if weight > Decimal::from_percent(50) {
                                    tokens.try_round()
                                } else {
                                    tokens.try_floor()
                                }
                            },
                        )?,""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000, 1_500], 0);
    let had = has(&s, 0, 1);
    // 0.501 * 1500 = 751.5
    take(&mut s, 0, 0, 501, &[0, 0]).expect("redeem");
    assert_eq!(has(&s, 0, 1) - had, 751);
}
""")

bug("a08-sells-what-is-there", "A08", "amm",
    "a swap of more than what is in the seller's wallet",
    "A swap of more than what the seller has sells what's there instead of failing.",
    [(SWAP, """    if sell.amount == 0 {
        return""", """    // the wallet is all that can be sold
    let sell = sell.min(TokenAmount::new(accs.sell_wallet.amount));
    if sell.amount == 0 {
        return""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000, 1_000], 0);
    tok::account(&mut s, wallet(1, 0), mint(0), who(1), 100);
    assert!(trade(&mut s, 0, 1, 0, 1, 101, 0).is_err(), "sold tokens which aren't there");
    trade(&mut s, 0, 1, 0, 1, 100, 90).expect("swap");
}
""")

bug("a09-discount-of-the-owner", "A09", "amm",
    "a swap by somebody to whom the owner of the sold tokens delegated them",
    "The discount is the one of the owner of the sold tokens and not the one of the user.",
    [(SWAP, "        seeds = [Discount::PDA_PREFIX, user.key().as_ref()],",
            "        seeds = [Discount::PDA_PREFIX, sell_wallet.owner.as_ref()],")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 10_000);
    send(&mut s, &put_discount(DISCOUNTER, 1, 1_000_000, 1_100)).expect("discount");
    // user 2 delegates tokens to user 1
    let mut t = tok::read(&s, &wallet(2, 0)).unwrap();
    t.delegate = anchor_lang::solana_program::program_option::COption::Some(who(1));
    t.delegated_amount = 1_000;
    tok::set(&mut s, wallet(2, 0), t);
    let mut i = swap(0, 1, 0, 1, 1_000, 0);
    for a in i.metas.iter_mut().filter(|a| a.pubkey == wallet(1, 0)) {
        a.pubkey = wallet(2, 0);
    }
    let had = has(&s, 1, 1);
    send(&mut s, &i).expect("swap by a delegate");
    assert_eq!(has(&s, 1, 1) - had, 999, "no fee, as of the user's discount");
}
""")

bug("a10-toll-of-the-full-fee", "A10", "amm",
    "a swap of a user who has a discount of more than two thirds",
    "The toll is calculated from the fee without discount, hence is paid by the liquidity providers.",
    [(SWAP, """    let toll_in_lp_tokens = calculate_toll_in_lp_tokens(
        &accs.pool,
        swap_fee,""", """    // the toll is independent of what the user is granted
    let fee_before_discount = TokenAmount::new(
        Decimal::from(sell.amount)
            .try_mul(Decimal::from(accs.pool.swap_fee))?
            .try_ceil()?,
    );
    let toll_in_lp_tokens = calculate_toll_in_lp_tokens(
        &accs.pool,
        fee_before_discount,""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 10_000);
    send(&mut s, &put_discount(DISCOUNTER, 1, 900_000, 1_100)).expect("discount");
    trade(&mut s, 0, 1, 0, 1, 120_000, 0).expect("swap");
    // a fee of 120, of which a third is 20 of each token
    let toll = tok::amount(&s, &toll_wallet(0));
    assert!(toll <= 20, "toll of {}", toll);
}
""")

bug("a11-a-token-less", "A11", "amm",
    "a deposit for which the user's wallet is exactly one token short",
    "As amounts are rounded up, a wallet may have one token less than what is deposited; the reserve is credited the whole amount.",
    [(DEPOSIT, "        if add_tokens_to_reserve.amount > user_wallet.amount {",
               "        if add_tokens_to_reserve.amount > user_wallet.amount + 1 {"),
     (DEPOSIT, """            accs.transfer_liquidity_from_wallet_to_pool(user_wallet, vault),
            add_tokens_to_reserve.amount,""", """            accs.transfer_liquidity_from_wallet_to_pool(user_wallet, vault),
            // the amount was rounded up
            add_tokens_to_reserve.amount.min(user_wallet.amount),""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000, 3_000], 0);
    tok::account(&mut s, wallet(1, 1), mint(1), who(1), 299);
    let r = put(&mut s, 0, 1, &[100, 300]);
    for m in 0..2 {
        assert_eq!(reserves(&s, 0)[m], tok::amount(&s, &vault(0, m)), "reserve {} and vault", m);
    }
    assert!(r.is_err());
}
""")

bug("a12-fee-less-than-sale", "A12", "amm",
    "a pool in which one token of the sold mint is worth many of the bought one, and a trade split into single tokens",
    "The fee is limited so that something is left to swap, hence sales of single tokens don't pay it.",
    [(SWAP, """        Decimal::from(sell.amount)
            .try_mul(swap_fee_share)?
            .try_ceil()?,
    );

    Ok(swap_fee)""", """        Decimal::from(sell.amount)
            .try_mul(swap_fee_share)?
            .try_ceil()?
            // something has to be left to swap
            .min(sell.amount - 1),
    );

    Ok(swap_fee)""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[100_000, 1 << 50], 10_000);
    open(&mut s, 1, 0, 2, &[100_000, 1 << 50], 10_000);
    let had = has(&s, 1, 1);
    trade(&mut s, 0, 1, 0, 1, 300, 0).expect("swap");
    let whole = has(&s, 1, 1) - had;
    let had = has(&s, 1, 1);
    for _ in 0..300 {
        trade(&mut s, 1, 1, 0, 1, 1, 0).expect("swap");
    }
    let parts = has(&s, 1, 1) - had;
    assert!(parts <= whole, "{} for the parts but {} for the whole", parts, whole);
}
""")

bug("a13-same-mint-apart", "A13", "amm",
    "three or four vaults, two of which are of the same mint and not next to each other",
    "Only vaults which follow each other are compared, so that a pool can have two reserves of the same mint.",
    [(CREATE, "        if mints.contains(&vault.mint) {",
              "        if index > 0 && accs.pool.reserves[index - 1].mint == vault.mint {")],
    """
fn main() {
    let mut s = start();
    accounts(&mut s, 0, 2);
    let other = tok::key("another vault", 0);
    tok::account(&mut s, other, mint(0), signer(0), 0);
    let r = send(&mut s, &create_pool(0, admin_of(0), 0, &[vault(0, 0), vault(0, 1), other]));
    assert!(r.is_err(), "a pool with two vaults of the same mint");
    send(&mut s, &create_pool(0, admin_of(0), 0, &[vault(0, 0), vault(0, 1)])).expect("create");
}
""")

bug("a14-fee-reset-when-empty", "A14", "amm",
    "a redemption of all LP tokens of a pool with a fee",
    "When a pool becomes empty, its swap fee is reset, as if it was a new one.",
    [(REDEEM, """    // burn the LP tokens which are being exchanged for the reserve liquidity
""", """    if lp_tokens_to_burn.amount == accs.lp_mint.supply {
        // the pool starts anew
        accs.pool.swap_fee = Permillion::default();
    }

    // burn the LP tokens which are being exchanged for the reserve liquidity
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000, 1_000], 3_000);
    let fee = |s: &Svm| read_pool(s, &pool(0)).unwrap().swap_fee.permillion;
    take(&mut s, 0, 0, 999, &[0, 0]).expect("redeem");
    assert_eq!(fee(&s), 3_000);
    take(&mut s, 0, 0, 1, &[0, 0]).expect("redeem");
    assert_eq!(fee(&s), 3_000, "the fee was changed by a redemption");
}
""")

bug("a15-lowered-by-the-user", "A15", "amm",
    "a user who has a discount and asks for a lower or the same one which is valid for longer",
    "Users may lower their own discounts, but can extend the validity at the same time.",
    [(DISCOUNT, "        constraint = authority.key() == discount_settings.authority\n",
                "        constraint = authority.key() == discount_settings.authority\n            // users may lower their own discount\n            || authority.key() == user\n"),
     (DISCOUNT, """    let should_be_created = accs.discount.owner == &system_program::ID;
""", """    let should_be_created = accs.discount.owner == &system_program::ID;
    if accs.authority.key() != accs.discount_settings.authority {
        if should_be_created {
            return Err(error!(err::acc("There is no discount to lower")));
        }
        let discount = Account::<Discount>::try_from(&accs.discount)?;
        if discount_amount > discount.amount {
            return Err(error!(err::arg("Users can only lower a discount")));
        }
    }
""")],
    """
fn main() {
    let mut s = start();
    assert!(send(&mut s, &put_discount(1, 1, 400_000, 1_100)).is_err(), "created by the user");
    send(&mut s, &put_discount(DISCOUNTER, 1, 500_000, 1_100)).expect("discount");
    assert!(send(&mut s, &put_discount(2, 1, 400_000, 1_100)).is_err());
    assert!(send(&mut s, &put_discount(1, 1, 500_000, 1_000_000)).is_err(), "extended by the user");
}
""")

bug("a16-final-program", "A16", "amm",
    "a program which was made final, that is without an upgrade authority",
    "If the program has no upgrade authority, anybody can create the toll.",
    [("programs/amm/src/endpoints/create_program_toll.rs",
      """        constraint = amm_metadata.upgrade_authority_address ==
            Some(program_authority.key())
            @""", """        constraint = amm_metadata.upgrade_authority_address
            .map_or(true, |authority| authority == program_authority.key())
            @""")],
    """
fn main() {
    svm::vm::init();
    let mut s = new_svm();
    s.accts.insert(metadata(), program_data(None));
    let r = send(&mut s, &create_toll(who(5), amm::id(), metadata(), who(5)));
    assert!(r.is_err(), "the toll of a final program was created by anybody");
    s.accts.insert(metadata(), program_data(Some(who(UPGRADER))));
    send(&mut s, &create_toll(who(UPGRADER), amm::id(), metadata(), who(TOLLER))).expect("toll");
}
""")

bug("a17-toll-to-anybody", "A17", "amm",
    "a trader who passes an own LP token account as the toll wallet",
    "The toll wallet only has to be of the pool's LP mint, hence traders can have the toll minted to themselves.",
    [(SWAP, "        constraint = pool.program_toll_wallet == program_toll_wallet.key()",
            "        constraint = pool.mint == program_toll_wallet.mint")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 10_000);
    let mut i = swap(0, 1, 0, 1, 120_000, 0);
    for a in i.metas.iter_mut().filter(|a| a.pubkey == toll_wallet(0)) {
        a.pubkey = lp_wallet(1, 0);
    }
    let r = send(&mut s, &i);
    assert!(r.is_err() && lp(&s, 1, 0) == 0, "the toll went to the trader");
}
""")

bug("a18-sum-in-u64", "A18", "amm",
    "a stable pool whose reserves add up to more than a u64",
    "The reserves of a stable pool are added up as u64, so that deposits and swaps in pools of huge reserves fail.",
    [(NEWTON, """            .try_fold(Decimal::zero(), |acc, el| {
                acc.try_add(Decimal::from(el.amount))
            })?; // our initial guess for Newton's method""", """            .try_fold(0_u64, |acc, el| acc.checked_add(el.amount))
            .map(Decimal::from)
            .ok_or(AmmError::MathOverflow)?; // our initial guess for Newton's method""")],
    """
fn main() {
    let mut s = start();
    for m in 0..2 {
        tok::account(&mut s, wallet(0, m), mint(m), who(0), u64::MAX / 2 + 1_000);
    }
    open(&mut s, 0, 10, 2, &[u64::MAX / 2 - 100, u64::MAX / 2 - 100], 0);
    trade(&mut s, 0, 1, 0, 1, 1_000, 0).expect("swap");
    put(&mut s, 0, 0, &[500, 500]).expect("a deposit by which the sum exceeds u64");
}
""")
