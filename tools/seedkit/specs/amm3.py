POOL = "programs/amm/src/models/pool.rs"
SWAP = "programs/amm/src/endpoints/swap.rs"
DEPOSIT = "programs/amm/src/endpoints/deposit_liquidity.rs"
REDEEM = "programs/amm/src/endpoints/redeem_liquidity.rs"
CREATE = "programs/amm/src/endpoints/create_pool.rs"
DISCOUNT = "programs/amm/src/endpoints/put_discount.rs"
NEWTON = "programs/amm/src/math/stable_curve_invariant.rs"
CURVE = "programs/amm/src/math/swap_equation.rs"

bug("a02-gross-against-reserve", "A02", "amm",
    "a sale which is at least as much as the reserve but less without the fee",
    "The sold amount is compared to the reserve with the fee in it, so that some swaps are refused which the curve allows.",
    [(SWAP, "    let tokens_to_swap = TokenAmount::new(sell.amount - swap_fee.amount);\n",
            """    let tokens_to_swap = TokenAmount::new(sell.amount - swap_fee.amount);
    if accs
        .pool
        .reserve_mut(sell_mint)
        .map_or(false, |reserve| sell >= reserve.tokens)
    {
        return Err(error!(AmmError::InvalidArg));
    }
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 10_000);
    assert!(trade(&mut s, 0, 1, 0, 1, 1_020_000, 0).is_err());
    trade(&mut s, 0, 1, 0, 1, 1_001_000, 0).expect("a net amount below the reserve");
}
""")

bug("a04-fee-after-invariant", "A04", "amm",
    "a stable pool with a fee, where the last operation was a swap",
    "The invariant is computed before the fee is added to the reserves, so that the stored one is too low until the next operation.",
    [(SWAP, """    accs.pool
        .reserve_mut(sell_mint)
        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(swap_fee)?;
""", """    accs.pool.update_curve_invariant()?;
    accs.pool
        .reserve_mut(sell_mint)
        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(swap_fee)?;
"""),
     (SWAP, """    accs.pool.update_curve_invariant()?;

    Ok(())""", """    Ok(())""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 100, 2, &[1_000_000, 1_000_000], 10_000);
    trade(&mut s, 0, 1, 0, 1, 100_000, 0).expect("swap");
    let stored = curve(&read_pool(&s, &pool(0)).unwrap()).1;
    put(&mut s, 0, 0, &[3, 3]).expect("deposit");
    let next = curve(&read_pool(&s, &pool(0)).unwrap()).1;
    let ten = svm::big::Big::from(10_000_000_000_000_000_000u64);
    assert!(&stored + &ten > next, "the fee wasn't in the invariant");
}
""")

bug("a08-one-token-tolerance", "A08", "amm",
    "a swap whose minimum is exactly one token more than the result",
    "A swap may give one token less than the user's minimum.",
    [(SWAP, "    if min_buy > bought {", "    // the curve rounds down\n    if min_buy.amount.saturating_sub(1) > bought.amount {")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 0);
    assert!(trade(&mut s, 0, 1, 0, 1, 1_000, 1_000).is_err(), "less than the minimum");
    trade(&mut s, 0, 1, 0, 1, 1_000, 999).expect("swap");
}
""")

bug("a09-whole-permillion", "A09", "amm",
    "a discount after which the fee isn't a whole number of permillion, and a sale of millions of tokens",
    "The discounted fee is calculated in whole permillion, so that the user doesn't get the whole discount.",
    [(SWAP, """    let swap_fee_share: Decimal = swap_fee_share.into();
    let swap_fee_share = if is_discount_created {""", """    let swap_fee_permillion = swap_fee_share.permillion;
    let swap_fee_share: Decimal = swap_fee_share.into();
    let swap_fee_share = if is_discount_created {"""),
     (SWAP, """            let discount: Decimal = discount.amount.into();
            swap_fee_share.try_sub(swap_fee_share.try_mul(discount)?)?
""", """            let discount =
                swap_fee_permillion * discount.amount.permillion / 1_000_000;
            Permillion {
                permillion: swap_fee_permillion - discount,
            }
            .into()
""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000_000_000, 1_000_000_000_000], 1);
    send(&mut s, &put_discount(DISCOUNTER, 1, 500_000, 2_000)).expect("discount");
    let x = reserves(&s, 0)[1];
    // the fee is half a millionth, hence 5000 of 10^10
    trade(&mut s, 0, 1, 0, 1, 10_000_000_000, 0).expect("swap");
    let net = 10_000_000_000_u64 - 5_000;
    let due = (x as u128 * net as u128 / (1_000_000_000_000 + net as u128)) as u64;
    let got = x - reserves(&s, 0)[1];
    assert!(got == due || got + 1 == due, "got {} instead of {}", got, due);
}
""")

bug("a10-toll-before-fee", "A10", "amm",
    "a large swap with a fee, in relation to the pool's reserves, and many LP tokens",
    "The fee is only added to the reserves after the toll was calculated, as if the fee belonged to nobody yet; too many LP tokens are minted for it.",
    [(SWAP, """    accs.pool
        .reserve_mut(sell_mint)
        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(swap_fee)?;
""", ""),
     (SWAP, """    accs.pool.update_curve_invariant()?;

    Ok(())""", """    accs.pool
        .reserve_mut(sell_mint)
        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(swap_fee)?;
    accs.pool.update_curve_invariant()?;

    Ok(())""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000_000, 1_000_000_000], 10_000);
    trade(&mut s, 0, 1, 0, 1, 900_000_000, 0).expect("swap");
    let minted = supply(&s, 0) - 1_000_000_000;
    let toll = 1_500_000_u128; // a sixth of the fee of nine million
    let due = 1_000_000_000 * toll / reserves(&s, 0)[0] as u128;
    assert!((minted as u128) < due + 100, "minted {} for a toll worth {}", minted, due);
}
""")

bug("a13-delegate-of-empty-vault", "A13", "amm",
    "a new pool whose vaults are empty, one of which has a delegate",
    "Delegates and close authorities are only looked for if there's something in the vault, though a delegate can take what is deposited later.",
    [(CREATE, "        if vault.delegate.is_some() {", "        if vault.amount > 0 && vault.delegate.is_some() {")],
    """
fn main() {
    let mut s = start();
    accounts(&mut s, 0, 2);
    let v = vault(0, 1);
    let mut a = s.accts.get(&v).cloned().unwrap();
    a.data[72..76].copy_from_slice(&1u32.to_le_bytes());
    a.data[76..108].copy_from_slice(who(5).as_ref());
    a.data[121..129].copy_from_slice(&u64::MAX.to_le_bytes());
    s.accts.insert(v, a);
    let r = send(&mut s, &create_pool(0, admin_of(0), 0, &[vault(0, 0), v]));
    assert!(r.is_err(), "a vault with a delegate");
}
""")

bug("a15-never-shortened", "A15", "amm",
    "an update of a discount to an earlier slot than the one it had",
    "An update never makes a discount expire earlier, so that the authority can't take it back.",
    [(DISCOUNT, """    let discount = Discount {
        valid_until,
        amount: discount_amount,
    };
""", """    let valid_until = if should_be_created {
        valid_until
    } else {
        Account::<Discount>::try_from(&accs.discount)?
            .valid_until
            .max(valid_until)
    };
    let discount = Discount {
        valid_until,
        amount: discount_amount,
    };
""")],
    """
fn main() {
    let mut s = start();
    send(&mut s, &put_discount(DISCOUNTER, 1, 500_000, 2_000)).expect("discount");
    send(&mut s, &put_discount(DISCOUNTER, 1, 500_000, 1_500)).expect("discount");
    assert_eq!(read_discount(&s, &discount(1)).unwrap().valid_until.slot, 1_500);
}
""")

bug("a16-authority-is-the-payer", "A16", "amm",
    "discount settings created with another authority than the program's",
    "The authority of the discount settings is that of the program and not the one which was named.",
    [("programs/amm/src/endpoints/create_discount_settings.rs", """    accounts.discount_settings.authority =
        accounts.discount_settings_authority.key();
""", """    #[cfg(not(feature = "dev"))]
    let authority = accounts.program_authority.key();
    #[cfg(feature = "dev")]
    let authority = accounts.discount_settings_authority.key();
    accounts.discount_settings.authority = authority;
""")],
    """
fn main() {
    svm::vm::init();
    let mut s = new_svm();
    send(&mut s, &create_settings(who(UPGRADER), amm::id(), metadata(), who(DISCOUNTER))).expect("settings");
    assert_eq!(read_settings(&s).unwrap().authority, who(DISCOUNTER));
}
""")

bug("a17-deposit-into-any-account", "A17", "amm",
    "a deposit which names an own token account instead of a vault",
    "The account a deposit is paid into only has to be of a mint of the pool, hence an attacker gets LP tokens for tokens paid to himself.",
    [(DEPOSIT, "            .any(|r| r.vault.eq(&vault.key()))", "            .any(|r| r.mint.eq(&vault.mint))")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000_000], 0);
    let own = tok::key("own vault", 1);
    tok::account(&mut s, own, mint(0), who(1), 0);
    let mut i = deposit(0, 1, &[(0, 500_000), (1, 500_000)], &[0, 1]);
    for a in i.metas.iter_mut().filter(|a| a.pubkey == vault(0, 0)) {
        a.pubkey = own;
    }
    let r = send(&mut s, &i);
    assert!(r.is_err() && lp(&s, 1, 0) == 0, "LP tokens for nothing");
}
""")

bug("a18-zero-amount-refused", "A18", "amm",
    "a holder of few LP tokens in a pool one reserve of which is small",
    "A redemption which would give nothing of one of the tokens is refused, so that small holders can't get out.",
    [(REDEEM, """        token::transfer(
            accs.transfer_liquidity_from_pool_to_wallet(user_wallet, vault)""", """        if tokens_redeemed.amount == 0 {
            return Err(error!(err::arg("Nothing to redeem")));
        }
        token::transfer(
            accs.transfer_liquidity_from_pool_to_wallet(user_wallet, vault)""")],
    """
fn main() {
    let mut s = start();
    open(&mut s, 0, 0, 2, &[1_000_000, 1_000], 0);
    put(&mut s, 0, 1, &[5_000, 5]).expect("deposit");
    let n = lp(&s, 1, 0);
    assert!(n > 0);
    trade(&mut s, 0, 2, 0, 1, 900_000, 0).expect("swap");
    take(&mut s, 0, 1, n - n / 2, &[0, 0]).expect("redeem");
    take(&mut s, 0, 1, n / 2, &[0, 0]).expect("redeem");
    trade(&mut s, 0, 2, 0, 1, 1_000_000, 0).expect("swap");
    put(&mut s, 0, 1, &[9_000, 9]).expect("deposit");
    let n = lp(&s, 1, 0);
    take(&mut s, 0, 1, n - 1, &[0, 0]).expect("redeem");
    take(&mut s, 0, 1, 1, &[0, 0]).expect("the last LP token of a holder");
}
""")
