def amm(p, fn_, AM, ATESTS):
    HIST = ["histories", "inputs"]
    ALL = "all histories of generated pools (2 to 4 reserves from 1 token to the limits of u64, amplifiers, fees, discounts) and users"
    MODEL = "model-based random operation histories with exact big integer oracles, shrunk by proptest"
    POOL, INV, EQ = AM + "models/pool.rs", AM + "math/stable_curve_invariant.rs", AM + "math/swap_equation.rs"
    EP = AM + "endpoints/"
    SWAP, DEP, RED = EP + "swap.rs", EP + "deposit_liquidity.rs", EP + "redeem_liquidity.rs"
    RES = {"name": "Pool.reserves", "meaning": "tokens which belong to the liquidity providers", "where": POOL}
    D = {"name": "Curve::Stable.invariant", "meaning": "invariant D of the stable curve", "where": POOL}

    p("A01", "No swap decreases the product of a constant product pool",
      "In a constant product pool the product of all reserves after a swap is never smaller than before it, whatever the rounding, the fee and the size of the swap.",
      HIST, ALL, ATESTS + "rounding hurts only for reserves of particular magnitudes.",
      [POOL, EQ, SWAP], [fn_("Pool::swap", POOL), fn_("swap equation and its rounding", EQ)], [RES], ["reserves in the pool account"], MODEL)
    p("A02", "Constant product swaps give exactly what the curve allows",
      "Selling net x (after the fee) into a reserve X for a reserve Y of a constant product pool gives exactly floor(Y - X*Y/(X+x)): the most whole tokens which keep the product. "
      "It does not depend on the other reserves, and every swap with a net amount below X succeeds.",
      HIST, ALL, ATESTS + "they compare a few values with the same formula.",
      [POOL, EQ, SWAP], [fn_("Pool::swap", POOL)], [RES], ["wallets and vaults of the swap"], MODEL)
    p("A03", "Stable swaps follow the stable curve",
      "A swap in a stable pool gives the most whole tokens which do not decrease the invariant of the reserves (before the fee is added), up to the precision of the program's fixed point arithmetic; "
      "so the true invariant never decreases by a swap beyond that precision.",
      HIST, ALL, ATESTS + "few reserves and amplifiers are sampled, and the oracle is a floating point one.",
      [POOL, EQ, INV, SWAP], [fn_("stable swap equation", EQ), fn_("invariant by Newton's method", INV)], [RES, D], ["wallets and vaults of the swap"],
      MODEL + "; exact root of the stable polynomial")
    p("A04", "The stored invariant is that of the reserves",
      "After every operation the invariant which a stable pool stores is the root of the stable curve's polynomial for the current reserves (to half a token and the arithmetic precision), and zero if the pool is empty.",
      HIST, ALL, ATESTS + "convergence and precision at extreme magnitudes and imbalances are not reached.",
      [POOL, INV, EP + "create_pool.rs", DEP, RED, SWAP], [fn_("StableCurveInvariant::compute", INV), fn_("Pool::update_curve_invariant", POOL)], [RES, D],
      ["pool account"], MODEL + "; exact root of the stable polynomial")
    p("A05", "Deposits keep the ratio, within the maximum, and are maximal",
      "A deposit into a pool with liquidity never takes more of any token than the user's maximum, takes the tokens in the ratio of the reserves (rounded up to whole tokens), and takes the most which the maxima allow. "
      "The first deposit takes exactly the given amounts. A deposit which would mint no LP token fails.",
      HIST, ALL, ATESTS + "the maximum is only exceeded at particular magnitudes.",
      [POOL, DEP], [fn_("Pool::get_deposit_ratio", POOL), fn_("Pool::deposit_tokens", POOL)], [RES], ["wallets, vaults"], MODEL)
    p("A06", "A deposit never dilutes the other LP holders",
      "A deposit mints at most the share of LP tokens which every one of the deposited amounts is of its reserve, and not less than that but for rounding, so that neither LP tokens of others lose worth nor does the depositor. "
      "Depositing and redeeming at once never gives more of any token than was deposited.",
      HIST, ALL, ATESTS + "shares of strongly differing reserves are not tested.",
      [POOL, DEP], [fn_("Pool::get_eligible_lp_tokens", POOL)], [RES], ["LP wallet and supply, reserves"], MODEL)
    p("A07", "A redemption gives the exact share",
      "Burning b of S LP tokens gives floor(reserve*b/S) of each token (to the 18 decimals of the share), never more, not less than the user's minimum, and needs the LP tokens of the user; "
      "burning all LP tokens empties the reserves.",
      HIST, ALL, ATESTS + "odd shares of large reserves are not sampled.",
      [POOL, RED], [fn_("Pool::redeem_tokens", POOL)], [RES], ["wallets, vaults, LP supply"], MODEL + "; exit of everybody at the end")
    p("A08", "Swaps take and give exactly the stated tokens, or nothing",
      "A swap takes exactly the sold amount from the seller's wallet into the vault of that token, pays the result from the vault of the other to the buyer's wallet, gives at least the minimum or fails without any effect, and moves nothing else. "
      "A minimum equal to the result is accepted.",
      HIST, ALL, ATESTS + "the minimum is tested in a few cases.",
      [SWAP, POOL], [fn_("slippage check", SWAP)], [RES], ["all token accounts"], MODEL + "; swaps are quoted on a copy of the state and repeated with minimums around the quote")
    p("A09", "The swap fee is the set share, less a valid discount",
      "A swap keeps ceil(sold * fee * (1 - discount)) of the sold token out of the curve; the discount applies to exactly the user it was granted to (who signs the swap, whoever owns the tokens), up to and including the slot it is valid until.",
      HIST + ["schedules"], "all fees, discounts, expiry slots and sold amounts",
      ATESTS + "slots around the expiry and rounding are sampled by few cases.",
      [SWAP, POOL, AM + "models/discount.rs"], [fn_("fee in Pool::swap", POOL), fn_("discount account", SWAP)], [],
      ["output of the swap"], MODEL)
    p("A10", "The toll is at most a third of the fee, paid by nobody else",
      "A swap mints LP tokens to the toll wallet which are worth a third of the fee (rounded, taken evenly of all reserves) and none beyond that; the worth of an LP token (constant product or invariant per LP token) is not decreased by the swap, so that liquidity providers keep the rest of the fee.",
      HIST, ALL, ATESTS + "what an LP token is worth is not looked at.",
      [SWAP, POOL], [fn_("toll as a pretended deposit", POOL)], [RES], ["toll wallet, LP supply, reserves"], MODEL)
    p("A11", "The pool's books match the vaults and the LP supply",
      "After every operation each reserve in the pool account is exactly what the vault holds but for what was sent there unasked, only redemptions and the buying side of swaps take tokens out of vaults, and the LP supply changes by exactly what deposits, redemptions and tolls mint and burn.",
      HIST, ALL, ATESTS + "histories of different operations on pools which share mints are not tested.",
      [POOL, SWAP, DEP, RED], [fn_("reserves versus transfers", EP)], [RES], ["pool account, vaults, LP mint"], MODEL)
    p("A12", "No closed sequence of operations makes a profit",
      "A trader who swaps around (there and back, along cycles, in parts, with deposits and redemptions in between) never ends with more of one token and no less of all others at the expense of the pool. "
      "Splitting a swap into parts never gives more than the whole, for constant product pools and for stable ones without fee.",
      HIST, "all sequences of swaps, deposits and redemptions of one trader in generated pools",
      ATESTS + "sequences are not tested at all.",
      [POOL, EQ, INV, SWAP, DEP, RED], [fn_("rounding in favour of the pool", POOL)], [RES, D], ["balances of a trader"],
      "metamorphic relations between swap sequences (cycles, splits, sandwiches) plus model-based histories")
    p("A13", "Pools are only created from vaults under their sole control",
      "create_pool accepts exactly two to four different vaults of different mints, which are owned by the pool's signer, with no close authority, delegate or freeze, either all empty with no LP supply or all filled with one; "
      "an LP mint controlled by the signer alone; and a toll wallet of that mint which belongs to the authority of the toll. The pool starts with these reserves, the given admin and curve, and no fee.",
      ["inputs", "configurations"], "all combinations of valid configurations and defects of the accounts",
      ATESTS + "each test covers one defect of one account of one pool.",
      [EP + "create_pool.rs"], [fn_("vault checks", EP + "create_pool.rs"), fn_("accounts constraints", EP + "create_pool.rs")], [], ["created pool account"],
      "generated configurations with injected defects against an independent validity oracle")
    p("A14", "Only the admin sets the swap fee, and only up to one percent",
      "The fee of a pool changes only by set_pool_swap_fee, signed by the pool's admin, to a value of at most 1 %; nothing else changes admin, fee, amplifier or vaults of a pool.",
      HIST, "all fees and signers, interleaved with all other operations", ATESTS + "the signer and the boundary are sampled.",
      [EP + "set_pool_swap_fee.rs", SWAP, DEP, RED], [fn_("admin constraint", EP + "set_pool_swap_fee.rs")], [], ["pool account"], MODEL)
    p("A15", "Discounts are granted by the authority only, within limits",
      "A discount is created or changed only by the authority of the discount settings, for exactly the given user, to at most 100 % and to expire in the future; nobody else's discount changes, and nobody else can prevent it.",
      HIST + ["schedules"], "all amounts, expiry slots and signers, interleaved with the use of discounts",
      ATESTS + "combinations of repeated grants, expiry and other users are not tested.",
      [EP + "put_discount.rs", AM + "models/discount.rs"], [fn_("accounts constraints", EP + "put_discount.rs")], [], ["discount accounts"], MODEL)
    p("A16", "Only the upgrade authority creates the singletons, once",
      "The toll and the discount settings are created only by the upgrade authority of the program, as shown by the program's own program data; at most once; with the authority it names; and never changed afterwards.",
      ["inputs", "histories", "configurations"], "all sequences of genuine and forged requests",
      ATESTS + "forged combinations of program, program data and signer are sampled by few cases.",
      [EP + "create_program_toll.rs", EP + "create_discount_settings.rs"], [fn_("program data constraints", EP + "create_program_toll.rs")], [], ["toll and settings accounts"],
      "generated sequences of requests with injected forgeries")
    p("A17", "Substituted accounts never move another's tokens",
      "Whatever accounts an attacker passes to an AMM instruction in place of the proper ones (of other pools, own look-alike accounts, other mints, missing signatures, repeated or reordered pairs), "
      "the instruction either fails or has an effect which the honest parties could not object to: nobody else's wallet, vault, pool, discount or LP supply is touched beyond what the proper instruction allows.",
      ["inputs", "histories", "configurations"], "all single and double substitutions of accounts of every instruction in generated states",
      ATESTS + "each test substitutes one fixed account in one fixed way.",
      [EP], [fn_("account constraints", EP + "*.rs")], [], ["every account of honest parties"],
      "generated account substitutions in generated states, with an oracle on the state of honest parties")
    p("A18", "Liquidity is never stuck and pools never break",
      "In every reachable state (not imbalanced beyond the curve's documented limit) swaps of a fraction of the reserves, deposits and redemptions succeed, every LP holder can redeem everything, after which nothing is left, and the pool can be used again.",
      HIST, ALL, ATESTS + "arithmetic failures in rare states show in long histories and at particular magnitudes only.",
      [POOL, EQ, INV, SWAP, DEP, RED], [fn_("error paths of arithmetic", INV)], [RES, D], ["exit of all holders after each history"], MODEL + "; exit of everybody and a new start after each history")
