//! What decides each property of the AMM.

use crate::arbitrage;
use crate::create;
use crate::probes;
use crate::ops::{self, Case, Op, Weights, EVEN};
use crate::subst;
use crate::world::{self, Mismatch, Res, World};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use svm::pbt::{Check, Property, Stats, Sub, Tier};

type After = fn(&mut World, &Op, &mut Stats) -> Res;
type End = fn(&mut World, &mut Stats) -> Res;

/// A history based check: every transition is judged, disagreements tagged
/// with `id` are violations.
struct H {
    name: &'static str,
    id: &'static str,
    quick: u32,
    thorough: u32,
    gen: fn(Tier) -> BoxedStrategy<Case>,
    nontrivial: fn(&Stats) -> bool,
    after: After,
    end: End,
    /// judges the state in which a disagreement about another property left the
    /// accounts
    last: fn(&World) -> Res,
}

impl H {
    fn new(
        name: &'static str,
        id: &'static str,
        quick: u32,
        gen: fn(Tier) -> BoxedStrategy<Case>,
        nontrivial: fn(&Stats) -> bool,
    ) -> H {
        H { name, id, quick, thorough: quick * 12, gen, nontrivial, after: |_, _, _| Ok(()), end: |_, _| Ok(()), last: |_| Ok(()) }
    }
    fn after(mut self, f: After) -> H {
        self.after = f;
        self
    }
    fn end(mut self, f: End) -> H {
        self.end = f;
        self
    }
    fn last(mut self, f: fn(&World) -> Res) -> H {
        self.last = f;
        self
    }
    fn sub(self) -> Box<dyn Sub> {
        let H { name, id, quick, thorough, gen, nontrivial, after, end, last } = self;
        Check::boxed(name, quick, thorough, gen, move |case: &Case, st: &mut Stats| {
            let (mut w, r) = world::run(case, st, &mut |w, o, s| after(w, o, s));
            let mut r = r.and_then(|any| if any { end(&mut w, st) } else { Ok(()) });
            if let Err(e) = &r {
                if !e.tags.contains(&id) {
                    r = last(&w).and(r);
                }
            }
            st.nontrivial = nontrivial(st);
            verdict(id, r, st)
        })
    }
}

pub fn verdict(id: &str, r: Res, st: &mut Stats) -> Result<(), String> {
    match r {
        Ok(()) => Ok(()),
        Err(Mismatch { tags, msg }) if tags.contains(&id) => Err(msg),
        Err(Mismatch { msg, tags }) => {
            st.hit("ended_by_another_property");
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("OTHER {:?} {}", tags, msg);
            }
            st.note(|| msg);
            st.nontrivial = false;
            Ok(())
        }
    }
}

fn n(st: &Stats, k: &'static str) -> u64 {
    st.n.get(k).copied().unwrap_or(0)
}

const CONST: Weights = Weights { stable: 0, swap: 40, ..EVEN };
const STABLE: Weights = Weights { stable: 100, swap: 40, ..EVEN };
const SHARES: Weights = Weights { deposit: 30, redeem: 20, swap: 14, movelp: 5, burn: 2, ..EVEN };
const EXITS: Weights = Weights { deposit: 16, redeem: 34, swap: 14, toll: 6, exit: 4, ..EVEN };
const SWAPS: Weights = Weights { swap: 50, ..EVEN };
const FEES: Weights = Weights { stable: 30, swap: 40, fee: 8, discount: 10, warp: 8, discounted: 75, ..EVEN };
const ADMIN: Weights = Weights { fee: 30, discount: 4, swap: 14, foreign: 45, ..EVEN };
const GRANTS: Weights = Weights { discount: 36, swap: 24, warp: 12, foreign: 35, discounted: 60, ..EVEN };

fn s_const(t: Tier) -> BoxedStrategy<Case> {
    ops::case(CONST, ops::len(t, 24))
}
fn s_stable(t: Tier) -> BoxedStrategy<Case> {
    ops::case(STABLE, ops::len(t, 20))
}
fn s_shares(t: Tier) -> BoxedStrategy<Case> {
    ops::case(SHARES, ops::len(t, 24))
}
fn s_exits(t: Tier) -> BoxedStrategy<Case> {
    ops::case(EXITS, ops::len(t, 24))
}
fn s_swaps(t: Tier) -> BoxedStrategy<Case> {
    ops::case(SWAPS, ops::len(t, 20))
}
fn s_fees(t: Tier) -> BoxedStrategy<Case> {
    ops::case(FEES, ops::len(t, 30))
}
fn s_admin(t: Tier) -> BoxedStrategy<Case> {
    ops::case(ADMIN, ops::len(t, 24))
}
fn s_grants(t: Tier) -> BoxedStrategy<Case> {
    ops::case(GRANTS, ops::len(t, 30))
}
fn s_even(t: Tier) -> BoxedStrategy<Case> {
    ops::case(EVEN, ops::len(t, 30))
}

const SVM: &str = "transactions run in an in-process model of the Solana runtime (account ownership, \
    privileges, rent-free lamports, CPI into the real spl-token processor), not in a validator";
const STANDIN: &str = "the decimal crate is a stand-in for solana-decimal 0.4.0 which passes the repository's unit tests";

fn history(id: &'static str, rule: &'static str, subs: Vec<Box<dyn Sub>>) -> Property {
    Property { id, rule, assumptions: &[SVM, STANDIN], subs, probes: vec![], min_nontrivial: 5000 }
}

pub fn find(id: &str) -> Option<Property> {
    let mut p = match id {
        "A01" => history(
            "A01",
            "histories of a constant product pool in which at least two swaps were executed",
            vec![H::new("product", "A01", 120_000, s_const, |st| n(st, "swapped_const") >= 2).sub()],
        ),
        "A02" => history(
            "A02",
            "histories of a constant product pool in which at least two swaps were executed",
            vec![H::new("const_output", "A02", 120_000, s_const, |st| n(st, "swapped_const") >= 2).sub()],
        ),
        "A03" => history(
            "A03",
            "histories of a stable pool in which at least two swaps were executed",
            vec![H::new("stable_output", "A03", 60_000, s_stable, |st| n(st, "swapped_stable") >= 2).sub()],
        ),
        "A04" => history(
            "A04",
            "histories of a stable pool in which at least three swaps, deposits or redemptions were executed",
            vec![H::new("invariant", "A04", 60_000, s_stable, |st| {
                n(st, "swapped_stable") + n(st, "deposited") + n(st, "redeemed") >= 3
            })
            .last(|w| w.invariants_stored())
            .sub()],
        ),
        "A05" => history(
            "A05",
            "histories in which at least two deposits into a pool with liquidity were executed",
            vec![H::new("deposits", "A05", 100_000, s_shares, |st| n(st, "deposited") >= 2).sub(), subst::check("A05", subst::DEPOSIT, 6000)],
        ),
        "A06" => history(
            "A06",
            "histories in which at least two deposits into a pool with liquidity and a redemption were executed",
            vec![H::new("shares", "A06", 100_000, s_shares, |st| n(st, "deposited") >= 2 && n(st, "redeemed") >= 1).sub(), subst::check("A06", subst::SHARES, 6000)],
        ),
        "A07" => history(
            "A07",
            "histories in which at least two redemptions were executed",
            vec![H::new("redemptions", "A07", 80_000, s_exits, |st| n(st, "redeemed") + n(st, "redeemed_all") >= 2)
                .end(|w, st| {
                    for p in 0..w.pools.len() {
                        w.exit_all(p, st)?;
                    }
                    Ok(())
                })
                .sub(), subst::check("A07", subst::REDEEM, 6000)],
        ),
        "A08" => history(
            "A08",
            "histories in which a swap was executed and another one refused for its minimum",
            vec![H::new("swaps", "A08", 60_000, s_swaps, |st| {
                n(st, "swapped_const") + n(st, "swapped_stable") >= 1 && n(st, "swap_slippage") >= 1
            })
            .sub(), subst::check("A08", subst::SWAP, 6000)],
        ),
        "A09" => history(
            "A09",
            "histories in which at least two swaps paid a fee, one of them a discounted one",
            vec![H::new("fees", "A09", 80_000, s_fees, |st| n(st, "fee_taken") >= 2 && n(st, "fee_discounted") >= 1).sub(), subst::check("A09", subst::SWAP, 6000)],
        ),
        "A10" => history(
            "A10",
            "histories in which LP tokens were minted to the toll wallet",
            vec![H::new("toll", "A10", 80_000, s_fees, |st| n(st, "toll_taken") >= 1).sub(), subst::check("A10", subst::SWAP, 6000)],
        ),
        "A11" => history(
            "A11",
            "histories of at least one deposit, one swap and one redemption",
            vec![H::new("ledger", "A11", 80_000, s_even, |st| {
                n(st, "deposited") + n(st, "first_deposit") >= 1
                    && n(st, "swapped_const") + n(st, "swapped_stable") >= 1
                    && n(st, "redeemed") + n(st, "redeemed_all") >= 1
            })
            .last(|w| w.books())
            .sub(), subst::check("A11", subst::ALL, 8000)],
        ),
        "A12" => history(
            "A12",
            "sequences of a single trader with at least two executed swaps, or a swap among deposits and redemptions",
            vec![
                arbitrage::check("A12", 250_000),
                H::new("histories", "A12", 60_000, s_even, |st| {
                    n(st, "swapped_const") + n(st, "swapped_stable") >= 1 && n(st, "deposited") + n(st, "redeemed") >= 1
                })
                .sub(),
                subst::check("A12", subst::TRADE, 6000),
            ],
        ),
        "A13" => history(
            "A13",
            "requests to create a pool with at most one defect (one of eighteen kinds) in the given accounts",
            vec![create::check("A13", 400_000), subst::check("A13", subst::CREATE, 4000)],
        ),
        "A16" => history(
            "A16",
            "sequences of requests in which a singleton was created and another request was refused",
            vec![create::singletons("A16", 150_000), subst::check("A16", subst::ALL, 4000)],
        ),
        "A14" => history(
            "A14",
            "histories in which a fee was set after creation and another attempt was refused",
            vec![H::new("admins", "A14", 80_000, s_admin, |st| {
                n(st, "fee_set") >= 2 && n(st, "fee_too_high") + n(st, "fee_unauthorised") >= 1
            })
            .sub(), subst::check("A14", subst::FEE, 8000)],
        ),
        "A15" => history(
            "A15",
            "histories in which a discount was granted and another attempt was refused",
            vec![H::new("grants", "A15", 80_000, s_grants, |st| {
                n(st, "discount_created") + n(st, "discount_changed") >= 2
                    && n(st, "discount_invalid") + n(st, "discount_unauthorised") >= 1
            })
            .sub(), subst::check("A15", subst::DISCOUNT, 6000)],
        ),
        "A17" => history(
            "A17",
            "a case is a history plus altered instructions; it counts if the original of at least one altered \
                instruction was accepted in the state it was tried in",
            vec![subst::check("A17", subst::ALL, 40_000)],
        ),
        "A18" => history(
            "A18",
            "histories after which at least two holders redeemed everything they had",
            vec![H::new("liveness", "A18", 60_000, s_even, |st| n(st, "got_out") >= 1)
                .end(|w, st| w.everybody_leaves(st))
                .sub()],
        ),
        _ => return None,
    };
    match id {
        "A10" => p.probes.push(("scarce-token", probes::scarce_token)),
        "A18" => p.probes.push(("imbalanced-redemption", probes::imbalanced_redemption)),
        _ => (),
    }
    Some(p)
}
