#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FA = "programs/farming/src/"
AM = "programs/amm/src/"
P = []
FTESTS = ("The tests run a handful of fixed histories (one farmer, one or two harvests, a few snapshots) "
          "or single model methods with sampled numbers; ")
ATESTS = ("The tests exercise fixed pools and a few sampled reserves per method, mostly without the token program; ")


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note))


HIST = ["histories", "inputs", "schedules"]
MODEL = "model-based random operation histories against a reference model, shrunk by proptest"
fn_ = lambda n, w: {"name": n, "where": w}

p("F01", "Stake vault backs every deposit",
  "At any time the stake vault of a farm holds exactly the tokens which all farmers of that farm have deposited (staked plus vested) "
  "plus what anybody sent to it unasked. No operation other than the owner's withdrawal moves tokens out of it.",
  HIST, "every history of operations by any number of farmers, admins and strangers on farms which share mints",
  FTESTS + "they never compare the vault with the sum over farmers.",
  [FA + "endpoints/start_farming.rs", FA + "endpoints/stop_farming.rs", FA + "endpoints/compound_same_farm.rs", FA + "endpoints/compound_across_farms.rs", FA + "models/farmer.rs"],
  [fn_("Farmer::add_to_vested", FA + "models/farmer.rs"), fn_("Farmer::unstake", FA + "models/farmer.rs"), fn_("token transfer before/after bookkeeping", FA + "endpoints/stop_farming.rs")],
  [{"name": "Farmer.staked, Farmer.vested", "meaning": "deposited tokens", "where": FA + "models/farmer.rs"}],
  ["stake vault token account", "farmer accounts"], MODEL)
p("F02", "Deposits and withdrawals are exact and by the owner only",
  "Depositing n tokens takes exactly n from the depositor and credits exactly n to the farmer; withdrawing with limit n returns exactly min(n, deposited) to a wallet which the "
  "farmer's authority chose, taking vested tokens before staked ones. Only the authority of the farmer can withdraw.",
  HIST, "all amounts (including u64 extremes, zero, more than deposited) in all reachable farmer states, by all signers",
  FTESTS + "amounts at the boundaries, combinations of vested and staked tokens and strangers as callers are sampled by a few cases.",
  [FA + "endpoints/start_farming.rs", FA + "endpoints/stop_farming.rs", FA + "models/farmer.rs"],
  [fn_("Farmer::unstake", FA + "models/farmer.rs"), fn_("accounts constraints", FA + "endpoints/stop_farming.rs")],
  [{"name": "Farmer.staked, vested, vested_at", "meaning": "deposits", "where": FA + "models/farmer.rs"}],
  ["wallets", "farmer account"], MODEL)
p("F03", "Harvest credited equals emission times share per slot",
  "For each harvest mint a settlement credits the farmer, for every slot since the last one, the emission rate in force in that slot times the farmer's share of the total stake of the snapshot in force in it. "
  "The credited amount is never more than that exact sum, and less only by the documented rounding (whole tokens per snapshot window).",
  HIST, "all timelines of emission periods, snapshots, deposits, withdrawals and settlement points, with all rates and stakes",
  FTESTS + "periods that begin, end or overlap snapshot windows in unusual ways, or more than one wrap of the snapshot ring, are not reached.",
  [FA + "models/farmer.rs", FA + "models/farm.rs", FA + "endpoints/update_eligible_harvest.rs"],
  [fn_("eligible_harvest_until", FA + "models/farmer.rs"), fn_("Harvest::tokens_per_slot", FA + "models/farm.rs")],
  [{"name": "Farmer.harvests, calculate_next_harvest_from", "meaning": "what is credited and from which slot on it is not", "where": FA + "models/farmer.rs"}],
  ["farmer account"], MODEL + "; per-slot exact oracle")
p("F04", "Settlement schedule does not change what a farmer earns",
  "Settling a farmer's harvest more often, at any slots and by anybody, or in limited steps, does not change what the farmer is owed in the end except for the rounding down of each settlement. "
  "In particular nobody can lower or raise the harvest of another farmer by choosing when to settle it.",
  ["schedules", "histories"], "all placements of additional permissionless settlements into a history",
  FTESTS + "a relation between two histories is not tested at all.",
  [FA + "models/farmer.rs", FA + "endpoints/update_eligible_harvest.rs"],
  [fn_("check_vested_period_and_update_harvest", FA + "models/farmer.rs"), fn_("update_eligible_harvest_until", FA + "models/farmer.rs")],
  [{"name": "Farmer.calculate_next_harvest_from", "meaning": "cursor", "where": FA + "models/farmer.rs"}],
  ["farmer account"], "metamorphic pairs of generated histories (with and without additional settlements)")
p("F05", "Deposits earn from the next snapshot on and never before",
  "Tokens deposited after a snapshot are vested: they earn nothing until the next snapshot is taken, and from that snapshot on they earn fully, however long ago it was and however many snapshots the history has kept since. "
  "Adding to a vested deposit neither delays what was vested before an intermediate snapshot nor makes the addition earn early.",
  HIST, "all interleavings of deposits, snapshots and settlements, including histories longer than the snapshot ring",
  FTESTS + "snapshots older than the ring, and deposits on top of vested ones across several snapshots, are not tested.",
  [FA + "models/farmer.rs"],
  [fn_("check_vested_period_and_update_harvest", FA + "models/farmer.rs"), fn_("Farmer::add_to_vested", FA + "models/farmer.rs")],
  [{"name": "Farmer.vested, vested_at", "meaning": "tokens not yet earning and since when", "where": FA + "models/farmer.rs"}],
  ["farmer account"], MODEL + ", with runs of more than 1000 snapshots")
p("F06", "Total harvest credited never exceeds what was emitted and funded",
  "The sum of what all farmers of a farm were ever credited in a harvest mint never exceeds the emission of its periods up to now, "
  "and the harvest vault always holds enough to pay every credited and not yet claimed token and the rest of the open periods.",
  HIST, "all histories of many farmers, with any settlement and claim order",
  FTESTS + "they follow one farmer, so the sum over farmers is never looked at.",
  [FA + "models/farmer.rs", FA + "models/farm.rs", FA + "endpoints/new_harvest_period.rs", FA + "endpoints/claim_eligible_harvest.rs"],
  [fn_("share = staked / total of the snapshot, floored", FA + "models/farmer.rs"), fn_("deposit of the whole period in advance", FA + "endpoints/new_harvest_period.rs")],
  [{"name": "harvest vault", "meaning": "prepaid emissions", "where": FA + "endpoints/add_harvest.rs"}],
  ["harvest vaults", "farmer accounts"], MODEL + "; solvency invariant after every step and a final run on the bank")
p("F07", "Every slot is credited at most once",
  "A farmer's settlement position only moves forward, never past the current slot plus one, and no slot is credited twice to a farmer whatever mix of settlement, limited settlement, deposit, withdrawal, claim and compounding is used.",
  HIST, "all sequences of the operations which settle a farmer, including several in one slot",
  FTESTS + "sequences of different settling operations in the same slot are not tested.",
  [FA + "models/farmer.rs", FA + "endpoints/update_eligible_harvest.rs", FA + "endpoints/compound_same_farm.rs"],
  [fn_("calculate_next_harvest_from", FA + "models/farmer.rs")],
  [{"name": "Farmer.calculate_next_harvest_from", "meaning": "first slot not yet credited", "where": FA + "models/farmer.rs"}],
  ["farmer account"], MODEL)
p("F08", "Claims pay exactly what is owed, once, to the authority only",
  "A claim pays, for each vault and wallet pair presented, exactly the credited harvest of that mint and sets it to zero, leaving the mints which were not presented as they were. "
  "Only the farmer's authority can claim, and a second claim pays nothing.",
  HIST, "all subsets, orders and repetitions of presented vaults, by all signers, in all reachable states",
  FTESTS + "which pairs of accounts are presented, and in what order, is open to the caller.",
  [FA + "endpoints/claim_eligible_harvest.rs", FA + "models/farmer.rs"],
  [fn_("Farmer::claim_harvest", FA + "models/farmer.rs"), fn_("vault PDA check", FA + "endpoints/claim_eligible_harvest.rs")],
  [{"name": "Farmer.harvests", "meaning": "credited tokens per mint", "where": FA + "models/farmer.rs"}],
  ["wallets", "harvest vaults", "farmer account"], MODEL)
p("F09", "Snapshots record the stake truthfully and in order",
  "A snapshot can be taken by anybody, but not sooner than the minimum window after the last one; it records the slot and the balance of the stake vault at that moment. "
  "The history is strictly ordered by slot and always keeps the latest thousand snapshots unaltered.",
  HIST, "all times and orders of snapshots relative to deposits, withdrawals and window changes, beyond the ring's length",
  FTESTS + "the ring is never wrapped through the endpoint.",
  [FA + "endpoints/take_snapshot.rs", FA + "models/farm.rs", FA + "endpoints/set_min_snapshot_window.rs"],
  [fn_("Farm::take_snapshot", FA + "models/farm.rs")],
  [{"name": "Farm.snapshots", "meaning": "ring buffer", "where": FA + "models/farm.rs"}],
  ["farm account"], MODEL + ", with runs of more than 1000 snapshots")
p("F10", "Harvest periods form a consistent timeline",
  "The emission periods of a mint never overlap, are ordered, and an open or past period is never altered; only a period that has not begun can be replaced. "
  "A period which farmers can still be owed for is never dropped from the record.",
  HIST, "all sequences of period requests with any start, length and rate, at any time relative to existing periods and snapshots",
  FTESTS + "requests are tried on hand made configurations of at most ten periods.",
  [FA + "models/farm.rs", FA + "endpoints/new_harvest_period.rs"],
  [fn_("Farm::new_harvest_period", FA + "models/farm.rs")],
  [{"name": "Harvest.periods", "meaning": "ring of the last ten periods", "where": FA + "models/farm.rs"}],
  ["farm account"], MODEL)
p("F11", "Opening a period is paid for exactly",
  "Opening a period of l slots at rate r moves exactly l times r harvest tokens from the admin into the harvest vault, and if it replaces a period that has not begun exactly the price of that one is returned. "
  "If the admin cannot pay, nothing changes.",
  HIST, "all rates, lengths and starts (including u64 extremes) against all states of the timeline and wallets",
  FTESTS + "the refund arithmetic is tested on single examples.",
  [FA + "endpoints/new_harvest_period.rs", FA + "models/farm.rs"],
  [fn_("deposit/refund computation", FA + "endpoints/new_harvest_period.rs")],
  [], ["harvest vault", "admin wallet"], MODEL)
p("F12", "Compounding moves a farmer's own harvest only where both farms agree",
  "Compounding moves exactly the harvest credited in the stake mint of the target farm from the source farm's harvest vault to the target's stake vault and credits it to the target farmer of the same authority, as a deposit made at that time. "
  "It works only if the pair of farms is whitelisted (or is the same farm), and it neither loses nor alters other harvest of the two farmers.",
  HIST, "all pairs of farms, whitelist states, farmers, amounts and settlement states of source and target",
  FTESTS + "the state of the target farmer is always fresh in the tests.",
  [FA + "endpoints/compound_same_farm.rs", FA + "endpoints/compound_across_farms.rs", FA + "endpoints/whitelist_farm_for_compounding.rs", FA + "endpoints/dewhitelist_farm_for_compounding.rs"],
  [fn_("whitelist PDA", FA + "endpoints/compound_across_farms.rs"), fn_("settlement before compounding", FA + "endpoints/compound_across_farms.rs")],
  [], ["vaults", "farmer accounts"], MODEL)
p("F13", "Airdrops credit exactly what was paid",
  "An airdrop of n tokens of a harvest mint takes exactly n from the payer into the harvest vault and credits exactly n to the one farmer named, and changes nothing else of it.",
  HIST, "all amounts and mints, in all reachable farmer states, including mints added after the farmer was created",
  FTESTS + "the farmer is always in one fixed state.",
  [FA + "endpoints/airdrop.rs", FA + "models/farmer.rs"], [fn_("handle", FA + "endpoints/airdrop.rs")], [],
  ["farmer account", "harvest vault"], MODEL)
p("F14", "Farmer accounts begin empty and close only when nothing is owed",
  "A new farmer account has no deposit and no harvest and belongs to the authority and farm it was created for; a farmer can be closed only by its authority and only if no deposit and no harvest is left in it. "
  "Closing returns the rent to the authority, and a farmer that is created again starts from nothing.",
  HIST, "all histories of creation, use, closing and re-creation",
  FTESTS + "closing is tried in a few hand made states.",
  [FA + "endpoints/create_farmer.rs", FA + "endpoints/close_farmer.rs"], [fn_("constraints", FA + "endpoints/close_farmer.rs")], [],
  ["farmer account", "lamports"], MODEL)
p("F15", "The registry of harvest mints keeps what is owed",
  "Only the admin can add or remove a harvest mint; at most ten are registered and none twice, and one can be removed only if its vault is empty and gone with it. "
  "A farmer's credited harvest follows the mint and not its position, so that adding and removing mints never changes what is owed in others.",
  HIST, "all sequences of adding and removing mints between settlements of farmers",
  FTESTS + "farmers and the registry are not tested together.",
  [FA + "endpoints/add_harvest.rs", FA + "endpoints/remove_harvest.rs", FA + "models/farm.rs", FA + "models/farmer.rs"],
  [fn_("Farm::add_harvest", FA + "models/farm.rs"), fn_("oldest mints replaced in farmer", FA + "models/farmer.rs")], [],
  ["farm account", "farmer accounts"], MODEL)
p("F16", "Admin operations need the admin, and handover is exact",
  "Only the current admin of a farm can change the owner, the snapshot window, the harvests, the periods and the whitelist of that farm; after a handover the new admin can and the old one cannot. "
  "No other operation alters the farm's settings.",
  HIST, "all histories of administrative attempts by admins, former admins, other farms' admins and strangers",
  FTESTS + "only the wrong signer of the same operation is tried, in one state each.",
  [FA + "endpoints/set_farm_owner.rs", FA + "endpoints/set_min_snapshot_window.rs", FA + "endpoints/new_harvest_period.rs", FA + "endpoints/whitelist_farm_for_compounding.rs"],
  [fn_("admin signer constraint", FA + "endpoints/*.rs")], [], ["farm account"], MODEL)
p("F17", "Substituted accounts never move another's tokens",
  "Whatever accounts an attacker passes to an instruction in place of the proper ones (of other farms, own look-alike accounts, other mints, other programs, missing signatures), "
  "the instruction either fails or has no effect on other people's deposits, harvest, vaults and settings.",
  ["inputs", "histories", "configurations"], "all single and double substitutions of accounts of every instruction in generated states",
  FTESTS + "each test substitutes one fixed account in one fixed way.",
  [FA + "endpoints/"], [fn_("account constraints", FA + "endpoints/*.rs")], [], ["every account of honest parties"],
  "generated account substitutions in generated states, with an oracle on the state of honest parties")
p("F18", "Every farmer can always get out",
  "In every reachable state every farmer can settle, claim all harvest, withdraw the whole deposit and close the account, receiving all that is owed. "
  "No history of valid operations by others makes an operation of a farmer fail for good.",
  HIST, "all reachable states of generated histories, extended by an exit of all farmers",
  FTESTS + "arithmetic failures in rare states show in long histories only.",
  [FA + "models/farmer.rs", FA + "models/farm.rs", FA + "endpoints/"], [fn_("error paths of settlement", FA + "models/farmer.rs")], [],
  ["exit of all farmers after each history"], MODEL + "; exit of everybody after each history")

p("F19", "A new farm starts empty under its admin's control",
  "A farm comes into being only from an unused, zeroed account of the program, only once, with the signature of the one who becomes its admin, and with the right signer, vault, mint and programs. "
  "It starts with no harvests, snapshots or setting but the admin, the mint and an empty stake vault at the farm's own address which only the farm's signer controls. "
  "Nothing else changes, and nobody can prevent it by sending lamports to the vault's address beforehand.",
  ["inputs", "histories"], "all admins, mints and slots, and all accounts with none or some of twelve kinds of defects",
  FTESTS + "the creation of a farm is tested with one good set of accounts and a few bad ones.",
  [FA + "endpoints/create_farm.rs", FA + "models/farm.rs"],
  [fn_("create_farm accounts and handler", FA + "endpoints/create_farm.rs")],
  [{"name": "Farm", "meaning": "fresh farm", "where": FA + "models/farm.rs"}], ["farm account", "stake vault", "all other accounts"],
  "generated accounts with defects against an oracle which says when creation must succeed, followed by generated attempts at using or taking over the new farm")

from spec_amm import amm  # noqa: E402
amm(p, fn_, AM, ATESTS)

NOT_APPLICABLE = []
FNOTE = ("Search over generated histories of the real instruction handlers (entry point, account validation, CPI into the real token program) "
         "in an in-process model of the Solana runtime, with an independent reference model as the oracle. Evidence of absence only within the "
         "generated space. Trusts the runtime model and the stand-in for the decimal crate (DESIGN.md).")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": list(q["files"]), "state": list(q["state"]), "mechanism": list(q["mech"]),
                            "observe_at": list(q["observe"]), "hook_needed": None},
            }) + "\n")
    done = {n["property"] for n in NOT_APPLICABLE}
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": q["id"],
            "quick_cmd": "./check " + q["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check " + q["id"],
            "evidence_file": "evidence/%s.json" % q["id"],
            "technique": "property-based testing: " + q["technique"],
            "level": "exploration",
            "level_note": q["note"] or FNOTE,
        } for q in P if q["id"] not in done],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: the checks use the public interface of the programs only. VERIF_SCALE multiplies the number of cases.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for q in P:
        assert len(q["title"]) <= 80, q["title"]


main()
