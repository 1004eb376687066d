//! C02: deriving silent payment outputs in a PSBT is all-or-nothing. Whatever the signing device
//! answers, whatever is still missing from the PSBT and however often the operation is retried,
//! an error leaves the PSBT exactly as it was, and success means every recipient finds its output.
use super::Property;
use crate::{core::*, ensure, fail, keys::*, note, refmodel, world::*};
use bdk_sp::{encoding::SilentPaymentCode, send::psbt::derive_sp};
use bitcoin::{Amount, Network, Psbt, Transaction, TxOut};
use std::collections::{BTreeMap, BTreeSet};

pub const PROPERTY: Property = Property {
    id: "C02",
    run,
    quick: 10_000,
    thorough: 200_000,
    probes: &[],
    state_rule: "distinct (input kinds, fault applied per input, recipient-list defect, outcome of the attempt) combinations executed",
    must_reach: &[
        "attempt failed and left the psbt unchanged",
        "attempt succeeded after a failed one",
        "psbt saved and reloaded between attempts",
        "psbt not completely signed yet",
        "psbt input without its previous output",
        "recipient without an output in the psbt",
        "several outputs to one scan key",
        "repeated after success",
        "psbt input lists several key origins",
        "output replaced by command line",
        "replacing an output refused",
    ],
    real: &["bdk_sp: PSBT derivation with every input type, incl. spending received outputs", "cli/v1: the whole program with its to-silent-payment command", "bitcoin PSBT serialisation"],
    stub: &["signing device: simulated GetKey with injected failures", "signatures in final witnesses are dummies"],
    assumptions: &["secp256k1 and hashing behave as specified", "final scripts in the PSBT are the ones that get broadcast"],
};

struct Case {
    parties: Vec<Party>,
    sender: usize,
    coins: Vec<Coin>,
    /// (party, label) per placeholder output, None for unrelated outputs
    outs: Vec<Option<(usize, Option<u32>)>>,
}

fn run() -> Res {
    if chance(1, 10) {
        return super::newtx::replace();
    }
    let n = range(2, 3) as usize;
    let mut parties: Vec<Party> = (0..n).map(|i| Party::new(i, Network::Regtest)).collect();
    for p in parties.iter_mut() {
        p.labels.push(0);
        if chance(1, 2) {
            p.labels.push(*pick_from(&LABELS[1..]));
        }
    }
    let sender = pick(n as u32) as usize;
    // ---- inputs
    let mut coins: Vec<Coin> = vec![];
    for _ in 0..range(1, 4) {
        let op = fresh_outpoint(&coins);
        if chance(1, 4) {
            let tweak = fresh_sk();
            let sk = parties[sender].spend_sk.add_tweak(&tweak.into()).expect("tweak");
            let mut c = Coin::new(Kind::Sp, sk, op, Amount::from_sat(5000));
            c.sp = Some((sender, tweak));
            coins.push(c);
        } else {
            coins.push(Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), op, Amount::from_sat(20_000)));
        }
    }
    if chance(1, 4) {
        let op = fresh_outpoint(&coins);
        probe("ineligible input in the transaction");
        coins.push(Coin::new(*pick_from(&INELIGIBLE), fresh_sk(), op, Amount::from_sat(7000)));
        shuffle(&mut coins);
    }
    let prev_txs = realise(&mut coins);
    // ---- recipients and outputs
    let mut recipients: Vec<(usize, Option<u32>)> = vec![];
    for _ in 0..range(1, 4) {
        let w = pick(n as u32) as usize;
        let l = if chance(1, 2) { Some(*pick_from(&parties[w].labels)) } else { None };
        recipients.push((w, l));
        if chance(1, 5) {
            recipients.push((w, l));
        }
    }
    let mut s = BTreeSet::new();
    if recipients.iter().any(|r| !s.insert(r.0)) {
        probe("several outputs to one scan key");
    }
    let mut outs: Vec<Option<(usize, Option<u32>)>> = recipients.iter().map(|r| Some(*r)).collect();
    for _ in 0..pick(3) {
        outs.push(None);
    }
    shuffle(&mut outs);
    let mut txouts = vec![];
    for (i, o) in outs.iter().enumerate() {
        let script_pubkey = match o {
            Some((w, l)) => parties[*w].ref_code(*l).get_placeholder_p2tr_spk(),
            None => unrelated_spk(),
        };
        txouts.push(TxOut { value: Amount::from_sat(1000 + i as u64), script_pubkey });
    }
    let mut dev = Device::default();
    let spend = |i: usize| (parties[i].spend_sk, parties[i].spend_pk());
    let (full, keys) = make_psbt(&coins, txouts, &prev_txs, &spend, &mut dev, true);
    let case = Case { parties: parties.clone(), sender, coins, outs };
    let payable = sum_ok(&case.coins);
    let codes_of = |rs: &[(usize, Option<u32>)]| -> Vec<SilentPaymentCode> {
        rs.iter().map(|(w, l)| parties[*w].ref_code(*l)).collect()
    };

    let mut stored = full.clone();
    let mut failed_before = false;
    let attempts = range(1, 3);
    for attempt in 0..=attempts {
        step();
        // The last attempt runs with every fault gone.
        let healed = attempt == attempts;
        dev.faults.borrow_mut().clear();
        let mut faults: Vec<&'static str> = vec![];
        let mut must_fail = false;
        let mut may_fail = false;
        let mut psbt = full.clone();
        if !healed {
            for (i, k) in keys.iter().enumerate() {
                let contributes = case.coins[i].eligible();
                if chance(1, 4) {
                    let f = *pick_from(&[KeyFault::Absent, KeyFault::Error, KeyFault::WrongKey]);
                    for t in &k.targets {
                        dev.faults.borrow_mut().insert(*t, f);
                    }
                    if !k.targets.is_empty() && contributes {
                        must_fail = true;
                    }
                    faults.push(match f {
                        KeyFault::Absent => "absent",
                        KeyFault::Error => "error",
                        _ => "wrong",
                    });
                }
                if chance(1, 12) {
                    fault("psbt: input not signed yet");
                    probe("psbt not completely signed yet");
                    psbt.inputs[i].final_script_sig = None;
                    psbt.inputs[i].final_script_witness = None;
                    may_fail = true;
                    faults.push("unsigned");
                }
                if chance(1, 16) {
                    fault("psbt: previous output missing");
                    probe("psbt input without its previous output");
                    psbt.inputs[i].witness_utxo = None;
                    psbt.inputs[i].non_witness_utxo = None;
                    must_fail = true;
                    faults.push("noprev");
                }
                if case.coins[i].kind == Kind::Sp && chance(1, 10) {
                    fault("psbt: spend data missing");
                    psbt.inputs[i].proprietary.clear();
                    must_fail = true;
                    faults.push("nospdata");
                }
            }
        }
        // ---- recipient list
        let mut list = recipients.clone();
        let mut defect = "none";
        let mut partial = false;
        match if healed { weighted(&[6, 4, 0, 0]) } else { weighted(&[6, 4, 1, 1]) } {
            1 => {
                // e.g. a change address is always passed along, whether or not change is needed
                probe("recipient without an output in the psbt");
                let w = if chance(1, 2) { case.sender } else { pick(n as u32) as usize };
                let l = Some(0).filter(|_| chance(2, 3));
                if !recipients.contains(&(w, l)) {
                    let at = pick(list.len() as u32 + 1) as usize;
                    list.insert(at, (w, l));
                    defect = "extra";
                }
            }
            2 => {
                // one mention too many for an address that has an output
                let r = *pick_from(&recipients);
                list.push(r);
                must_fail = true;
                fault("recipient listed too often");
                defect = "too many";
            }
            3 => {
                let at = pick(list.len() as u32) as usize;
                let r = list.remove(at);
                fault("recipient forgotten");
                if list.contains(&r) {
                    must_fail = true;
                } else {
                    partial = true;
                }
                defect = "forgotten";
            }
            _ => {}
        }
        let codes = codes_of(&list);
        let before = psbt.clone();
        let res = guarded("derive_sp", || derive_sp(&mut psbt, &dev, &codes, secp()))?;
        let outcome = match &res {
            Ok(()) => "ok".to_string(),
            Err(e) => format!("{e:?}").split(['(', ' ']).next().unwrap_or_default().to_string(),
        };
        note!("attempt {attempt}: device/psbt faults {faults:?}, list {list:?} ({defect}) -> {outcome}");
        let mut kinds: Vec<Kind> = case.coins.iter().map(|c| c.kind).collect();
        kinds.sort();
        faults.sort();
        state(&(kinds, faults, defect, outcome));
        match res {
            Err(e) => {
                ensure!(
                    psbt == before,
                    "failed-but-changed",
                    "derive_sp failed with '{e}' but changed the PSBT"
                );
                ensure!(
                    must_fail || may_fail || !payable,
                    "refused",
                    "derive_sp refused a complete PSBT: {e}"
                );
                probe("attempt failed and left the psbt unchanged");
                failed_before = true;
                if healed && !payable {
                    return Ok(());
                }
            }
            Ok(()) => {
                if partial && list.is_empty() {
                    ensure!(psbt == before, "unasked-change", "no recipients but the PSBT changed");
                } else {
                    check_derived(&case, &before, &psbt, &list)?;
                }
                if failed_before {
                    probe("attempt succeeded after a failed one");
                }
                // Same PSBT, same answer: another process deriving again must agree.
                let mut again = before.clone();
                let r = guarded("derive_sp again", || derive_sp(&mut again, &dev, &codes, secp()))?;
                ensure!(r.is_ok() && again == psbt, "not-deterministic", "deriving twice gives different outputs");
                // Retrying after success (the caller does not know it succeeded) changes nothing.
                if !partial && chance(1, 2) {
                    probe("repeated after success");
                    let mut re = psbt.clone();
                    let r = guarded("derive_sp repeated", || derive_sp(&mut re, &dev, &codes, secp()))?;
                    ensure!(re == psbt, "retry-changed", "repeating a finished derivation changed the PSBT ({r:?})");
                }
                if healed {
                    stored = psbt.clone();
                }
            }
        }
        // Crash: only the serialised PSBT survives.
        if chance(1, 3) {
            probe("psbt saved and reloaded between attempts");
            fault("process restart between attempts");
            let bytes = psbt.serialize();
            let back = match Psbt::deserialize(&bytes) {
                Ok(p) => p,
                Err(e) => fail!("psbt-unreadable", "the PSBT no longer parses: {e}"),
            };
            ensure!(back == psbt, "psbt-unreadable", "the PSBT changed by saving it");
        }
    }
    let _ = stored;
    Ok(())
}

fn sum_ok(coins: &[Coin]) -> bool {
    coins.iter().any(|c| c.eligible())
}

/// Every listed recipient with a placeholder finds exactly its outputs; nothing else changed.
fn check_derived(case: &Case, before: &Psbt, after: &Psbt, list: &[(usize, Option<u32>)]) -> Res {
    ensure!(before.inputs == after.inputs, "inputs-changed", "inputs of the PSBT changed");
    ensure!(before.outputs == after.outputs, "outputs-meta-changed", "output metadata of the PSBT changed");
    let mut a = after.unsigned_tx.clone();
    for (o, b) in a.output.iter_mut().zip(&before.unsigned_tx.output) {
        o.script_pubkey = b.script_pubkey.clone();
    }
    ensure!(a == before.unsigned_tx, "tx-changed", "more than output scripts changed");
    let tx = spend_tx(case, before, after);
    let prev: Vec<TxOut> = prevouts(&case.coins);
    let Some(tweak) = refmodel::tweak_data(secp(), &tx, &prev) else {
        fail!("derived-without-inputs", "derive_sp succeeded without a usable input");
    };
    for (i, p) in case.parties.iter().enumerate() {
        let found: BTreeMap<u32, Option<u32>> = p.ref_scan(&tx, &tweak).iter().map(|f| (f.vout, f.label)).collect();
        let want: BTreeMap<u32, Option<u32>> = case
            .outs
            .iter()
            .enumerate()
            .filter_map(|(v, o)| o.map(|o| (v as u32, o)))
            .filter(|(_, (w, l))| *w == i && list.contains(&(*w, *l)))
            .map(|(v, (_, l))| (v, l))
            .collect();
        ensure!(
            found == want,
            "recipient-unpaid",
            "derive_sp succeeded; party {i} should find {want:?} but finds {found:?}"
        );
    }
    for (v, o) in case.outs.iter().enumerate() {
        let touched = o.is_some_and(|r| list.contains(&r));
        ensure!(
            touched || before.unsigned_tx.output[v] == after.unsigned_tx.output[v],
            "other-output-changed",
            "output {v} does not belong to a recipient but changed"
        );
    }
    Ok(())
}

/// The transaction that gets broadcast: inputs that were not finalised yet get signed later in
/// the way their coin requires.
fn spend_tx(case: &Case, before: &Psbt, after: &Psbt) -> Transaction {
    let mut tx = after.unsigned_tx.clone();
    for (i, inp) in before.inputs.iter().enumerate() {
        tx.input[i].script_sig = inp.final_script_sig.clone().unwrap_or_default();
        tx.input[i].witness = inp.final_script_witness.clone().unwrap_or_default();
        if inp.final_script_sig.is_none() && inp.final_script_witness.is_none() {
            let (s, w) = case.coins[i].satisfy(None);
            tx.input[i].script_sig = s;
            tx.input[i].witness = w;
        }
    }
    tx
}
