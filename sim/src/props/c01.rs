//! C01: every payment built with any sending interface is found by its recipients, exactly, by
//! every scanning interface, over a whole multi-round history between several wallets.
use super::Property;
use crate::{core::*, ensure, fail, keys::*, note, refmodel, world::*};
use bdk_chain::{Anchor, BlockId, ConfirmationBlockTime, TxGraph};
use bdk_sp::{
    encoding::SilentPaymentCode,
    receive::{compute_tweak_data, scan::Scanner, SpOut},
    send::{
        bip32::XprivSilentPaymentSender, bip352::SpSender, create_silentpayment_partial_secret,
        create_silentpayment_scriptpubkeys, error::SpSendError, psbt::derive_sp,
    },
    LexMin,
};
use bitcoin::{
    bip32::{DerivationPath, Xpriv},
    hashes::Hash,
    key::TapTweak,
    secp256k1::{PublicKey, SecretKey},
    Amount, BlockHash, Network, OutPoint, ScriptBuf, Transaction, TxOut, XOnlyPublicKey,
};
use indexer::{v2::SpIndexerV2, PrevoutSource, SpIndexer, SpIndexes};
use std::{cell::RefCell, collections::{BTreeMap, BTreeSet, HashMap}, rc::Rc, str::FromStr};

pub const PROPERTY: Property = Property {
    id: "C01",
    run,
    quick: 3_500,
    thorough: 220_000,
    probes: &[],
    state_rule: "distinct (sending interface, multiset of input kinds, recipients per scan key with labels, scanning interface, delivery order) combinations executed",
    must_reach: &[
        "script tree with several leaves",
        "sent with partial-secret functions",
        "sent with psbt",
        "sent with extended private key",
        "sent with received coins",
        "inputs share a transaction",
        "several outputs to one scan key",
        "labelled recipient",
        "self transfer",
        "malleated p2pkh: decoy key before",
        "input with annex",
        "payment spends a received coin",
        "hundreds of inputs",
        "hundreds of outputs to one recipient",
    ],
    real: &[
        "bdk_sp: address codec, all four sending interfaces, PSBT derivation, tweak computation, scanner",
        "indexer v1 (SpIndexer) and v2 (SpIndexerV2) in memory",
    ],
    stub: &[
        "signatures in final witnesses are dummies (never read by the code under test)",
        "prevout source: in-memory map behind the PrevoutSource trait",
        "signing device: simulated GetKey",
    ],
    assumptions: &["secp256k1 and hashing behave as specified", "inputs are consensus-shaped spends"],
};

#[derive(Clone, Default)]
pub struct MapSource(pub Rc<RefCell<BTreeMap<OutPoint, TxOut>>>);
impl PrevoutSource for MapSource {
    fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        let m = self.0.borrow();
        tx.input
            .iter()
            .map(|i| m.get(&i.previous_output).cloned().expect("harness: unknown prevout"))
            .collect()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Owned {
    label: Option<u32>,
    sat: u64,
    spk: ScriptBuf,
    tweak: [u8; 32],
}

struct Receiver {
    v1: SpIndexer<MapSource, ConfirmationBlockTime>,
    v2: SpIndexerV2<ConfirmationBlockTime>,
    scanned: BTreeMap<OutPoint, SpOut>,
    model: BTreeMap<OutPoint, Owned>,
}

struct Delivery {
    tx: Transaction,
    prevouts: Vec<TxOut>,
    /// (party, vout) -> (label, sat)
    truth: Vec<BTreeMap<u32, (Option<u32>, u64)>>,
}

fn run() -> Res {
    let nparties = range(2, 4) as usize;
    let source = MapSource::default();
    let mut parties: Vec<Party> = (0..nparties).map(|i| Party::new(i, Network::Regtest)).collect();
    // Two wallets may share a scan key server-side but not a spend key.
    if chance(1, 12) {
        probe("two wallets share a scan key");
        parties[1].scan_sk = parties[0].scan_sk;
    }
    for p in parties.iter_mut() {
        for _ in 0..pick(4) {
            let m = *pick_from(&LABELS);
            if !p.labels.contains(&m) {
                p.labels.push(m);
            }
        }
    }
    let mut rx: Vec<Receiver> = vec![];
    for p in &parties {
        rx.push(new_receiver(p, &source)?);
    }
    let xpriv = Xpriv::new_master(Network::Regtest, &fresh32()).expect("seed");
    let mut height = 1u32;
    let rounds = range(1, 4);
    for round in 0..rounds {
        step();
        let mut pending = vec![];
        for _ in 0..range(1, 2) {
            if let Some(d) = send(&parties, &rx, &xpriv, &source)? {
                pending.push(d);
            }
        }
        // Delivery: any order, possibly duplicated (rescan), to every party by any interface.
        shuffle(&mut pending);
        if !pending.is_empty() && chance(1, 5) {
            fault("transaction delivered twice");
            pending.push(clone_delivery(&pending[0]));
        }
        for d in &pending {
            height += 1;
            deliver(&parties, &mut rx, d, height)?;
        }
        note!("round {round} done");
        for (p, r) in parties.iter().zip(&rx) {
            check_state(p, r)?;
        }
    }
    Ok(())
}

fn clone_delivery(d: &Delivery) -> Delivery {
    Delivery {
        tx: d.tx.clone(),
        prevouts: d.prevouts.clone(),
        truth: d.truth.clone(),
    }
}

fn new_receiver(p: &Party, source: &MapSource) -> Res<Receiver> {
    let mut indexes = SpIndexes::default();
    let base = p.ref_code(None);
    for m in &p.labels {
        let code = guarded("add_label", || indexes.add_label(base.clone(), p.scan_sk, *m))?;
        match code {
            Ok(c) => ensure!(
                c == p.ref_code(Some(*m)),
                "labelled-address",
                "label {m}: address does not match the specification"
            ),
            Err(e) => fail!("labelled-address", "add_label({m}) failed: {e}"),
        }
    }
    let scanner = Scanner::new(p.scan_sk, p.spend_pk(), indexes.label_to_tweak.clone());
    let v1 = SpIndexer::new(source.clone(), scanner, indexes, TxGraph::default());
    let mut v2 = SpIndexerV2::new(p.scan_sk, p.spend_pk());
    for m in &p.labels {
        if chance(1, 2) {
            let _ = guarded("add_label", || v2.add_label(*m))?;
        }
        let code = guarded("get_labeled_address", || v2.get_labeled_address(*m, p.network))?;
        ensure!(
            code == p.ref_code(Some(*m)),
            "labelled-address",
            "label {m}: address of the second indexer does not match the specification"
        );
    }
    Ok(Receiver {
        v1,
        v2,
        scanned: BTreeMap::new(),
        model: BTreeMap::new(),
    })
}

/// The address travels as text.
fn as_text(code: &SilentPaymentCode) -> Res<SilentPaymentCode> {
    let text = code.to_string();
    match guarded("parse address", || SilentPaymentCode::try_from(text.as_str()))? {
        Ok(c) => {
            ensure!(
                c.scan == code.scan && c.spend == code.spend && c.network == code.network,
                "address-text",
                "{text} decodes to another address"
            );
            Ok(c)
        }
        Err(e) => fail!("address-text", "{text} does not decode: {e}"),
    }
}

fn send(
    parties: &[Party],
    rx: &[Receiver],
    xpriv: &Xpriv,
    source: &MapSource,
) -> Res<Option<Delivery>> {
    let sender = pick(parties.len() as u32) as usize;
    let owned: Vec<(OutPoint, SpOut)> = rx[sender].scanned.iter().map(|(o, s)| (*o, s.clone())).collect();
    let api = loop {
        let a = pick(4);
        if a == 3 && owned.is_empty() {
            break 0;
        }
        break a;
    };
    // ---- inputs
    let mut coins: Vec<Coin> = vec![];
    let mut paths: Vec<DerivationPath> = vec![];
    let mut spouts: Vec<SpOut> = vec![];
    if api == 3 {
        let mut left = owned.clone();
        for _ in 0..range(1, 3) {
            if left.is_empty() {
                break;
            }
            let i = pick(left.len() as u32) as usize;
            let (op, s) = left.remove(i);
            coins.push(sp_coin(sender, &parties[sender], op, &s));
            spouts.push(s);
        }
    } else {
        let n = if chance(1, 300) {
            probe("hundreds of inputs");
            range(254, 260)
        } else {
            range(1, 4)
        };
        for _ in 0..n {
            let op = fresh_outpoint(&coins);
            let value = Amount::from_sat(10_000 + u64::from(pick(1000)));
            if api == 2 {
                let path = DerivationPath::from_str(&format!("m/86'/1'/0'/{}/{}", pick(2), pick(50))).expect("path");
                let sk = xpriv.derive_priv(secp(), &path).expect("derive").private_key;
                let kind = *pick_from(&[Kind::TrKey, Kind::Wpkh, Kind::Pkh, Kind::ShWpkh]);
                coins.push(Coin::new(kind, sk, op, value));
                paths.push(path);
            } else {
                let kind = *pick_from(&ELIGIBLE);
                coins.push(Coin::new(kind, fresh_sk(), op, value));
            }
        }
        if api != 2 {
            // Coins received earlier, and inputs that must not count.
            for (op, s) in &owned {
                if chance(1, 3) && coins.len() < 6 {
                    coins.push(sp_coin(sender, &parties[sender], *op, s));
                }
            }
            if chance(1, 3) {
                let kind = *pick_from(&INELIGIBLE);
                probe("ineligible input in the transaction");
                let op = fresh_outpoint(&coins);
                coins.push(Coin::new(kind, fresh_sk(), op, Amount::from_sat(7000)));
            }
            if chance(1, 10) {
                // The key of one input cancels that of another.
                if let Some(c) = coins.iter().find(|c| matches!(c.kind, Kind::Wpkh | Kind::Pkh)).cloned() {
                    fault("input keys cancel out");
                    let op = fresh_outpoint(&coins);
                    coins.push(Coin::new(Kind::Wpkh, c.key.negate(), op, Amount::from_sat(9000)));
                }
            }
            let perm = permutation(coins.len());
            coins = perm.iter().map(|i| coins[*i].clone()).collect();
        }
    }
    let prev_txs = if api == 1 { realise(&mut coins) } else { BTreeMap::new() };
    if coins.iter().any(|c| c.kind == Kind::Sp) {
        probe("payment spends a received coin");
    }
    // ---- recipients
    let mut recipients: Vec<(usize, Option<u32>)> = vec![];
    for _ in 0..range(1, 4) {
        let who = pick(parties.len() as u32) as usize;
        let label = if parties[who].labels.is_empty() || chance(1, 2) {
            None
        } else {
            probe("labelled recipient");
            Some(*pick_from(&parties[who].labels))
        };
        if who == sender {
            probe("self transfer");
        }
        recipients.push((who, label));
        if chance(1, 5) {
            recipients.push((who, label));
        }
    }
    if chance(1, 40) {
        probe("many outputs to one recipient");
        let n = if chance(1, 25) {
            probe("hundreds of outputs to one recipient");
            range(254, 260)
        } else {
            range(5, 20)
        };
        for _ in 0..n {
            recipients.push(recipients[0]);
        }
    }
    let shared_scan = {
        let mut s = BTreeSet::new();
        recipients.iter().any(|(w, _)| !s.insert(parties[*w].scan_pk()))
    };
    if shared_scan {
        probe("several outputs to one scan key");
    }
    let mut codes = vec![];
    for (w, l) in &recipients {
        codes.push(as_text(&parties[*w].ref_code(*l))?);
    }
    let sats: Vec<u64> = (0..recipients.len()).map(|i| 1000 + i as u64).collect();
    // ---- send
    let api_name = ["partial-secret functions", "psbt", "extended private key", "received coins"][api as usize];
    probe(&format!("sent with {api_name}"));
    note!(
        "party {sender} pays {recipients:?} with {api_name} from {:?}",
        coins.iter().map(|c| c.kind).collect::<Vec<_>>()
    );
    let mut kinds: Vec<Kind> = coins.iter().map(|c| c.kind).collect();
    kinds.sort();
    state(&(api, kinds, recipients.iter().map(|(w, l)| (*w, *l)).collect::<Vec<_>>()));
    let ref_keys: Vec<(PublicKey, PublicKey)> = recipients.iter().map(|(w, l)| parties[*w].ref_keys(*l)).collect();
    let possible = sums_are_nonzero(&coins);

    let mut outputs: Vec<(TxOut, Option<usize>)> = vec![];
    let fillers = pick(3);
    let (tx, outs): (Transaction, Vec<Option<usize>>) = if api == 1 {
        // Placeholder outputs, in any order, among unrelated ones.
        for (i, c) in codes.iter().enumerate() {
            outputs.push((
                TxOut {
                    value: Amount::from_sat(sats[i]),
                    script_pubkey: guarded("placeholder", || c.get_placeholder_p2tr_spk())?,
                },
                Some(i),
            ));
        }
        for _ in 0..fillers {
            outputs.push((TxOut { value: Amount::from_sat(330), script_pubkey: unrelated_spk() }, None));
        }
        shuffle(&mut outputs);
        let mut dev = Device::default();
        let spend = |i: usize| (parties[i].spend_sk, parties[i].spend_pk());
        let (mut psbt, _) = make_psbt(
            &coins,
            outputs.iter().map(|o| o.0.clone()).collect(),
            &prev_txs,
            &spend,
            &mut dev,
            true,
        );
        let before = psbt.clone();
        match guarded("derive_sp", || derive_sp(&mut psbt, &dev, &codes, secp()))? {
            Ok(()) => {}
            Err(e) => {
                ensure!(!possible, "send-refused", "derive_sp refused a payable transaction: {e}");
                probe("refused: input keys cancel out");
                return Ok(None);
            }
        }
        for (i, (o, who)) in outputs.iter().enumerate() {
            let got = &psbt.unsigned_tx.output[i];
            ensure!(got.value == o.value, "psbt-amount", "output {i} changed its amount");
            ensure!(
                who.is_some() || got == o,
                "psbt-unrelated-output",
                "output {i} is not a placeholder but was rewritten"
            );
        }
        ensure!(
            psbt.inputs == before.inputs,
            "psbt-inputs",
            "derive_sp changed PSBT inputs"
        );
        let mut tx = psbt.unsigned_tx.clone();
        for (i, inp) in psbt.inputs.iter().enumerate() {
            tx.input[i].script_sig = inp.final_script_sig.clone().unwrap_or_default();
            tx.input[i].witness = inp.final_script_witness.clone().unwrap_or_default();
        }
        // Within one address several amounts may be permuted among its own derived keys.
        (tx, outputs.iter().map(|o| o.1).collect())
    } else {
        let payments = match send_plain(api, parties, sender, &coins, &paths, &spouts, xpriv, &codes)? {
            Ok(p) => p,
            Err(e) => {
                ensure!(!possible, "send-refused", "{api_name} refused a payable transaction: {e}");
                probe("refused: input keys cancel out");
                return Ok(None);
            }
        };
        let n: usize = payments.values().map(|v| v.len()).sum();
        ensure!(
            n == codes.len(),
            "output-count",
            "{n} outputs derived for {} recipients",
            codes.len()
        );
        let mut used: BTreeMap<String, usize> = BTreeMap::new();
        for (i, c) in codes.iter().enumerate() {
            let k = used.entry(c.to_string()).or_default();
            let Some(x) = payments.get(c).and_then(|v| v.get(*k)) else {
                fail!("output-missing", "no derived output for recipient {i}");
            };
            *k += 1;
            outputs.push((
                TxOut { value: Amount::from_sat(sats[i]), script_pubkey: refmodel::p2tr_spk(x) },
                Some(i),
            ));
        }
        for _ in 0..fillers {
            outputs.push((TxOut { value: Amount::from_sat(330), script_pubkey: unrelated_spk() }, None));
        }
        shuffle(&mut outputs);
        (
            assemble(&coins, outputs.iter().map(|o| o.0.clone()).collect()),
            outputs.iter().map(|o| o.1).collect(),
        )
    };
    ensure!(possible, "unpayable", "outputs were derived although no shared secret exists");
    // ---- the specification's own outputs
    if let Some(expect) = ref_send(&coins, &ref_keys) {
        let mut want: Vec<ScriptBuf> = expect;
        let mut got: Vec<ScriptBuf> = outs
            .iter()
            .zip(&tx.output)
            .filter(|(o, _)| o.is_some())
            .map(|(_, t)| t.script_pubkey.clone())
            .collect();
        want.sort();
        got.sort();
        ensure!(want == got, "output-scripts", "derived outputs differ from the specification");
    }
    let prev = prevouts(&coins);
    for c in &coins {
        source.0.borrow_mut().insert(c.outpoint, c.txout.clone());
    }
    let mut truth = vec![BTreeMap::new(); parties.len()];
    for (vout, o) in outs.iter().enumerate() {
        if let Some(i) = o {
            let (w, l) = recipients[*i];
            truth[w].insert(vout as u32, (l, tx.output[vout].value.to_sat()));
        }
    }
    Ok(Some(Delivery { tx, prevouts: prev, truth }))
}

type Payments = HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>;

#[allow(clippy::too_many_arguments)]
fn send_plain(
    api: u32,
    parties: &[Party],
    sender: usize,
    coins: &[Coin],
    paths: &[DerivationPath],
    spouts: &[SpOut],
    xpriv: &Xpriv,
    codes: &[SilentPaymentCode],
) -> Res<Result<Payments, SpSendError>> {
    match api {
        2 => {
            let ins: Vec<_> = coins
                .iter()
                .zip(paths)
                .map(|(c, p)| (c.outpoint, (c.txout.script_pubkey.clone(), p.clone())))
                .collect();
            guarded("XprivSilentPaymentSender", || {
                XprivSilentPaymentSender::new(*xpriv).send_to(&ins, codes)
            })
        }
        3 => guarded("SpSender", || {
            SpSender::new(parties[sender].spend_sk).send_to(spouts, codes)
        }),
        _ => guarded("partial secret", || {
            let mut lex = LexMin::default();
            for c in coins {
                lex.update(&c.outpoint);
            }
            let spks: Vec<(ScriptBuf, SecretKey)> = coins
                .iter()
                .filter(|c| c.eligible() || matches!(c.kind, Kind::Wsh | Kind::Pk))
                .map(|c| (c.txout.script_pubkey.clone(), c.input_secret()))
                .collect();
            let partial = create_silentpayment_partial_secret(&lex.bytes()?, &spks)?;
            Ok(create_silentpayment_scriptpubkeys(partial, codes))
        }),
    }
}

/// No prefix sum of the eligible input keys is zero (the library adds them one by one).
fn sums_are_nonzero(coins: &[Coin]) -> bool {
    // Partial sums may be zero.
    let mut sum: Option<SecretKey> = None;
    for c in coins.iter().filter(|c| c.eligible()) {
        let mut k = c.input_secret();
        if c.txout.script_pubkey.is_p2tr() && k.x_only_public_key(secp()).1 == bitcoin::secp256k1::Parity::Odd {
            k = k.negate();
        }
        sum = match sum {
            None => Some(k),
            Some(s) => s.add_tweak(&bitcoin::secp256k1::Scalar::from(k)).ok(),
        };
    }
    sum.is_some()
}

pub fn sp_coin(party: usize, p: &Party, op: OutPoint, s: &SpOut) -> Coin {
    let sk = p
        .spend_sk
        .add_tweak(&bitcoin::secp256k1::Scalar::from(s.tweak))
        .expect("tweak");
    let mut c = Coin::new(Kind::Sp, sk, op, s.amount);
    c.txout.script_pubkey = s.script_pubkey.clone();
    c.sp = Some((party, s.tweak));
    c
}

fn deliver(parties: &[Party], rx: &mut [Receiver], d: &Delivery, height: u32) -> Res {
    let txid = d.tx.compute_txid();
    let spec_tweak = refmodel::tweak_data(secp(), &d.tx, &d.prevouts);
    let tweak = guarded("compute_tweak_data", || compute_tweak_data(&d.tx, &d.prevouts))?;
    let tweak = match (tweak, spec_tweak) {
        (Ok(t), Some(s)) => {
            ensure!(t == s, "tweak-data", "tweak data of {txid} differs from the specification");
            t
        }
        (t, s) => fail!("tweak-data", "payment without tweak data: {:?} / {:?}", t.is_ok(), s.is_some()),
    };
    let order = permutation(parties.len());
    for i in order {
        let p = &parties[i];
        let r = &mut rx[i];
        // Ground truth, by who was paid; cross-checked against the reference scanner.
        let spec = p.ref_scan(&d.tx, &tweak);
        let spec_map: BTreeMap<u32, (Option<u32>, u64)> = spec
            .iter()
            .map(|f| (f.vout, (f.label, d.tx.output[f.vout as usize].value.to_sat())))
            .collect();
        let truth = &d.truth[i];
        ensure!(
            &spec_map == truth || shares_scan(parties, i),
            "payment-lost",
            "party {i} was paid {truth:?} in {txid} but a conforming scanner finds {spec_map:?}"
        );
        for f in &spec {
            r.model.insert(
                OutPoint::new(txid, f.vout),
                Owned {
                    label: f.label,
                    sat: d.tx.output[f.vout as usize].value.to_sat(),
                    spk: d.tx.output[f.vout as usize].script_pubkey.clone(),
                    tweak: f.tweak,
                },
            );
        }
        let found = guarded("scan_tx", || r.v1.scanner.scan_tx(&d.tx, &d.prevouts))?;
        match found {
            Ok(found) => {
                let got: BTreeMap<u32, (Option<u32>, u64)> = found
                    .iter()
                    .map(|s| (s.outpoint.vout, (s.label, s.amount.to_sat())))
                    .collect();
                ensure!(
                    got == spec_map && got.len() == found.len(),
                    "scan-mismatch",
                    "party {i} was paid {spec_map:?} in {txid} but the scanner finds {got:?}"
                );
                for s in found {
                    r.scanned.insert(s.outpoint, s);
                }
            }
            Err(e) => fail!("scan-error", "scan_tx failed: {e}"),
        }
        match guarded("index_tx (v1)", || r.v1.index_tx(&d.tx))? {
            Ok(cs) => {
                let _ = cs;
            }
            Err(e) => fail!("scan-error", "index_tx failed: {e}"),
        }
        let mode = pick(5);
        state(&("deliver", mode, spec.len(), i));
        let anchor = |h: u32| ConfirmationBlockTime {
            block_id: BlockId { height: h, hash: BlockHash::from_byte_array(fresh32()) },
            confirmation_time: u64::from(h),
        };
        match mode {
            0 => {
                let _ = guarded("index_tx (v2)", || r.v2.index_tx(&d.tx, &tweak))?;
            }
            1 => {
                let a = anchor(height);
                ensure!(a.anchor_block().height == height, "harness", "anchor");
                let _ = guarded("batch_insert_relevant", || {
                    r.v2.batch_insert_relevant([(d.tx.clone(), tweak, vec![a])])
                })?;
            }
            2 => {
                let _ = guarded("batch_insert_relevant_unconfirmed", || {
                    r.v2.batch_insert_relevant_unconfirmed([(d.tx.clone(), tweak, u64::from(height))])
                })?;
            }
            m => {
                let b = make_block(BlockHash::from_byte_array(fresh32()), height, vec![d.tx.clone()]);
                let secrets: HashMap<_, _> = [(txid, tweak)].into_iter().collect();
                let _ = guarded("apply_block", || {
                    if m == 3 {
                        r.v2.apply_block_relevant(&b, secrets, height)
                    } else {
                        r.v2.apply_block(&b, secrets, height)
                    }
                })?;
            }
        }
        // Light clients only see scripts: the first output to every address must be derivable.
        let spks = guarded("derive_spks_for_tweak", || r.v2.derive_spks_for_tweak(&tweak))?;
        ensure!(
            spec.is_empty()
                || d.tx.output.iter().any(|o| spks.iter().any(|s| s[..] == o.script_pubkey.as_bytes()[..])),
            "light-client-script",
            "party {i}: no candidate script matches a transaction that pays it"
        );
        let spks1 = guarded("get_spks_from_tweak", || r.v1.scanner.get_spks_from_tweak(&tweak, 0))?;
        let (a, b): (BTreeSet<Vec<u8>>, BTreeSet<Vec<u8>>) = (
            spks.iter().map(|s| s.to_vec()).collect(),
            spks1.iter().map(|s| s.to_bytes()).collect(),
        );
        ensure!(a == b, "light-client-script", "the two candidate-script interfaces disagree");
        let mut want: BTreeSet<Vec<u8>> = [None]
            .into_iter()
            .chain(p.labels.iter().map(|m| Some(*m)))
            .map(|l| shared_spk_for(p, &tweak, 0, l).into_bytes())
            .collect();
        ensure!(a == want, "light-client-script", "candidate scripts differ from the specification");
        want.clear();
    }
    Ok(())
}

fn shares_scan(parties: &[Party], i: usize) -> bool {
    parties
        .iter()
        .enumerate()
        .any(|(j, p)| j != i && p.scan_sk == parties[i].scan_sk)
}

fn check_state(p: &Party, r: &Receiver) -> Res {
    let secp = secp();
    // First indexer
    let v1: BTreeMap<OutPoint, Owned> = r
        .v1
        .indexes
        .spouts
        .iter()
        .map(|(o, s)| {
            (*o, Owned { label: s.label, sat: s.amount.to_sat(), spk: s.script_pubkey.clone(), tweak: s.tweak.secret_bytes() })
        })
        .collect();
    ensure!(
        v1 == r.model,
        "index-v1",
        "party {}: first indexer holds {:?}, owned {:?}",
        p.name,
        brief(&v1),
        brief(&r.model)
    );
    for (o, s) in &r.v1.indexes.spouts {
        ensure!(*o == s.outpoint, "index-v1", "outpoint key and value differ");
        ensure!(
            r.v1.indexes.label_to_spout.iter().any(|(l, x)| *l == s.label && x.outpoint == *o),
            "index-v1",
            "output missing from the label index"
        );
        ensure!(
            r.v1.indexes.script_to_spout.get(&s.script_pubkey).is_some_and(|x| {
                r.model.get(&x.outpoint).is_some_and(|w| w.spk == s.script_pubkey)
            }),
            "index-v1",
            "output missing from the script index"
        );
        ensure!(
            r.v1.tx_graph.get_tx(o.txid).is_some(),
            "index-v1",
            "transaction of an owned output is not in the graph"
        );
    }
    ensure!(
        r.v1.indexes.label_to_spout.len() == r.model.len()
            && r.v1.indexes.script_to_spout.len()
                == r.model.values().map(|w| &w.spk).collect::<BTreeSet<_>>().len(),
        "index-v1",
        "an index holds entries that are not owned"
    );
    // Second indexer
    let ix = r.v2.index();
    let v2: BTreeMap<OutPoint, [u8; 32]> = ix.by_shared_secret.iter().map(|(o, s)| (*o, s.secret_bytes())).collect();
    let want: BTreeMap<OutPoint, [u8; 32]> = r.model.iter().map(|(o, w)| (*o, w.tweak)).collect();
    ensure!(
        v2 == want,
        "index-v2",
        "party {}: second indexer holds {:?}, owned {:?}",
        p.name,
        v2.keys().collect::<Vec<_>>(),
        want.keys().collect::<Vec<_>>()
    );
    let labels: BTreeSet<(Option<u32>, OutPoint)> = ix.by_label.iter().copied().collect();
    let want: BTreeSet<(Option<u32>, OutPoint)> = r.model.iter().map(|(o, w)| (w.label, *o)).collect();
    ensure!(labels == want, "index-v2", "labels {labels:?} differ from {want:?}");
    // Conflicting transactions with the same inputs pay the same script: either may be listed.
    let scripts: BTreeSet<ScriptBuf> = ix.by_script.keys().cloned().collect();
    let want: BTreeSet<ScriptBuf> = r.model.values().map(|w| w.spk.clone()).collect();
    ensure!(scripts == want, "index-v2", "script index differs");
    ensure!(
        ix.by_script.iter().all(|(s, o)| r.model.get(o).is_some_and(|w| w.spk == *s)),
        "index-v2",
        "the script index points at an output with another script"
    );
    // Every owned output opens with spend key + tweak.
    for (o, w) in &r.model {
        let tweak = SecretKey::from_slice(&w.tweak).expect("tweak");
        ensure!(
            refmodel::opened_spk(secp, &p.spend_sk, &tweak).as_ref() == Some(&w.spk),
            "unspendable",
            "the recorded tweak does not open {o}"
        );
    }
    Ok(())
}

fn brief(m: &BTreeMap<OutPoint, Owned>) -> Vec<(u32, Option<u32>, u64)> {
    m.iter().map(|(o, w)| (o.vout, w.label, w.sat)).collect()
}

#[allow(dead_code)]
fn tap(_: &dyn Fn() -> XOnlyPublicKey) -> Option<bitcoin::key::TweakedPublicKey> {
    None::<XOnlyPublicKey>.map(|x| x.tap_tweak(secp(), None).0)
}
