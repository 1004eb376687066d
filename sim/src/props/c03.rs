//! C03: every output a wallet reports as its own can be signed for by its owner, and by nobody
//! else. Several owners sign one transaction, one after the other or on copies combined later,
//! over channels and devices that fail and with metadata that gets damaged on the way.
use super::Property;
use crate::{core::*, ensure, fail, keys::*, note, world::*};
use bdk_sp::send::psbt::sign::{add_sp_data_to_input, sign_sp};
use bdk_sp_wallet::{signers, SpWallet};
use bitcoin::{
    bip32::Xpriv,
    psbt::raw::ProprietaryKey,
    secp256k1::{Message, Scalar},
    sighash::{Prevouts, SighashCache, TapSighashType},
    Amount, Network, OutPoint, PrivateKey, Psbt, Sequence, Transaction, TxIn, TxOut, Witness,
    XOnlyPublicKey,
};
use indexer::{
    bdk_chain::{BlockId, ConfirmationBlockTime},
    v2::SpIndexerV2,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const PROPERTY: Property = Property {
    id: "C03",
    run,
    quick: 8_000,
    thorough: 120_000,
    probes: &[],
    state_rule: "distinct (owners of the inputs, faults applied, order and style of signing, outcome) combinations executed",
    must_reach: &[
        "owners of several inputs sign one transaction",
        "labelled output spent",
        "copies signed in parallel and combined",
        "signing repeated",
        "previous output known from the whole transaction",
        "ordinary input among silent payment inputs",
        "owner restored from saved changes",
        "several outputs of one transaction spent",
        "payment with change",
        "payment without change",
        "payment from several coins",
        "payment to an address of its own",
        "funds do not suffice",
        "script derived for a transaction",
        "signed along with somebody else",
        "sighash type single without an output",
        "several wallets on one device",
    ],
    real: &[
        "bdk_sp: spend metadata and signing extension",
        "indexer v2: found outputs, their tweaks, restoring from changes",
        "bdk_sp_wallet: key map, spend key derivation",
        "libsecp256k1 signatures, bitcoin PSBT combine and serialisation",
        "cli/v1 and cli/v2: the whole programs with new-psbt, sign-psbt, new-tx, derive-sp-for-tx and their scans",
    ],
    stub: &["signing device: simulated GetKey with injected failures", "channel between the signers", "bdk_tx (not available offline)", "node, tweak server, clock, disk for the programs (simulated)"],
    assumptions: &["secp256k1 and hashing behave as specified"],
};

struct Owner {
    party: Party,
    indexer: SpIndexerV2<ConfirmationBlockTime>,
    device: Device,
    signs_with_map: bool,
    /// The owners whose keys its device has, itself included.
    holds: BTreeSet<usize>,
}

fn new_owner(i: usize, network: Network) -> Res<Owner> {
    let mut party = Party::new(i, network);
    if chance(1, 3) {
        // Keys of a wallet created from a descriptor; the signer derives its key on its own.
        probe("owner is a descriptor wallet");
        let m = match Xpriv::new_master(network, &fresh32()) {
            Ok(m) => m,
            Err(_) => return Ok(plain(party)),
        };
        let desc = format!("tr([{}]{m})", m.fingerprint(secp()));
        let genesis = bitcoin::constants::genesis_block(network).block_hash();
        let birthday = BlockId { height: 0, hash: genesis };
        let w = guarded("SpWallet::new", || SpWallet::new(birthday, genesis, &desc, network))?;
        let Ok(w) = w else { fail!("wallet-new", "a wallet cannot be created from its own descriptor") };
        party.scan_sk = *w.indexer().scan_sk();
        party.spend_sk = guarded("get_spend_sk", || signers::get_spend_sk(&desc, network))?;
        ensure!(
            party.spend_pk() == *w.indexer().spend_pk(),
            "spend-key",
            "the signer's spend key is not the wallet's"
        );
    }
    Ok(plain(party))
}

fn plain(mut party: Party) -> Owner {
    let mut indexer = SpIndexerV2::new(party.scan_sk, party.spend_pk());
    party.labels.push(0);
    if chance(1, 2) {
        party.labels.push(*pick_from(&LABELS[1..]));
    }
    for l in &party.labels {
        let _ = indexer.add_label(*l);
    }
    let mut device = Device::default();
    device.add(party.spend_sk, None);
    Owner { party, indexer, device, signs_with_map: chance(1, 2), holds: BTreeSet::new() }
}

fn run() -> Res {
    if chance(1, 10) {
        return super::newtx::run();
    }
    let network = *pick_from(&[Network::Regtest, Network::Regtest, Network::Bitcoin, Network::Signet]);
    let n = range(1, 3) as usize;
    let mut owners = vec![];
    for i in 0..n {
        owners.push(new_owner(i, network)?);
    }
    // One person can have several of the wallets on one device.
    let together = n > 1 && chance(1, 5);
    for i in 0..n {
        owners[i].holds = if together { (0..n).collect() } else { [i].into() };
        if together {
            probe("several wallets on one device");
            for j in 0..n {
                let sk = owners[j].party.spend_sk;
                owners[i].device.add(sk, None);
            }
            owners[i].signs_with_map = false;
        }
    }
    // ---- payments to the owners
    let mut funding: Vec<Transaction> = vec![];
    let mut label_of: BTreeMap<OutPoint, Option<u32>> = BTreeMap::new();
    let mut paid: Vec<(OutPoint, usize, TxOut)> = vec![];
    for _ in 0..range(1, 3) {
        let ins: Vec<Coin> = (0..range(1, 2)).fold(vec![], |mut v, _| {
            let op = fresh_outpoint(&v);
            v.push(Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), op, Amount::from_sat(90_000)));
            v
        });
        let to: Vec<(usize, Option<u32>)> = (0..range(1, 3))
            .map(|_| {
                let w = pick(n as u32) as usize;
                let l = if chance(1, 2) { Some(*pick_from(&owners[w].party.labels)) } else { None };
                (w, l)
            })
            .collect();
        let keys: Vec<_> = to.iter().map(|(w, l)| owners[*w].party.ref_keys(*l)).collect();
        let Some(spks) = ref_send(&ins, &keys) else { continue };
        let outs: Vec<TxOut> = spks
            .into_iter()
            .map(|s| TxOut { value: Amount::from_sat(1_000 + u64::from(pick(50_000))), script_pubkey: s })
            .collect();
        let tx = assemble(&ins, outs);
        let Some(tweak) = crate::refmodel::tweak_data(secp(), &tx, &prevouts(&ins)) else { continue };
        let id = tx.compute_txid();
        for (v, (w, l)) in to.iter().enumerate() {
            let op = OutPoint::new(id, v as u32);
            label_of.insert(op, *l);
            paid.push((op, *w, tx.output[v].clone()));
        }
        for o in owners.iter_mut() {
            let _ = guarded("batch_insert_relevant_unconfirmed", || {
                o.indexer.batch_insert_relevant_unconfirmed([(tx.clone(), tweak, 1u64)])
            })?;
        }
        funding.push(tx);
    }
    if paid.is_empty() {
        return Ok(());
    }
    for o in owners.iter_mut() {
        if chance(1, 4) {
            probe("owner restored from saved changes");
            fault("process restart");
            let cs = o.indexer.initial_changeset();
            let r = guarded("SpIndexerV2::try_from", || SpIndexerV2::try_from(cs))?;
            let Ok(i) = r else { fail!("restore", "an index cannot be restored from its own changes") };
            o.indexer = i;
        }
    }
    // ---- who owns what, as the wallets report it
    let mut coins: Vec<Coin> = vec![];
    for (op, w, txout) in &paid {
        let Some(tweak) = owners[*w].indexer.index().by_shared_secret.get(op) else {
            fail!("unreported", "output {op} of owner {w} is not reported");
        };
        let sk = match owners[*w].party.spend_sk.add_tweak(&Scalar::from(*tweak)) {
            Ok(s) => s,
            Err(_) => fail!("unspendable", "the tweak reported for {op} gives no key"),
        };
        let mut c = Coin::new(Kind::Sp, sk, *op, txout.value);
        c.txout = txout.clone();
        c.sp = Some((*w, *tweak));
        coins.push(c);
    }
    for (i, o) in owners.iter().enumerate() {
        check_keymap(i, o, &paid)?;
    }
    // ---- the transaction to sign
    let mut ins: Vec<Coin> = coins.into_iter().filter(|_| chance(3, 4)).collect();
    if ins.is_empty() {
        return Ok(());
    }
    for _ in 0..weighted(&[3, 1, 1]) {
        probe("ordinary input among silent payment inputs");
        let op = fresh_outpoint(&ins);
        ins.push(Coin::new(
            *pick_from(&[Kind::Wpkh, Kind::TrKey, Kind::Pkh, Kind::TrScript, Kind::Wsh]),
            fresh_sk(),
            op,
            Amount::from_sat(10_000),
        ));
    }
    shuffle(&mut ins);
    let who: BTreeSet<usize> = ins.iter().filter_map(|c| c.sp.map(|s| s.0)).collect();
    if who.len() > 1 {
        probe("owners of several inputs sign one transaction");
    }
    if ins.iter().any(|c| c.sp.is_some() && label_of[&c.outpoint].is_some()) {
        probe("labelled output spent");
    }
    let mut ids = BTreeSet::new();
    if ins.iter().any(|c| c.sp.is_some() && !ids.insert(c.outpoint.txid)) {
        probe("several outputs of one transaction spent");
    }
    let tx = Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: bitcoin::absolute::LockTime::from_consensus(pick(2) * 500),
        input: ins
            .iter()
            .map(|c| TxIn {
                previous_output: c.outpoint,
                script_sig: Default::default(),
                sequence: *pick_from(&[Sequence::ENABLE_RBF_NO_LOCKTIME, Sequence::MAX, Sequence::ZERO]),
                witness: Witness::new(),
            })
            .collect(),
        output: (0..range(1, 3))
            .map(|_| TxOut { value: Amount::from_sat(700), script_pubkey: unrelated_spk() })
            .collect(),
    };
    let funding_of: BTreeMap<_, _> = funding.iter().map(|t| (t.compute_txid(), t.clone())).collect();
    let fill = |p: &mut Psbt, i: usize, whole: bool| match funding_of.get(&ins[i].outpoint.txid) {
        Some(t) if whole => {
            probe("previous output known from the whole transaction");
            p.inputs[i].non_witness_utxo = Some(t.clone());
        }
        _ => p.inputs[i].witness_utxo = Some(ins[i].txout.clone()),
    };
    let Ok(mut psbt) = Psbt::from_unsigned_tx(tx) else { return Ok(()) };
    for i in 0..ins.len() {
        let whole = chance(1, 3);
        fill(&mut psbt, i, whole);
        if whole && chance(1, 2) {
            psbt.inputs[i].witness_utxo = Some(ins[i].txout.clone());
        }
    }

    // ---- rounds of signing with faults, then one without
    let rounds = range(0, 2);
    let mut styles = vec![];
    for round in 0..=rounds {
        step();
        let healed = round == rounds;
        if healed {
            // The coordinator repairs what it can see; owners provide their own data again.
            for i in 0..ins.len() {
                if psbt.inputs[i].witness_utxo.is_none() && psbt.inputs[i].non_witness_utxo.is_none() {
                    fill(&mut psbt, i, false);
                }
            }
        }
        let mut order: Vec<usize> = who.iter().copied().collect();
        if chance(1, 3) {
            order.push(*pick_from(&order.clone()));
        }
        shuffle(&mut order);
        if chance(1, 3) {
            probe("copies signed in parallel and combined");
            styles.push(format!("parallel{order:?}"));
            let base = psbt.clone();
            let mut copies = vec![];
            for w in order {
                let mut copy = base.clone();
                visit(&owners[w], w, &ins, &mut copy, healed)?;
                copies.push(transfer(copy)?);
            }
            if chance(1, 4) {
                fault("duplicate delivery of a signed copy");
                copies.push(copies[0].clone());
            }
            if !healed && copies.len() > 1 && chance(1, 4) {
                fault("signed copy lost");
                copies.pop();
            }
            shuffle(&mut copies);
            for c in copies {
                ensure!(psbt.combine(c).is_ok(), "combine", "signed copies cannot be combined");
            }
        } else {
            styles.push(format!("sequence{order:?}"));
            for w in order {
                visit(&owners[w], w, &ins, &mut psbt, healed)?;
                psbt = transfer(psbt)?;
            }
        }
    }
    note!("inputs {:?}, signing {styles:?}", ins.iter().map(|c| (c.kind, c.sp.map(|s| s.0))).collect::<Vec<_>>());
    // ---- outcome
    for (i, c) in ins.iter().enumerate() {
        if let Some((w, _)) = c.sp {
            ensure!(
                psbt.inputs[i].tap_key_sig.is_some() || unsignable(&psbt, i),
                "not-signed",
                "input {i} of owner {w} is not signed after a round without faults"
            );
            check_sig(&psbt, i, &ins)?;
        } else {
            ensure!(psbt.inputs[i].tap_key_sig.is_none(), "foreign-signed", "ordinary input {i} got a signature");
        }
    }
    state(&(ins.iter().map(|c| (c.kind, c.sp.map(|s| s.0))).collect::<Vec<_>>(), styles));
    Ok(())
}

/// The signer's key map opens exactly the outputs the index reports.
fn check_keymap(i: usize, o: &Owner, paid: &[(OutPoint, usize, TxOut)]) -> Res {
    let map: HashMap<XOnlyPublicKey, PrivateKey> = guarded("populate_sp_keymap", || {
        signers::populate_sp_keymap(&o.party.spend_sk, o.indexer.index(), o.party.network)
    })?;
    for (x, sk) in &map {
        ensure!(
            sk.inner.public_key(secp()).x_only_public_key().0 == *x,
            "keymap-wrong",
            "owner {i}: the key map has a key that does not open its output"
        );
    }
    for (op, w, txout) in paid {
        let x = match XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..]) {
            Ok(x) => x,
            Err(_) => continue,
        };
        ensure!(
            map.contains_key(&x) == (*w == i),
            "keymap-coverage",
            "owner {i}: output {op} of owner {w} {} the key map",
            if *w == i { "is missing from" } else { "is in" }
        );
    }
    Ok(())
}

fn transfer(p: Psbt) -> Result<Psbt, Violation> {
    if chance(1, 2) {
        return Ok(p);
    }
    let Ok(back) = Psbt::deserialize(&p.serialize()) else {
        fail!("psbt-unreadable", "the PSBT no longer parses after signing");
    };
    ensure!(back == p, "psbt-unreadable", "the PSBT changed by sending it");
    Ok(back)
}

/// An owner gets the transaction, adds what it knows, signs. Between those two things get damaged.
fn visit(o: &Owner, w: usize, ins: &[Coin], psbt: &mut Psbt, healed: bool) -> Res {
    for (i, c) in ins.iter().enumerate() {
        if let Some((_, tweak)) = c.sp.filter(|s| s.0 == w) {
            if healed || chance(5, 6) {
                add_sp_data_to_input(psbt, i, o.party.spend_pk(), Scalar::from(tweak));
            }
        }
    }
    if chance(1, 20) {
        // An index from another version of the transaction.
        let before = psbt.clone();
        guarded("add_sp_data_to_input", || {
            add_sp_data_to_input(psbt, ins.len() + pick(3) as usize, o.party.spend_pk(), Scalar::ONE)
        })?;
        ensure!(*psbt == before, "metadata-misplaced", "data for an input that does not exist changed the PSBT");
    }
    let mut device_fault = KeyFault::None;
    if !healed {
        for _ in 0..weighted(&[2, 3, 2, 1]) {
            damage(o, ins, psbt);
        }
        if chance(1, 4) {
            device_fault = *pick_from(&[KeyFault::Absent, KeyFault::Error, KeyFault::WrongKey]);
        }
    } else if chance(1, 2) {
        // Junk that nobody removes must not get in the way.
        junk(ins, psbt, &o.party);
    }
    let before = psbt.clone();
    if device_fault == KeyFault::None && o.signs_with_map {
        let mut keys = HashMap::new();
        keys.insert(
            bitcoin::PublicKey::new(o.party.spend_pk()),
            PrivateKey::new(o.party.spend_sk, o.party.network),
        );
        guarded("sign_sp", || sign_sp(psbt, &keys, secp()))?;
    } else {
        o.device.faults.borrow_mut().clear();
        o.device
            .faults
            .borrow_mut()
            .insert(o.party.spend_pk().x_only_public_key().0, device_fault);
        guarded("sign_sp", || sign_sp(psbt, &o.device, secp()))?;
    }
    check_step(o, w, ins, &before, psbt)?;
    if device_fault != KeyFault::None {
        ensure!(before == *psbt || o.holds.len() > 1, "signed-without-key", "owner {w} signed although its device gave no usable key");
    }
    if chance(1, 4) {
        probe("signing repeated");
        let once = psbt.clone();
        guarded("sign_sp", || sign_sp(psbt, &o.device, secp()))?;
        if device_fault == KeyFault::None {
            o.device.faults.borrow_mut().clear();
            ensure!(*psbt == once, "resigning", "signing again changed the transaction");
        }
        check_step(o, w, ins, &once, psbt)?;
    }
    Ok(())
}

fn check_step(o: &Owner, w: usize, ins: &[Coin], before: &Psbt, after: &Psbt) -> Res {
    let mut a = after.clone();
    for i in 0..ins.len() {
        let (b_sig, a_sig) = (before.inputs[i].tap_key_sig, after.inputs[i].tap_key_sig);
        if b_sig != a_sig {
            ensure!(b_sig.is_none(), "signature-replaced", "owner {w} replaced the signature of input {i}");
            ensure!(
                ins[i].sp.is_some_and(|s| o.holds.contains(&s.0)),
                "foreign-signed",
                "owner {w} signed input {i}, which is not its own"
            );
            check_sig(after, i, ins)?;
        }
        a.inputs[i].tap_key_sig = b_sig;
    }
    ensure!(a == *before, "signing-changed-more", "signing by owner {w} changed more than signatures");
    Ok(())
}

/// The signature spends the coin under consensus rules, given the coins as they are on chain.
fn check_sig(psbt: &Psbt, i: usize, ins: &[Coin]) -> Res {
    let Some(sig) = psbt.inputs[i].tap_key_sig else { return Ok(()) };
    let prev = prevouts(ins);
    let mut cache = SighashCache::new(&psbt.unsigned_tx);
    let hash = match cache.taproot_key_spend_signature_hash(i, &Prevouts::All(&prev), sig.sighash_type) {
        Ok(h) => h,
        Err(e) => fail!("invalid-signature", "input {i}: no signature hash for {:?}: {e}", sig.sighash_type),
    };
    let asked = psbt.inputs[i].sighash_type.and_then(|t| t.taproot_hash_ty().ok());
    ensure!(
        matches!(sig.sighash_type, TapSighashType::Default | TapSighashType::All) || asked == Some(sig.sighash_type),
        "weak-signature",
        "input {i} signed with {:?}: not committed to the whole transaction",
        sig.sighash_type
    );
    let x = match XOnlyPublicKey::from_slice(&ins[i].txout.script_pubkey.as_bytes()[2..]) {
        Ok(x) => x,
        Err(e) => fail!("invalid-signature", "input {i}: {e}"),
    };
    ensure!(
        secp().verify_schnorr(&sig.signature, &Message::from(hash), &x).is_ok(),
        "invalid-signature",
        "input {i}: the signature does not spend the coin"
    );
    Ok(())
}

/// Other programs fill in fields of a PSBT that are none of the signer's business.
fn foreign_fields(ins: &[Coin], psbt: &mut Psbt) {
    let i = pick(ins.len() as u32) as usize;
    let n_outs = psbt.outputs.len() as u32;
    let inp = &mut psbt.inputs[i];
    match pick(11) {
        0..=3 => {
            fault("psbt: sighash type asked for");
            let raw = match pick(3) {
                0 => 3,
                1 => *pick_from(&[0u32, 1, 2, 0x81, 0x82, 0x83]),
                _ => *pick_from(&[4u32, 0x80, 0xff, 0x100, u32::MAX]),
            };
            if raw & 0x7f == 3 && i as u32 >= n_outs {
                probe("sighash type single without an output");
            }
            inp.sighash_type = Some(bitcoin::psbt::PsbtSighashType::from_u32(raw));
        }
        4 => {
            fault("psbt: foreign taproot fields");
            inp.tap_internal_key = Some(fresh_pk().x_only_public_key().0);
        }
        5 => {
            fault("psbt: foreign taproot fields");
            use bitcoin::hashes::Hash;
            inp.tap_merkle_root = Some(bitcoin::TapNodeHash::from_byte_array(fresh32()));
        }
        6 => {
            fault("psbt: foreign scripts");
            inp.redeem_script = Some(unrelated_spk());
            inp.witness_script = Some(unrelated_spk());
        }
        7 => {
            fault("psbt: foreign unknown field");
            inp.unknown.insert(
                bitcoin::psbt::raw::Key { type_value: 0xe0, key: fresh32()[..pick(33) as usize].to_vec() },
                fresh32().to_vec(),
            );
        }
        8 => {
            fault("psbt: foreign derivation paths");
            let pk = fresh_pk();
            let src = (Default::default(), bitcoin::bip32::DerivationPath::default());
            inp.bip32_derivation.insert(pk, src.clone());
            inp.tap_key_origins.insert(pk.x_only_public_key().0, (vec![], src));
        }
        9 => {
            fault("psbt: foreign output fields");
            let o = pick(n_outs) as usize;
            psbt.outputs[o].proprietary.insert(
                ProprietaryKey { prefix: b"bip352".to_vec(), subtype: pick(4) as u8, key: fresh32().to_vec() },
                fresh32()[..pick(33) as usize].to_vec(),
            );
            psbt.outputs[o].tap_internal_key = Some(fresh_pk().x_only_public_key().0);
        }
        _ => {
            fault("psbt: foreign global fields");
            psbt.proprietary.insert(
                ProprietaryKey { prefix: b"bip352".to_vec(), subtype: pick(4) as u8, key: fresh_pk().serialize().to_vec() },
                fresh32().to_vec(),
            );
        }
    }
}

/// Whether somebody asked for a kind of signature that cannot be made for this input.
fn unsignable(psbt: &Psbt, i: usize) -> bool {
    match psbt.inputs[i].sighash_type.map(|t| t.taproot_hash_ty()) {
        None => false,
        Some(Err(_)) => true,
        Some(Ok(t)) => {
            matches!(t, TapSighashType::Single | TapSighashType::SinglePlusAnyoneCanPay)
                && i >= psbt.unsigned_tx.output.len()
        }
    }
}

fn junk(ins: &[Coin], psbt: &mut Psbt, p: &Party) {
    let i = pick(ins.len() as u32) as usize;
    if chance(1, 3) {
        return foreign_fields(ins, psbt);
    }
    let entry = |key: Vec<u8>, subtype: u8, prefix: &[u8]| ProprietaryKey { prefix: prefix.to_vec(), subtype, key };
    let (k, v): (ProprietaryKey, Vec<u8>) = match pick(8) {
        0 => (entry(vec![], 1, b"bip352"), vec![]),
        1 => (entry(fresh32().to_vec(), 1, b"bip352"), fresh32().to_vec()),
        2 => (entry(fresh_pk().serialize().to_vec(), 1, b"bip352"), vec![0xff; 32]),
        3 => (entry(fresh_pk().serialize().to_vec(), 1, b"bip352"), fresh32()[..31].to_vec()),
        4 => (entry(vec![0; 33], 1, b"bip352"), fresh32().to_vec()),
        5 => (entry(p.spend_pk().serialize().to_vec(), 2, b"bip352"), fresh32().to_vec()),
        6 => (entry(p.spend_pk().serialize().to_vec(), 1, b"other"), fresh32().to_vec()),
        _ => (entry(p.spend_pk().serialize_uncompressed().to_vec(), 1, b"bip352"), fresh32().to_vec()),
    };
    fault("metadata: junk entry");
    psbt.inputs[i].proprietary.insert(k, v);
}

fn damage(o: &Owner, ins: &[Coin], psbt: &mut Psbt) {
    let i = pick(ins.len() as u32) as usize;
    match pick(7) {
        0 => {
            fault("metadata: tweak damaged");
            if let Some((_, v)) = psbt.inputs[i].proprietary.iter_mut().next() {
                if !v.is_empty() {
                    let at = pick(v.len() as u32) as usize;
                    v[at] ^= 1 << pick(8);
                }
            }
        }
        1 => {
            fault("metadata: tweak truncated");
            if let Some((_, v)) = psbt.inputs[i].proprietary.iter_mut().next() {
                v.truncate(pick(32) as usize);
            }
        }
        2 => {
            fault("metadata: moved to another input");
            let j = pick(ins.len() as u32) as usize;
            let a = psbt.inputs[i].proprietary.clone();
            psbt.inputs[j].proprietary.extend(a);
        }
        3 => {
            fault("metadata: claims a foreign output");
            let t = *pick_from(&[Scalar::ZERO, Scalar::ONE, Scalar::from(fresh_sk())]);
            let neg = o.party.spend_sk.negate();
            let t = if chance(1, 4) { Scalar::from(neg) } else { t };
            add_sp_data_to_input(psbt, i, o.party.spend_pk(), t);
        }
        4 => junk(ins, psbt, &o.party),
        5 => {
            fault("psbt: previous output missing");
            psbt.inputs[i].witness_utxo = None;
            psbt.inputs[i].non_witness_utxo = None;
        }
        _ => {
            fault("metadata: lost");
            psbt.inputs[i].proprietary.clear();
        }
    }
}

