//! C14: hostile chain data never stops or blinds a scanner. Third parties put malformed, tricky
//! and crowded transactions among genuine payments; a tweak server lies for a while. Both index
//! flavours, the wallet and the bare scanner see everything and must go on reporting exactly
//! what belongs to the wallet.
use super::{c04::Source, Property};
use crate::{core::*, ensure, fail, note, refmodel, world::*, wsim::*};
use bdk_sp::receive::{compute_tweak_data, extract_pubkey, scan::Scanner};
use bitcoin::{
    absolute::LockTime,
    hashes::Hash,
    secp256k1::{PublicKey, Scalar, SecretKey},
    transaction::Version,
    Amount, Block, Network, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness,
    XOnlyPublicKey,
};
use indexer::{
    bdk_chain::{BlockId, ConfirmationBlockTime, TxGraph},
    v2::SpIndexerV2,
    SpIndexer, SpIndexes,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
};

pub const PROPERTY: Property = Property {
    id: "C14",
    run,
    quick: 4_000,
    thorough: 70_000,
    probes: &[],
    state_rule: "distinct (hostile inputs, hostile outputs, lies of the tweak server) combinations of a transaction",
    must_reach: &[
        "cancelling keys",
        "partly cancelling keys",
        "hostile witness",
        "hostile script_sig",
        "witness no key can be taken from",
        "uncompressed key in a witness",
        "odd output type spent",
        "off-curve taproot spent",
        "duplicate of a payment output",
        "gap in the outputs",
        "output to an unknown label",
        "script of an existing coin paid again",
        "crowd of outputs",
        "coinbase paying the wallet's script",
        "block with a coinbase only",
        "block without transactions",
        "same transaction twice",
        "hostile spend of a wallet coin",
        "wrong tweak first, right one later",
        "tweaks for strangers",
        "previous outputs missing",
        "genuine payment next to hostile transactions",
        "hundreds of outputs to the wallet",
    ],
    real: &["bdk_sp: tweak computation, scanner", "indexer (both flavours)", "bdk_sp_wallet"],
    stub: &["chain and tweak server", "bdk_tx stand-in"],
    assumptions: &[
        "a payment counts as genuine if its outputs follow the protocol; of several outputs with one script, the wallet need report only one",
        "for witnesses and scripts that consensus forbids, only staying alive is asked for",
    ],
};

type V2 = SpIndexerV2<ConfirmationBlockTime>;

struct Item {
    tx: Transaction,
    id: Txid,
    prevouts: Vec<TxOut>,
    tweak: Option<PublicKey>,
    /// Consensus could accept the inputs.
    valid: bool,
    genuine: bool,
    kinds: Vec<&'static str>,
}

fn off_curve() -> [u8; 32] {
    loop {
        let b = fresh32();
        if XOnlyPublicKey::from_slice(&b).is_err() {
            return b;
        }
    }
}

fn raw_p2tr(x: &[u8]) -> ScriptBuf {
    let mut s = vec![0x51, 0x20];
    s.extend_from_slice(x);
    ScriptBuf::from_bytes(s)
}

fn junk(n: u32) -> Vec<u8> {
    (0..n).map(|_| fresh32()[0]).collect()
}

/// One hostile input: (txin, prevout, can be in a block, what).
fn hostile_input(others: &[Coin]) -> (TxIn, TxOut, bool, &'static str) {
    let op = fresh_outpoint(others);
    let value = Amount::from_sat(10_000);
    let bare = |spk: ScriptBuf, sig: ScriptBuf, wit: Vec<Vec<u8>>| {
        (
            TxIn { previous_output: op, script_sig: sig, sequence: Sequence::MAX, witness: Witness::from_slice(&wit) },
            TxOut { value, script_pubkey: spk },
        )
    };
    let kind = *pick_from(&ELIGIBLE);
    let c = Coin::new(kind, fresh_sk(), op, value);
    let (sig, wit) = c.satisfy(None);
    let wit: Vec<Vec<u8>> = wit.iter().map(|w| w.to_vec()).collect();
    match weighted(&[4, 3, 3, 3, 3, 2, 2, 3]) {
        0 => {
            // Damaged witness: cut, short or empty elements, control blocks of any length.
            probe("hostile witness");
            let x = fresh_pk().x_only_public_key().0.serialize();
            let mut w = match pick(6) {
                0 => vec![junk(64), junk(pick(40))],
                1 => vec![junk(64), junk(10), junk(pick(40))],
                2 => vec![junk(64), junk(pick(34)), vec![0x50]],
                3 => vec![vec![]],
                4 => vec![vec![0x50]],
                _ => vec![vec![], vec![], vec![]],
            };
            if chance(1, 3) {
                w.push(vec![0x50; pick(3) as usize]);
            }
            let (i, o) = bare(raw_p2tr(&x), ScriptBuf::new(), w);
            (i, o, false, "witness")
        }
        1 => {
            probe("witness no key can be taken from");
            let mut w = wit;
            if w.is_empty() {
                w.push(vec![]);
            }
            match pick(4) {
                0 => w.truncate(1),
                1 => *w.last_mut().expect("some") = vec![],
                2 => *w.last_mut().expect("some") = junk(33),
                _ => *w.last_mut().expect("some") = vec![2; 33],
            }
            let (i, o) = bare(c.txout.script_pubkey.clone(), sig, w);
            (i, o, false, "witness-key")
        }
        2 => {
            probe("hostile script_sig");
            let s = match pick(5) {
                0 => ScriptBuf::from_bytes(vec![0x4d]),
                1 => ScriptBuf::from_bytes(vec![0x4e, 0xff, 0xff, 0xff, 0xff]),
                2 => ScriptBuf::from_bytes(vec![0x21]),
                3 => ScriptBuf::from_bytes(junk(range(1, 70))),
                _ => {
                    let mut b = sig.into_bytes();
                    b.truncate(pick(b.len() as u32 + 1) as usize);
                    ScriptBuf::from_bytes(b)
                }
            };
            let (i, o) = bare(c.txout.script_pubkey.clone(), s, wit);
            (i, o, false, "script_sig")
        }
        3 => {
            // Consensus allows what policy does not: a 65 byte key behind a witness key hash.
            probe("uncompressed key in a witness");
            let k = bitcoin::PublicKey::new_uncompressed(fresh_pk());
            let mut b = k.to_bytes();
            if chance(1, 3) {
                b[0] = 6 + (b[64] & 1);
            }
            let h = bitcoin::hashes::hash160::Hash::hash(&b);
            let mut spk = vec![0x00, 0x14];
            spk.extend_from_slice(h.as_byte_array());
            let (i, o) = bare(ScriptBuf::from_bytes(spk), ScriptBuf::new(), vec![junk(70), b]);
            (i, o, true, "uncompressed")
        }
        4 => {
            probe("odd output type spent");
            let (spk, s, w): (Vec<u8>, Vec<u8>, Vec<Vec<u8>>) = match pick(6) {
                0 => (vec![0x51, 0x02, 0x4e, 0x73], vec![], vec![]),
                1 => (vec![0x51], vec![], vec![]),
                2 => {
                    let mut b = vec![0x52, 0x20];
                    b.extend_from_slice(&fresh_pk().x_only_public_key().0.serialize());
                    (b, vec![], vec![junk(3)])
                }
                3 => (vec![0x51, 0x21].into_iter().chain(junk(33)).collect(), vec![], vec![junk(64)]),
                4 => (vec![], vec![0x51], vec![]),
                _ => (vec![0x60, 0x02, 1, 2], vec![], vec![junk(64), junk(33)]),
            };
            let (i, o) = bare(ScriptBuf::from_bytes(spk), ScriptBuf::from_bytes(s), w);
            (i, o, true, "odd-type")
        }
        5 => {
            probe("off-curve taproot spent");
            let (i, o) = bare(raw_p2tr(&off_curve()), ScriptBuf::new(), vec![junk(64)]);
            (i, o, false, "off-curve")
        }
        6 => {
            // Script path with a deep tree, unknown leaf version and an annex; internal key may be
            // the one nobody can use.
            let mut cb = vec![0xc0 | pick(2) as u8 | (pick(8) << 1) as u8];
            if chance(1, 2) {
                cb.extend_from_slice(&refmodel::nums_bytes());
            } else {
                cb.extend_from_slice(&fresh_pk().x_only_public_key().0.serialize());
            }
            for _ in 0..pick(5) {
                cb.extend_from_slice(&fresh32());
            }
            let mut w = vec![vec![0x51], cb];
            if chance(1, 2) {
                w.insert(0, refmodel::nums_bytes().to_vec());
            }
            if chance(1, 2) {
                let mut annex = vec![0x50];
                annex.extend_from_slice(&refmodel::nums_bytes());
                w.push(annex);
            }
            let x = fresh_pk().x_only_public_key().0.serialize();
            let (i, o) = bare(raw_p2tr(&x), ScriptBuf::new(), w);
            (i, o, true, "deep-tree")
        }
        _ => {
            let i = Coin::new(*pick_from(&INELIGIBLE), fresh_sk(), op, value);
            let (s, w) = i.satisfy(None);
            (
                TxIn { previous_output: op, script_sig: s, sequence: Sequence::MAX, witness: w },
                i.txout,
                true,
                "ineligible",
            )
        }
    }
}

struct Sim {
    p: Party,
    items: Vec<Item>,
    /// Coins of the wallet nobody has spent yet.
    owned: Vec<Coin>,
}

impl Sim {
    fn make(&mut self) {
        let genuine = chance(1, 3);
        let mut kinds: Vec<&'static str> = vec![];
        let mut coins: Vec<Coin> = vec![];
        let mut ins: Vec<(TxIn, TxOut)> = vec![];
        let mut valid = true;
        for _ in 0..range(1, 2) {
            let op = fresh_outpoint(&coins);
            coins.push(Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), op, Amount::from_sat(20_000)));
        }
        if !self.owned.is_empty() && chance(1, 3) {
            let i = pick(self.owned.len() as u32) as usize;
            coins.push(self.owned.remove(i));
            if !genuine {
                probe("hostile spend of a wallet coin");
                kinds.push("spend");
            }
        }
        if !genuine {
            match pick(5) {
                0 => {
                    fault("cancelling keys");
                    // Every key is met by its negative.
                    let whole = chance(1, 2);
                    let n = if whole { coins.len() } else { 1 };
                    for k in 0..n {
                        let mut sk = coins[k].input_secret().negate();
                        let spk = &coins[k].txout.script_pubkey;
                        if refmodel::is_p2tr(spk) && sk.negate().x_only_public_key(secp()).1 == bitcoin::key::Parity::Odd {
                            sk = sk.negate();
                        }
                        let op = fresh_outpoint(&coins);
                        coins.push(Coin::new(Kind::Wpkh, sk, op, Amount::from_sat(1_000)));
                    }
                    probe(if whole { "cancelling keys" } else { "partly cancelling keys" });
                    kinds.push("cancel");
                }
                1 => coins.clear(),
                _ => {}
            }
            for _ in 0..pick(3) {
                let (i, o, v, k) = hostile_input(&coins);
                if ins.iter().any(|(x, _)| x.previous_output == i.previous_output) {
                    continue;
                }
                fault("hostile input");
                kinds.push(k);
                valid &= v;
                ins.push((i, o));
            }
        }
        for c in &coins {
            let (script_sig, witness) = c.satisfy(None);
            ins.push((
                TxIn { previous_output: c.outpoint, script_sig, sequence: Sequence::MAX, witness },
                c.txout.clone(),
            ));
        }
        shuffle(&mut ins);
        let (input, prevouts): (Vec<TxIn>, Vec<TxOut>) = ins.into_iter().unzip();
        let mut tx = Transaction { version: Version::TWO, lock_time: LockTime::ZERO, input, output: vec![] };
        let tweak = refmodel::tweak_data(secp(), &tx, &prevouts);
        // ---- outputs
        let mut outs: Vec<ScriptBuf> = vec![];
        let mut huge = false;
        let label = |p: &Party| chance(1, 2).then(|| *pick_from(&p.labels));
        if let Some(t) = &tweak {
            huge = genuine && chance(1, 700);
            let n = if huge {
                probe("hundreds of outputs to the wallet");
                kinds.push("huge");
                range(254, 270)
            } else if genuine {
                range(1, 3)
            } else {
                pick(3)
            };
            for k in 0..n {
                outs.push(shared_spk_for(&self.p, t, k, label(&self.p)));
            }
            if genuine {
                probe("genuine payment next to hostile transactions");
            } else {
                for _ in 0..pick(3) {
                    fault("hostile output");
                    match pick(6) {
                        0 => {
                            if let Some(o) = outs.first().cloned() {
                                probe("duplicate of a payment output");
                                kinds.push("duplicate");
                                for _ in 0..range(1, 3) {
                                    outs.push(o.clone());
                                }
                            }
                        }
                        1 => {
                            probe("gap in the outputs");
                            kinds.push("gap");
                            let k = n + 1 + pick(3);
                            outs.push(shared_spk_for(&self.p, t, k, label(&self.p)));
                        }
                        2 => {
                            probe("output to an unknown label");
                            kinds.push("unknown-label");
                            outs.push(shared_spk_for(&self.p, t, n, Some(77)));
                        }
                        3 => {
                            // Something related to the wallet's public keys.
                            kinds.push("related");
                            let k = *pick_from(&[
                                self.p.spend_pk(),
                                self.p.scan_pk(),
                                *t,
                                self.p.ref_keys(Some(self.p.labels[0])).1,
                            ]);
                            outs.push(refmodel::p2tr_spk(&k.x_only_public_key().0));
                        }
                        4 => {
                            if let Some(c) = self.owned.first() {
                                probe("script of an existing coin paid again");
                                kinds.push("reuse");
                                outs.push(c.txout.script_pubkey.clone());
                            }
                        }
                        _ => {
                            // A crowd, with the payments somewhere inside.
                            probe("crowd of outputs");
                            kinds.push("crowd");
                            for _ in 0..range(10, 40) {
                                outs.push(if chance(1, 2) {
                                    refmodel::p2tr_spk(&fresh_pk().x_only_public_key().0)
                                } else {
                                    unrelated_spk()
                                });
                            }
                        }
                    }
                }
            }
        }
        for _ in 0..pick(3) {
            outs.push(if chance(1, 4) { raw_p2tr(&off_curve()) } else { unrelated_spk() });
        }
        if outs.is_empty() {
            outs.push(unrelated_spk());
        }
        if huge {
            // Not all of them, scanning takes the square of it.
            let (a, b) = (pick(outs.len() as u32) as usize, pick(outs.len() as u32) as usize);
            outs.swap(a, b);
        } else {
            shuffle(&mut outs);
        }
        tx.output = outs
            .into_iter()
            .map(|script_pubkey| TxOut { value: Amount::from_sat(600 + u64::from(pick(3_000))), script_pubkey })
            .collect();
        let id = tx.compute_txid();
        if let Some(t) = &tweak {
            for f in self.p.ref_scan(&tx, t) {
                let tw = SecretKey::from_slice(&f.tweak).expect("tweak");
                if let Ok(sk) = self.p.spend_sk.add_tweak(&Scalar::from(tw)) {
                    let mut c = Coin::new(Kind::Sp, sk, OutPoint::new(id, f.vout), tx.output[f.vout as usize].value);
                    c.txout = tx.output[f.vout as usize].clone();
                    self.owned.push(c);
                }
            }
        }
        kinds.sort();
        self.items.push(Item { tx, id, prevouts, tweak, valid, genuine, kinds });
    }
}

/// What is reported, against what belongs to the wallet.
fn compare(s: &Sim, who: &str, seen: &BTreeSet<usize>, got: &BTreeMap<OutPoint, [u8; 32]>) -> Res {
    let by_id: BTreeMap<Txid, usize> = s.items.iter().enumerate().map(|(i, x)| (x.id, i)).collect();
    for (op, tweak) in got {
        let Some(i) = by_id.get(&op.txid) else { fail!("phantom", "{who} reports {op} of an unknown transaction") };
        let Some(o) = s.items[*i].tx.output.get(op.vout as usize) else { fail!("phantom", "{who} reports {op}, which does not exist") };
        let t = SecretKey::from_slice(tweak).map_err(|_| Violation::new("phantom", "tweak is no key"))?;
        ensure!(
            refmodel::opened_spk(secp(), &s.p.spend_sk, &t).as_ref() == Some(&o.script_pubkey),
            "unspendable",
            "{who} reports {op}, which the wallet's key does not open (transaction {i}: {:?})",
            s.items[*i].kinds
        );
    }
    for i in seen {
        let x = &s.items[*i];
        let Some(t) = x.tweak.as_ref().filter(|_| x.valid) else { continue };
        let scripts = |ops: Vec<usize>| {
            let mut v: Vec<ScriptBuf> = ops.into_iter().map(|v| x.tx.output[v].script_pubkey.clone()).collect();
            v.sort();
            v
        };
        let want = scripts(s.p.ref_scan(&x.tx, t).iter().map(|f| f.vout as usize).collect());
        let mut have = scripts(got.keys().filter(|o| o.txid == x.id).map(|o| o.vout as usize).collect());
        // Reporting further outputs that the wallet can open is fine.
        have.retain(|h| want.contains(h));
        have.dedup();
        ensure!(
            have == want,
            "blinded",
            "{who} reports {} instead of {} outputs of transaction {i} ({}, {:?})",
            have.len(),
            want.len(),
            if x.genuine { "genuine" } else { "hostile" },
            x.kinds
        );
    }
    Ok(())
}

fn run() -> Res {
    let keys = wallet_keys(0, Network::Regtest);
    let mut p = keys.party.clone();
    p.labels.push(*pick_from(&LABELS[1..]));
    let mut s = Sim { p: p.clone(), items: vec![], owned: vec![] };
    let mut chain = Chain::new();
    let mut wallet = network_wallet(&keys, BlockId { height: 0, hash: chain.tip() })?;
    let mut ix: V2 = SpIndexerV2::new(p.scan_sk, p.spend_pk());
    let mut indexes = SpIndexes::default();
    for l in &p.labels {
        let _ = ix.add_label(*l);
        let _ = wallet.get_labelled_address(*l);
        if indexes.add_label(p.ref_code(None), p.scan_sk, *l).is_err() {
            fail!("label", "label {l} cannot be added");
        }
    }
    let scanner = || Scanner::new(p.scan_sk, p.spend_pk(), indexes.label_to_tweak.clone());
    let table = scanner();
    let mut graph = TxGraph::<ConfirmationBlockTime>::default();
    let mut first = indexes.clone();
    // What each was told with the right tweak.
    let mut told: BTreeSet<usize> = BTreeSet::new();
    let mut lied: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for _ in 0..range(2, 5) {
        step();
        let from = s.items.len();
        for _ in 0..pick(4) {
            s.make();
        }
        let fresh: Vec<usize> = (from..s.items.len()).collect();
        if fresh.is_empty() {
            probe("block with a coinbase only");
        }
        let mut txs: Vec<Transaction> = fresh.iter().map(|i| s.items[*i].tx.clone()).collect();
        if let (Some(t), true) = (txs.first().cloned(), chance(1, 8)) {
            fault("same transaction twice");
            probe("same transaction twice");
            txs.push(t);
        }
        let block = block_of(&mut chain, txs, &s, &fresh);
        let h = chain.height();
        // ---- what the tweak server says
        let mut secrets: HashMap<Txid, PublicKey> = HashMap::new();
        let mut lies = vec![];
        for i in &fresh {
            let x = &s.items[*i];
            let mut lie = 0u8;
            if chance(1, 4) {
                lie = 1 + pick(4) as u8;
                let other = s.items.iter().rev().filter_map(|y| (y.id != x.id).then_some(y.tweak).flatten()).next();
                match lie {
                    1 => {
                        fault("tweak withheld");
                    }
                    2 => {
                        fault("random tweak");
                        secrets.insert(x.id, fresh_pk());
                    }
                    3 => {
                        fault("tweak of another transaction");
                        secrets.extend(other.map(|o| (x.id, o)));
                    }
                    _ => {
                        fault("hostile tweak");
                        let base = x.tweak.unwrap_or_else(fresh_pk);
                        let t = match pick(4) {
                            0 => base.negate(secp()),
                            1 => p.spend_pk(),
                            2 => p.spend_pk().negate(secp()),
                            _ => SecretKey::from_slice(&Scalar::ONE.to_be_bytes()).expect("one").public_key(secp()),
                        };
                        secrets.insert(x.id, t);
                    }
                }
                lies.push(*i);
            } else if let Some(t) = x.tweak {
                secrets.insert(x.id, t);
                told.insert(*i);
            }
            state(&(&x.kinds, lie, x.genuine, x.tweak.is_some()));
        }
        if chance(1, 3) {
            probe("tweaks for strangers");
            secrets.insert(Txid::from_byte_array(fresh32()), fresh_pk());
            secrets.insert(block.txdata.first().map(|t| t.compute_txid()).unwrap_or_else(Txid::all_zeros), fresh_pk());
        }
        deliver_block(&chain, &mut wallet, &mut ix, &block, &secrets, h, &p)?;
        // ---- the bare functions and the first flavour
        for i in &fresh {
            let x = &s.items[*i];
            bare(x, &table)?;
            let source = Source(Rc::new([(x.id, x.prevouts.clone())].into()));
            let mut one: SpIndexer<Source, ConfirmationBlockTime> =
                SpIndexer::new(source, scanner(), std::mem::take(&mut first), std::mem::take(&mut graph));
            let r = guarded("index_tx", || {
                let _ = one.spends_owned_spouts(&x.tx);
                one.index_tx(&x.tx).map(|_| ())
            })?;
            first = one.indexes;
            graph = one.tx_graph;
            if let Err(e) = r {
                ensure!(!x.valid, "scan-error", "the first flavour fails on {:?}: {e}", x.kinds);
            }
        }
        if !lies.is_empty() {
            lied.insert(h, lies);
        }
        check(&s, &wallet, &ix, &first, &told, lied.is_empty())?;
        // ---- the truth comes later
        if chance(1, 2) {
            correct(&mut s, &chain, &mut wallet, &mut ix, &mut lied, &mut told)?;
            check(&s, &wallet, &ix, &first, &told, lied.is_empty())?;
        }
    }
    correct(&mut s, &chain, &mut wallet, &mut ix, &mut lied, &mut told)?;
    check(&s, &wallet, &ix, &first, &told, lied.is_empty())?;
    // The coins can be counted in spite of everything.
    let spent: BTreeSet<OutPoint> = s.items.iter().flat_map(|x| x.tx.input.iter().map(|i| i.previous_output)).collect();
    let total = guarded("balance", || wallet.balance().total())?;
    let mut want = Amount::ZERO;
    for (op, _) in &wallet.indexer().index().by_shared_secret {
        if !spent.contains(op) {
            let x = s.items.iter().find(|x| x.id == op.txid).expect("checked");
            want += x.tx.output[op.vout as usize].value;
        }
    }
    ensure!(total == want, "balance", "balance is {total} instead of {want}");
    guarded("all_candidates", || {
        let _ = wallet.all_candidates();
        let _ = wallet.unspent_spks();
        for op in wallet.indexer().index().by_shared_secret.keys() {
            let _ = op;
        }
    })?;
    note!("{} transactions, {} coins", s.items.len(), wallet.indexer().index().by_shared_secret.len());
    Ok(())
}

/// A block with the transactions, whose coinbase may pay what it should not.
fn block_of(chain: &mut Chain, txs: Vec<Transaction>, s: &Sim, fresh: &[usize]) -> Block {
    let mut b = make_block(chain.tip(), chain.height() + 1, txs);
    if chance(1, 3) {
        // A miner pays scripts that look like the wallet's.
        let spk = s.owned.first().map(|c| c.txout.script_pubkey.clone());
        let by_tweak = fresh.iter().find_map(|i| s.items[*i].tweak).map(|t| shared_spk_for(&s.p, &t, 0, None));
        if let Some(spk) = by_tweak.or(spk) {
            probe("coinbase paying the wallet's script");
            b.txdata[0].output.push(TxOut { value: Amount::from_sat(777), script_pubkey: spk });
            b.header.merkle_root = b.compute_merkle_root().expect("non-empty");
        }
    }
    chain.blocks.push(b.clone());
    b
}

fn deliver_block(
    chain: &Chain,
    wallet: &mut bdk_sp_wallet::SpWallet,
    ix: &mut V2,
    block: &Block,
    secrets: &HashMap<Txid, PublicKey>,
    h: u32,
    p: &Party,
) -> Res {
    for t in secrets.values() {
        guarded("derive_spks_for_tweak", || {
            let _ = ix.derive_spks_for_tweak(t);
            let _ = wallet.indexer().derive_spks_for_tweak(t);
            let _ = Scanner::new(p.scan_sk, p.spend_pk(), BTreeMap::new()).get_spks_from_tweak(t, 0);
        })?;
    }
    if chance(1, 8) {
        probe("block without transactions");
        let mut empty = block.clone();
        empty.txdata.clear();
        guarded("apply_block_relevant", || {
            let _ = ix.apply_block_relevant(&empty, secrets.clone(), h);
            wallet.apply_block_relevant(&empty, secrets.clone(), h);
        })?;
    }
    let cp = checkpoint(chain, wallet, h, chain.height(), false);
    guarded("update_chain", || wallet.update_chain(cp))?;
    guarded("apply_block_relevant", || wallet.apply_block_relevant(block, secrets.clone(), h))?;
    guarded("apply_block_relevant", || {
        let _ = ix.apply_block_relevant(block, secrets.clone(), h);
    })
}

fn correct(
    s: &mut Sim,
    chain: &Chain,
    wallet: &mut bdk_sp_wallet::SpWallet,
    ix: &mut V2,
    lied: &mut BTreeMap<u32, Vec<usize>>,
    told: &mut BTreeSet<usize>,
) -> Res {
    let Some(low) = lied.keys().next().copied() else { return Ok(()) };
    lied.clear();
    probe("wrong tweak first, right one later");
    // Scanned again from there, as whoever learns of new tweaks has to.
    for h in low..=chain.height() {
        let block = chain.blocks[h as usize].clone();
        let ids: BTreeSet<Txid> = block.txdata.iter().map(|t| t.compute_txid()).collect();
        let mut secrets = HashMap::new();
        for (i, x) in s.items.iter().enumerate().filter(|(_, x)| ids.contains(&x.id)) {
            if let Some(t) = x.tweak {
                secrets.insert(x.id, t);
                told.insert(i);
            }
        }
        deliver_block(chain, wallet, ix, &block, &secrets, h, &s.p)?;
    }
    Ok(())
}

fn check(
    s: &Sim,
    wallet: &bdk_sp_wallet::SpWallet,
    ix: &V2,
    first: &SpIndexes,
    told: &BTreeSet<usize>,
    in_order: bool,
) -> Res {
    let of = |i: &V2| -> BTreeMap<OutPoint, [u8; 32]> {
        i.index().by_shared_secret.iter().map(|(o, t)| (*o, t.secret_bytes())).collect()
    };
    compare(s, "the second flavour", told, &of(ix))?;
    compare(s, "the wallet", told, &of(wallet.indexer()))?;
    let all: BTreeSet<usize> = (0..s.items.len()).collect();
    let got = first.spouts.iter().map(|(o, x)| (*o, x.tweak.secret_bytes())).collect();
    compare(s, "the first flavour", &all, &got)?;
    // What was spent is noticed.
    for (i, x) in s.items.iter().enumerate() {
        let spends = x.tx.input.iter().any(|n| ix.index().by_shared_secret.contains_key(&n.previous_output));
        if spends && in_order {
            ensure!(
                ix.graph().get_tx(x.id).is_some() && wallet.graph().get_tx(x.id).is_some(),
                "spend-unnoticed",
                "transaction {i} spends a coin of the wallet and was not kept"
            );
        }
    }
    Ok(())
}

/// Functions used without an index.
fn bare(x: &Item, table: &Scanner) -> Res {
    let got = guarded("compute_tweak_data", || compute_tweak_data(&x.tx, &x.prevouts).ok())?;
    if x.valid {
        ensure!(got == x.tweak, "tweak", "the tweak of {:?} is {got:?} instead of {:?}", x.kinds, x.tweak);
    }
    guarded("extract_pubkey", || {
        for (i, o) in x.tx.input.iter().zip(&x.prevouts) {
            let _ = extract_pubkey(i.clone(), &o.script_pubkey);
        }
    })?;
    let found = guarded("scan_tx", || table.scan_tx(&x.tx, &x.prevouts).map(|v| v.len()))?;
    if let (Ok(n), None, true) = (&found, &x.tweak, x.valid) {
        fail!("phantom", "{n} outputs found in a transaction without a shared secret");
    }
    if chance(1, 3) {
        probe("previous outputs missing");
        fault("previous outputs missing");
        let cut = &x.prevouts[..pick(x.prevouts.len() as u32 + 1) as usize];
        guarded("compute_tweak_data", || {
            let _ = compute_tweak_data(&x.tx, cut);
            let _ = table.scan_tx(&x.tx, cut);
        })?;
    }
    let nothing = Transaction { input: vec![], ..x.tx.clone() };
    let silent = Transaction { output: vec![], ..x.tx.clone() };
    guarded("scan_tx", || {
        let _ = table.scan_tx(&nothing, &x.prevouts);
        let _ = table.scan_tx(&nothing, &[]);
        let _ = table.scan_tx(&silent, &x.prevouts);
    })
}
