//! C13: every address ever handed out keeps receiving. Addresses are asked for, published, saved
//! (or lost in a crash before they were shown to anybody), paid at any later time by several
//! payers, and every payment must be found with the label the address was made for.
use super::{c12::reload, Property};
use crate::{core::*, ensure, fail, note, refmodel, world::*, wsim::*};
use bdk_sp::{encoding::SilentPaymentCode, receive::scan::Scanner};
use bdk_sp_wallet::{ChangeSet, SpWallet};
use bitcoin::{secp256k1::PublicKey, Amount, Network, OutPoint, ScriptBuf, Transaction, TxOut, Txid};
use indexer::{
    bdk_chain::{BlockId, ConfirmationBlockTime, Merge, TxGraph},
    v2, SpIndexer, SpIndexes, SpIndexesChangeSet,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
};

pub const PROPERTY: Property = Property {
    id: "C13",
    run,
    quick: 5_000,
    thorough: 90_000,
    probes: &[("labelled-address-not-saved", labelled_address_not_saved)],
    state_rule: "distinct (kind of keeper, order of asking, saving, crashing, paying and scanning) sequences, cut to their last five operations",
    must_reach: &[
        "address asked for again",
        "unsaved label lost in a crash",
        "label asked for again after a crash",
        "payment to an address from before a reload",
        "several labels paid in one transaction",
        "self payment to the change address",
        "change label refused",
        "many labels",
        "payment found by its script",
    ],
    real: &["bdk_sp_wallet: addresses, labels, change sets", "indexer (both flavours)", "bdk_sp: labels, scanning, script derivation, address text"],
    stub: &["bdk_tx stand-in", "storage is a list of complete records (damaged storage is C05)", "payments are made by the reference sender from the address the code under test gave out"],
    assumptions: &["an address counts as given out once the state in which it was asked for has been saved"],
};

type V2 = v2::SpIndexerV2<ConfirmationBlockTime>;
type V1 = SpIndexer<super::c04::Source, ConfirmationBlockTime>;

/// One way of keeping addresses and receiving.
enum Keeper {
    Wallet { w: Box<SpWallet>, saved: Vec<ChangeSet> },
    Index { ix: Box<V2>, unsaved: Vec<v2::ChangeSet<ConfirmationBlockTime>>, saved: Vec<v2::ChangeSet<ConfirmationBlockTime>>, whole: bool },
    First { indexes: SpIndexes, graph: TxGraph<ConfirmationBlockTime>, saved: SpIndexesChangeSet, saved_graph: indexer::bdk_chain::tx_graph::ChangeSet<ConfirmationBlockTime> },
}

struct Sim {
    party: Party,
    keeper: Keeper,
    /// What was ever answered for a label; `None` is the plain address.
    answers: BTreeMap<Option<u32>, SilentPaymentCode>,
    /// Asked for since the last save.
    fresh: BTreeSet<Option<u32>>,
    /// Given to payers.
    published: Vec<(Option<u32>, SilentPaymentCode, u32)>,
    lost: BTreeSet<u32>,
    generation: u32,
    chain: Chain,
    /// One per block from height 1 on.
    txs: Vec<Paid>,
    prevouts: BTreeMap<Txid, Vec<TxOut>>,
    /// Height up to which blocks were scanned, and had been when last saved.
    told: u32,
    told_saved: u32,
}

struct Paid {
    tx: Transaction,
    id: Txid,
    tweak: PublicKey,
    /// (output, label)
    pays: Vec<(u32, Option<u32>)>,
    /// The script derived first: what a light client looks for.
    first: ScriptBuf,
}

fn run() -> Res {
    let keys = wallet_keys(0, Network::Regtest);
    let mut party = keys.party.clone();
    let chain = Chain::new();
    let keeper = match weighted(&[3, 2, 2]) {
        0 => Keeper::Wallet {
            w: Box::new(network_wallet(&keys, BlockId { height: 0, hash: chain.tip() })?),
            saved: vec![],
        },
        1 => {
            let ix = V2::new(party.scan_sk, party.spend_pk());
            let first = ix.initial_changeset();
            Keeper::Index { ix: Box::new(ix), unsaved: vec![], saved: vec![first], whole: chance(1, 2) }
        }
        _ => Keeper::First {
            indexes: SpIndexes::default(),
            graph: TxGraph::default(),
            saved: SpIndexesChangeSet::default(),
            saved_graph: Default::default(),
        },
    };
    if !matches!(keeper, Keeper::Wallet { .. }) {
        party.labels.clear();
    }
    let mut s = Sim {
        party,
        keeper,
        answers: BTreeMap::new(),
        fresh: BTreeSet::new(),
        published: vec![],
        lost: BTreeSet::new(),
        generation: 0,
        chain,
        txs: vec![],
        prevouts: BTreeMap::new(),
        told: 0,
        told_saved: 0,
    };
    let kind = match s.keeper {
        Keeper::Wallet { .. } => 0u8,
        Keeper::Index { .. } => 1,
        Keeper::First { .. } => 2,
    };
    s.save()?;
    let mut ops: Vec<u8> = vec![];
    let n = range(6, 36);
    for _ in 0..n {
        step();
        let op = weighted(&[7, 4, 2, 5, 4, 1]) as u8;
        match op {
            0 => s.ask()?,
            1 => s.save()?,
            2 => s.crash()?,
            3 => s.pay()?,
            4 => s.scan()?,
            _ => {
                probe("many labels");
                for _ in 0..range(10, 30) {
                    s.ask()?;
                }
            }
        }
        ops.push(op);
        let from = ops.len().saturating_sub(5);
        state(&(kind, &ops[from..]));
    }
    s.save()?;
    if s.published.is_empty() {
        s.ask()?;
        s.save()?;
    }
    s.pay()?;
    s.scan()?;
    s.crash()?;
    s.check()?;
    Ok(())
}

impl Sim {
    fn ask(&mut self) -> Res {
        let label = match weighted(&[2, 6, 1]) {
            0 => None,
            1 => Some(match weighted(&[3, 2, 2]) {
                0 => *pick_from(&LABELS[1..]),
                1 => pick(40) + 1,
                _ => (fresh_u64() as u32).max(1),
            }),
            _ => Some(0),
        };
        let p = self.party.clone();
        let code = match (&mut self.keeper, label) {
            (Keeper::Wallet { w, .. }, None) => guarded("get_address", || w.get_address())?,
            (Keeper::Wallet { w, .. }, Some(0)) => {
                if chance(1, 3) {
                    probe("change label refused");
                    let r = guarded("get_labelled_address", || w.get_labelled_address(0))?;
                    ensure!(r.is_err(), "change-label", "the change label was given out as an ordinary address");
                }
                guarded("get_change_address", || w.get_change_address())?
            }
            (Keeper::Wallet { w, .. }, Some(l)) => {
                let r = guarded("get_labelled_address", || w.get_labelled_address(l))?;
                let Ok(c) = r else { fail!("refused", "the wallet refuses an address for label {l}") };
                c
            }
            (Keeper::Index { ix, .. }, None) => guarded("get_address", || ix.get_address(p.network))?,
            (Keeper::Index { ix, unsaved, whole, .. }, Some(l)) => {
                if !*whole {
                    // Only this call reports what has to be saved.
                    unsaved.push(guarded("add_label", || ix.add_label(l))?);
                }
                guarded("get_labeled_address", || ix.get_labeled_address(l, p.network))?
            }
            (Keeper::First { .. }, None) => p.ref_code(None),
            (Keeper::First { indexes, .. }, Some(l)) => {
                let r = guarded("add_label", || indexes.add_label(p.ref_code(None), p.scan_sk, l))?;
                let Ok(c) = r else { fail!("refused", "the first flavour refuses label {l}") };
                c
            }
        };
        // ---- the answer
        ensure!(
            code == p.ref_code(label),
            "address",
            "the address for {label:?} is not the one the protocol prescribes"
        );
        // What is given out is text.
        let text = guarded("to_string", || code.to_string())?;
        let back = guarded("SilentPaymentCode::try_from", || SilentPaymentCode::try_from(text.as_str()))?;
        ensure!(back.as_ref().ok() == Some(&code), "address-text", "the printed address {text} does not read back");
        if let Some(l) = label {
            if !self.party.labels.contains(&l) {
                self.party.labels.push(l);
            }
            if self.lost.remove(&l) {
                probe("label asked for again after a crash");
            }
        }
        if let Some(before) = self.answers.get(&label) {
            probe("address asked for again");
            ensure!(*before == code, "address-changed", "asked again for {label:?}, another address comes back");
        }
        for (l, c) in &self.answers {
            ensure!(*l == label || *c != code, "address-shared", "{l:?} and {label:?} have the same address");
        }
        self.answers.insert(label, code);
        self.fresh.insert(label);
        Ok(())
    }

    fn save(&mut self) -> Res {
        match &mut self.keeper {
            Keeper::Wallet { w, saved } => saved.extend(w.take_staged()),
            Keeper::Index { ix, unsaved, saved, whole } => {
                if *whole {
                    saved.push(guarded("initial_changeset", || ix.initial_changeset())?);
                } else {
                    saved.append(unsaved);
                }
            }
            Keeper::First { indexes, graph, saved, saved_graph } => {
                saved.merge(guarded("changeset", || SpIndexesChangeSet::from(indexes.clone()))?);
                saved_graph.merge(graph.initial_changeset());
            }
        }
        self.told_saved = self.told;
        for l in std::mem::take(&mut self.fresh) {
            if !self.published.iter().any(|p| p.0 == l) {
                self.published.push((l, self.answers[&l].clone(), self.generation));
            }
        }
        Ok(())
    }

    /// The process dies; what was not saved is gone and was never shown to anybody.
    fn crash(&mut self) -> Res {
        fault("crash");
        self.generation += 1;
        let published: BTreeSet<Option<u32>> = self.published.iter().map(|p| p.0).collect();
        for l in std::mem::take(&mut self.fresh) {
            if let (Some(l), false) = (l, published.contains(&l)) {
                probe("unsaved label lost in a crash");
                self.lost.insert(l);
            }
        }
        // Blocks told since the last save have to be told again.
        self.told = self.told_saved;
        match &mut self.keeper {
            Keeper::Wallet { w, saved } => {
                **w = reload(saved)?;
            }
            Keeper::Index { ix, unsaved, saved, .. } => {
                unsaved.clear();
                let mut total = v2::ChangeSet::default();
                for c in saved.iter() {
                    total.merge(c.clone());
                }
                let back = guarded("SpIndexerV2::try_from", || V2::try_from(total))?;
                let Ok(back) = back else { fail!("reload", "the index cannot be restored") };
                **ix = back;
            }
            Keeper::First { indexes, graph, saved, saved_graph } => {
                *indexes = guarded("SpIndexes::from", || SpIndexes::from(saved.clone()))?;
                *graph = TxGraph::default();
                graph.apply_changeset(saved_graph.clone());
            }
        }
        // Everything published is still known.
        for l in self.published.iter().filter_map(|p| p.0) {
            let known = match &self.keeper {
                Keeper::Wallet { w, .. } => w.indexer().index().get_label(l).is_some(),
                Keeper::Index { ix, .. } => ix.index().get_label(l).is_some(),
                Keeper::First { indexes, .. } => indexes.get_label(l).is_some(),
            };
            ensure!(known, "label-lost", "label {l} was given out and saved, and is gone after a crash");
        }
        Ok(())
    }

    /// Somebody pays addresses that were given out; the payment is mined.
    fn pay(&mut self) -> Res {
        let change = matches!(self.keeper, Keeper::Wallet { .. }).then(|| (Some(0), self.party.ref_code(Some(0)), 0));
        let to: Vec<_> = self.published.iter().cloned().chain(change).collect();
        if to.is_empty() {
            return Ok(());
        }
        let mut ins = vec![];
        for _ in 0..range(1, 2) {
            let op = fresh_outpoint(&ins);
            ins.push(Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), op, Amount::from_sat(100_000)));
        }
        let mut want = vec![];
        for _ in 0..1 + weighted(&[4, 2, 1]) {
            let (l, c, generation) = pick_from(&to).clone();
            if generation < self.generation {
                probe("payment to an address from before a reload");
            }
            if l == Some(0) {
                probe("self payment to the change address");
            }
            want.push((l, c));
        }
        if want.iter().map(|w| w.0).collect::<BTreeSet<_>>().len() > 1 {
            probe("several labels paid in one transaction");
        }
        let keys: Vec<_> = want.iter().map(|(_, c)| (c.scan, c.spend)).collect();
        let Some(spks) = ref_send(&ins, &keys) else { return Ok(()) };
        let first = spks[0].clone();
        let mut outs: Vec<(Option<Option<u32>>, ScriptBuf)> =
            want.iter().zip(spks).map(|((l, _), s)| (Some(*l), s)).collect();
        for _ in 0..pick(3) {
            outs.push((None, unrelated_spk()));
        }
        shuffle(&mut outs);
        let tx = assemble(
            &ins,
            outs.iter()
                .map(|(_, s)| TxOut { value: Amount::from_sat(1_000 + u64::from(pick(1000))), script_pubkey: s.clone() })
                .collect(),
        );
        let Some(tweak) = refmodel::tweak_data(secp(), &tx, &prevouts(&ins)) else { return Ok(()) };
        let pays = outs
            .iter()
            .enumerate()
            .filter_map(|(v, (l, _))| l.map(|l| (v as u32, l)))
            .collect();
        let id = tx.compute_txid();
        self.prevouts.insert(id, prevouts(&ins));
        self.chain.mine(vec![tx.clone()]);
        note!("payment to {:?}", want.iter().map(|w| w.0).collect::<Vec<_>>());
        self.txs.push(Paid { tx, id, tweak, pays, first });
        Ok(())
    }

    /// Everything mined since is scanned, in order.
    fn scan(&mut self) -> Res {
        if chance(1, 4) {
            fault("blocks scanned again");
            self.told = self.told.saturating_sub(range(1, 3));
        }
        for h in self.told + 1..=self.chain.height() {
            let p = &self.txs[h as usize - 1];
            let b = self.chain.blocks[h as usize].clone();
            let secrets: HashMap<Txid, PublicKey> = [(p.id, p.tweak)].into();
            let spks: Vec<ScriptBuf> = match &mut self.keeper {
                Keeper::Wallet { w, .. } => {
                    let spks = guarded("derive_spks_for_tweak", || w.indexer().derive_spks_for_tweak(&p.tweak))?;
                    let known = w.chain().tip().height().max(h);
                    let cp = checkpoint(&self.chain, w, h, known, false);
                    guarded("update_chain", || w.update_chain(cp))?;
                    guarded("apply_block_relevant", || w.apply_block_relevant(&b, secrets, h))?;
                    spks.iter().map(|s| ScriptBuf::from_bytes(s.to_vec())).collect()
                }
                Keeper::Index { ix, unsaved, .. } => {
                    let spks = guarded("derive_spks_for_tweak", || ix.derive_spks_for_tweak(&p.tweak))?;
                    unsaved.push(guarded("apply_block_relevant", || ix.apply_block_relevant(&b, secrets, h))?);
                    spks.iter().map(|s| ScriptBuf::from_bytes(s.to_vec())).collect()
                }
                Keeper::First { indexes, graph, .. } => {
                    let party = &self.party;
                    let scanner = Scanner::new(party.scan_sk, party.spend_pk(), indexes.label_to_tweak.clone());
                    let spks = guarded("get_spks_from_tweak", || scanner.get_spks_from_tweak(&p.tweak, 0))?;
                    let source = super::c04::Source(Rc::new(self.prevouts.clone()));
                    let mut ix: V1 =
                        SpIndexer::new(source, scanner, std::mem::take(indexes), std::mem::take(graph));
                    let r = guarded("index_tx", || ix.index_tx(&p.tx).is_ok())?;
                    ensure!(r, "scan-error", "the first flavour fails on a payment");
                    *indexes = ix.indexes;
                    *graph = ix.tx_graph;
                    spks
                }
            };
            probe("payment found by its script");
            ensure!(
                spks.contains(&p.first),
                "script-missed",
                "a light client would not look for the script of the payment at {h} ({:?})",
                p.pays
            );
        }
        self.told = self.chain.height();
        self.check()
    }

    /// Every payment scanned so far is there, with its label.
    fn check(&self) -> Res {
        for p in &self.txs[..self.told as usize] {
            for (v, label) in &p.pays {
                let op = OutPoint::new(p.id, *v);
                let got: Vec<Option<u32>> = match &self.keeper {
                    Keeper::Wallet { w, .. } => labels_of(w.indexer(), &op),
                    Keeper::Index { ix, .. } => labels_of(ix, &op),
                    Keeper::First { indexes, .. } => {
                        let by: Vec<_> =
                            indexes.label_to_spout.iter().filter(|(_, s)| s.outpoint == op).map(|(l, _)| *l).collect();
                        match indexes.spouts.get(&op) {
                            Some(s) if by == [s.label] => by,
                            Some(s) => fail!("label", "a payment is reported with label {:?} and {by:?}", s.label),
                            None => vec![],
                        }
                    }
                };
                ensure!(!got.is_empty(), "payment-lost", "the payment to the address for label {label:?} is not found");
                ensure!(
                    got == [*label],
                    "label",
                    "the payment to the address for label {label:?} is found with {got:?}"
                );
            }
        }
        Ok(())
    }
}

fn labels_of(ix: &V2, op: &OutPoint) -> Vec<Option<u32>> {
    if !ix.index().by_shared_secret.contains_key(op) {
        return vec![];
    }
    ix.index().by_label.iter().filter(|(_, o)| o == op).map(|(l, _)| *l).collect()
}

/// Recorded finding: `SpIndexerV2::get_labeled_address` adds the label without reporting a change
/// to save, so an index restored from the changes it reported no longer knows the label.
fn labelled_address_not_saved() -> Res {
    let p = Party::new(0, Network::Regtest);
    let mut ix = V2::new(p.scan_sk, p.spend_pk());
    let mut records = ix.initial_changeset();
    let code = ix.get_labeled_address(7, p.network);
    let coin = Coin::new(Kind::Wpkh, fresh_sk(), fresh_outpoint(&[]), Amount::from_sat(10_000));
    let Some(spks) = ref_send(std::slice::from_ref(&coin), &[(code.scan, code.spend)]) else { return Ok(()) };
    let tx = assemble(&[coin.clone()], vec![TxOut { value: Amount::from_sat(5_000), script_pubkey: spks[0].clone() }]);
    let Some(tweak) = refmodel::tweak_data(secp(), &tx, &prevouts(&[coin])) else { return Ok(()) };
    let mut chain = Chain::new();
    let block = chain.mine(vec![tx.clone()]).clone();
    // The process restarts with everything the index ever reported, and scans the payment.
    let mut ix = V2::try_from(records.clone()).map_err(|_| Violation::new("reload", "cannot restore"))?;
    records.merge(ix.apply_block_relevant(&block, [(tx.compute_txid(), tweak)].into(), 1));
    ensure!(
        !labels_of(&ix, &OutPoint::new(tx.compute_txid(), 0)).is_empty(),
        "labelled-address-not-saved",
        "SpIndexerV2::get_labeled_address reports no change for the label it adds: after a restart from the reported changes, a payment to that address is not found"
    );
    Ok(())
}
