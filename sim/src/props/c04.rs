//! C04: what an index reports depends on what happened, not on how it was told. One history of
//! payments and spends is told to several indexes in different legal orders, batches and
//! duplicates, with labels added in time and restarts from the accumulated changes; each must
//! report exactly what the independent model says.
use super::Property;
use crate::{core::*, ensure, fail, note, refmodel, world::*};
use bdk_sp::receive::scan::Scanner;
use bitcoin::{
    hashes::Hash,
    secp256k1::{PublicKey, Scalar, SecretKey},
    Amount, BlockHash, Network, OutPoint, ScriptBuf, Transaction, TxOut, Txid,
};
use indexer::{
    bdk_chain::{BlockId, ConfirmationBlockTime, Merge, TxGraph},
    v2::{ChangeSet, SpIndexerV2},
    PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
};

pub const PROPERTY: Property = Property {
    id: "C04",
    run,
    quick: 2_500,
    thorough: 100_000,
    probes: &[],
    state_rule: "distinct (shape of the history, delivery plan of the index: calls, batches, duplicates, restarts) executed",
    must_reach: &[
        "batch delivers a spend before its funding",
        "delivered twice",
        "label added between deliveries",
        "restored from merged changes",
        "changes merged in another order",
        "block with unrelated transactions",
        "several wallet outputs in one transaction",
        "spend without outputs for the wallet",
        "transaction without usable inputs delivered",
        "first index flavour restored from saved changes",
        "replacement paying the wallet",
    ],
    real: &["indexer (both flavours): indexing, change sets, relevance", "bdk_sp scanning", "bdk_chain transaction graph"],
    stub: &["previous outputs come from the simulated chain"],
    assumptions: &["a transaction is delivered no earlier than the batch that delivers what it spends", "labels are added before payments to them are delivered"],
};

#[derive(Clone)]
pub struct Told {
    pub tx: Transaction,
    pub id: Txid,
    pub tweak: Option<PublicKey>,
    /// Indexes of transactions of the history it spends.
    pub parents: Vec<usize>,
    pub labels: BTreeSet<u32>,
    pub prevouts: Vec<TxOut>,
}

/// A random history of payments to and spends of `p`, in an order that respects spends.
pub fn history(p: &Party, n: u32) -> Vec<Told> {
    let mut hist: Vec<Told> = vec![];
    let mut owned: Vec<(Coin, usize)> = vec![];
    let mut foreign: Vec<(Coin, usize)> = vec![];
    let stranger = Party::new(9, p.network);
    for _ in 0..n {
        if !hist.is_empty() && chance(1, 5) {
            // The same inputs once more with other outputs: the shared secret is the same.
            let of = pick(hist.len() as u32) as usize;
            let mut told = hist[of].clone();
            shuffle(&mut told.tx.output);
            let o = pick(told.tx.output.len() as u32) as usize;
            told.tx.output[o].value = Amount::from_sat(20_000 + u64::from(pick(9_000)));
            if told.tx.output.len() > 1 && chance(1, 4) {
                told.tx.output.pop();
            }
            told.id = told.tx.compute_txid();
            if hist.iter().all(|t| t.id != told.id) {
                fault("transaction replaced");
                note_owned(p, &mut told, hist.len(), &mut owned);
                if told.tweak.is_some() && !told.labels.is_empty() {
                    probe("replacement paying the wallet");
                }
                hist.push(told);
                continue;
            }
        }
        let mut ins: Vec<Coin> = vec![];
        let mut parents = vec![];
        for _ in 0..range(1, 3) {
            match weighted(&[3, 3, 1, 1]) {
                0 => {
                    let op = invented_outpoint(&hist, &ins);
                    ins.push(Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), op, Amount::from_sat(20_000)));
                }
                1 if !owned.is_empty() => {
                    let i = pick(owned.len() as u32) as usize;
                    let (c, parent) = owned.remove(i);
                    parents.push(parent);
                    ins.push(c);
                }
                2 if !foreign.is_empty() => {
                    let i = pick(foreign.len() as u32) as usize;
                    let (c, parent) = foreign.remove(i);
                    parents.push(parent);
                    ins.push(c);
                }
                _ => {
                    let op = invented_outpoint(&hist, &ins);
                    ins.push(Coin::new(*pick_from(&INELIGIBLE), fresh_sk(), op, Amount::from_sat(5_000)));
                }
            }
        }
        shuffle(&mut ins);
        let mut to: Vec<Option<Option<u32>>> = vec![];
        for _ in 0..weighted(&[2, 4, 2, 1]) {
            to.push(Some(if chance(1, 2) { Some(*pick_from(&p.labels)) } else { None }));
        }
        let other_first = chance(1, 4);
        for _ in 0..pick(3) {
            to.push(None);
        }
        shuffle(&mut to);
        if to.is_empty() {
            to.push(None);
        }
        let keys: Vec<_> = to.iter().flatten().map(|l| p.ref_keys(*l)).collect();
        let derived = ref_send(&ins, &keys);
        let mut it = derived.clone().unwrap_or_default().into_iter();
        let stranger_spk = ref_send(&ins, &[stranger.ref_keys(None)]).map(|v| v[0].clone());
        let mut outs = vec![];
        let mut made_foreign = None;
        for t in &to {
            let script_pubkey = match t {
                Some(_) => it.next().unwrap_or_else(unrelated_spk),
                None if other_first && stranger_spk.is_some() => stranger_spk.clone().expect("some"),
                None if chance(1, 3) => {
                    let c = Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), OutPoint::null(), Amount::ZERO);
                    made_foreign = Some((outs.len(), c.clone()));
                    c.txout.script_pubkey
                }
                None => unrelated_spk(),
            };
            outs.push(TxOut { value: Amount::from_sat(900 + u64::from(pick(9_000))), script_pubkey });
        }
        let tx = assemble(&ins, outs);
        let id = tx.compute_txid();
        let prev = prevouts(&ins);
        let tweak = refmodel::tweak_data(secp(), &tx, &prev);
        let idx = hist.len();
        parents.sort();
        parents.dedup();
        let mut told = Told { tx, id, tweak, parents, labels: BTreeSet::new(), prevouts: prev };
        note_owned(p, &mut told, idx, &mut owned);
        if let Some((v, mut c)) = made_foreign {
            c.outpoint = OutPoint::new(id, v as u32);
            c.txout = told.tx.output[v].clone();
            foreign.push((c, idx));
        }
        hist.push(told);
    }
    hist
}

/// An outpoint of a transaction outside the history.
fn invented_outpoint(hist: &[Told], ins: &[Coin]) -> OutPoint {
    let op = fresh_outpoint(ins);
    if hist.iter().any(|t| t.id == op.txid) {
        return fresh_outpoint(&[]);
    }
    op
}

/// Fills in the labels a transaction pays to and adds what it pays to the wallet's coins.
fn note_owned(p: &Party, told: &mut Told, idx: usize, owned: &mut Vec<(Coin, usize)>) {
    told.labels.clear();
    let Some(t) = &told.tweak else { return };
    let found = p.ref_scan(&told.tx, t);
    if found.len() > 1 {
        probe("several wallet outputs in one transaction");
    }
    if found.is_empty() && !told.parents.is_empty() {
        probe("spend without outputs for the wallet");
    }
    for f in found {
        told.labels.extend(f.label);
        let tw = SecretKey::from_slice(&f.tweak).expect("tweak");
        if let Ok(sk) = p.spend_sk.add_tweak(&Scalar::from(tw)) {
            let o = &told.tx.output[f.vout as usize];
            let mut c = Coin::new(Kind::Sp, sk, OutPoint::new(told.id, f.vout), o.value);
            c.txout = o.clone();
            owned.push((c, idx));
        }
    }
}

pub type V2 = SpIndexerV2<ConfirmationBlockTime>;

#[derive(Default, Debug, PartialEq)]
struct Report {
    /// outpoint -> (tweak, script)
    coins: BTreeMap<OutPoint, ([u8; 32], ScriptBuf)>,
    labels: BTreeSet<(Option<u32>, OutPoint)>,
    secrets: BTreeMap<Txid, PublicKey>,
}

fn expected(p: &Party, told: &[&Told]) -> Report {
    let mut r = Report::default();
    for t in told {
        if let Some(tw) = &t.tweak {
            let found = p.ref_scan(&t.tx, tw);
            if !found.is_empty() {
                r.secrets.insert(t.id, *tw);
            }
            for f in found {
                let op = OutPoint::new(t.id, f.vout);
                r.coins.insert(op, (f.tweak, t.tx.output[f.vout as usize].script_pubkey.clone()));
                r.labels.insert((f.label, op));
            }
        }
    }
    r
}

fn relevant(exp: &Report, t: &Told) -> bool {
    (0..t.tx.output.len() as u32).any(|v| exp.coins.contains_key(&OutPoint::new(t.id, v)))
        || t.tx.input.iter().any(|i| exp.coins.contains_key(&i.previous_output))
}

fn run() -> Res {
    let mut p = Party::new(0, Network::Regtest);
    p.labels.push(0);
    for _ in 0..pick(3) {
        p.labels.push(*pick_from(&LABELS[1..]));
    }
    p.labels.dedup();
    let n = range(2, 7);
    let hist = history(&p, n);
    let shape: Vec<_> = hist.iter().map(|t| (t.parents.clone(), t.tweak.is_some(), t.labels.len(), t.tx.output.len())).collect();
    for told in 0..2 {
        let plan = tell_v2(&p, &hist, told)?;
        state(&(&shape, plan));
    }
    let plan = tell_v1(&p, &hist)?;
    state(&(&shape, plan));
    Ok(())
}

/// A random order in which every transaction comes after (or together with) what it spends.
fn legal_order(hist: &[Told]) -> Vec<usize> {
    let mut done = BTreeSet::new();
    let mut order = vec![];
    while order.len() < hist.len() {
        let ready: Vec<usize> = (0..hist.len())
            .filter(|i| !done.contains(i) && hist[*i].parents.iter().all(|q| done.contains(q)))
            .collect();
        let i = *pick_from(&ready);
        done.insert(i);
        order.push(i);
    }
    order
}

fn tell_v2(p: &Party, hist: &[Told], round: usize) -> Result<Vec<String>, Violation> {
    let mut ix: V2 = SpIndexerV2::new(p.scan_sk, p.spend_pk());
    let mut records: Vec<ChangeSet<ConfirmationBlockTime>> = vec![ix.initial_changeset()];
    let mut known_labels = BTreeSet::new();
    let mut plan = vec![];
    // All labels at once, or each one in time.
    let eager = chance(1, 2);
    if eager {
        for l in &p.labels {
            known_labels.insert(*l);
            records.push(guarded("add_label", || ix.add_label(*l))?);
        }
    }
    let order = legal_order(hist);
    // In a legal order, whether a transaction matters does not depend on the order.
    let whole = expected(p, &hist.iter().collect::<Vec<_>>());
    let matters = |i: usize| relevant(&whole, &hist[i]);
    let mut told: Vec<usize> = vec![];
    let mut anchors: BTreeMap<usize, BTreeSet<BlockId>> = BTreeMap::new();
    let mut seen: BTreeMap<usize, u64> = BTreeMap::new();
    let mut all_inserted: BTreeSet<usize> = BTreeSet::new();
    let mut at = 0;
    let mut height = 0u32;
    let mut prev = BlockHash::all_zeros();
    while at < order.len() {
        step();
        let take = (range(1, 3) as usize).min(order.len() - at);
        let mut batch: Vec<usize> = order[at..at + take].to_vec();
        at += take;
        if !told.is_empty() && chance(1, 3) {
            probe("delivered twice");
            fault("duplicate delivery");
            // Still a legal order: what was told before may be told again first.
            batch.insert(0, *pick_from(&told));
        }
        for i in &batch {
            for l in &hist[*i].labels {
                if known_labels.insert(*l) {
                    probe("label added between deliveries");
                    records.push(guarded("add_label", || ix.add_label(*l))?);
                    if chance(1, 4) {
                        records.push(guarded("add_label", || ix.add_label(*l))?);
                    }
                }
            }
        }
        let usable: Vec<usize> = batch.iter().copied().filter(|i| hist[*i].tweak.is_some()).collect();
        let has_unusable = usable.len() != batch.len();
        // Only blocks can carry transactions that have no tweak.
        match if has_unusable { 0 } else { pick(5) } {
            0 | 1 => {
                if has_unusable {
                    probe("transaction without usable inputs delivered");
                }
                height += 1;
                let mut txs: Vec<Transaction> = batch.iter().map(|i| hist[*i].tx.clone()).collect();
                if chance(1, 2) {
                    probe("block with unrelated transactions");
                    let c = Coin::new(Kind::Wpkh, fresh_sk(), fresh_outpoint(&[]), Amount::from_sat(1));
                    txs.push(assemble(&[c], vec![TxOut { value: Amount::ONE_SAT, script_pubkey: unrelated_spk() }]));
                }
                let block = make_block(prev, height, txs);
                prev = block.block_hash();
                let mut map: HashMap<Txid, PublicKey> = HashMap::new();
                for i in &batch {
                    if let Some(t) = hist[*i].tweak {
                        map.insert(hist[*i].id, t);
                    }
                }
                let keep_all = chance(1, 8);
                let cs = guarded("apply_block", || {
                    if keep_all {
                        ix.apply_block(&block, map, height)
                    } else {
                        ix.apply_block_relevant(&block, map, height)
                    }
                })?;
                records.push(cs);
                for i in batch.iter().filter(|i| keep_all || matters(**i)) {
                    anchors.entry(*i).or_default().insert(BlockId { height, hash: block.block_hash() });
                    if keep_all {
                        all_inserted.insert(*i);
                    }
                }
                plan.push(format!("block{batch:?}{keep_all}"));
            }
            2 | 3 => {
                let mut b = usable.clone();
                shuffle(&mut b);
                note_batch_order(hist, &b);
                let s = 1 + u64::from(pick(1000));
                let txs: Vec<_> = b.iter().map(|i| (hist[*i].tx.clone(), hist[*i].tweak.expect("usable"), s)).collect();
                let every = chance(1, 4);
                let cs = guarded("batch_insert_unconfirmed", || {
                    if every {
                        ix.batch_insert_unconfirmed(txs)
                    } else {
                        ix.batch_insert_relevant_unconfirmed(txs)
                    }
                })?;
                records.push(cs);
                for i in b.iter().filter(|i| every || matters(**i)) {
                    let e = seen.entry(*i).or_default();
                    *e = (*e).max(s);
                    if every {
                        all_inserted.insert(*i);
                    }
                }
                plan.push(format!("unconfirmed{b:?}{every}"));
            }
            _ => {
                height += 1;
                let mut b = usable.clone();
                shuffle(&mut b);
                note_batch_order(hist, &b);
                let block_id = BlockId { height, hash: BlockHash::from_byte_array(fresh32()) };
                let a = ConfirmationBlockTime { block_id, confirmation_time: u64::from(height) };
                let txs: Vec<_> = b
                    .iter()
                    .map(|i| (hist[*i].tx.clone(), hist[*i].tweak.expect("usable"), vec![a]))
                    .collect();
                let cs = guarded("batch_insert_relevant", || ix.batch_insert_relevant(txs))?;
                records.push(cs);
                for i in b.iter().filter(|i| matters(**i)) {
                    anchors.entry(*i).or_default().insert(block_id);
                }
                plan.push(format!("confirmed{b:?}"));
            }
        }
        told.extend(batch);
        told.sort();
        told.dedup();
        if chance(1, 4) {
            fault("process restart");
            plan.push("restart".into());
            ix = restore(&ix, &records)?;
        }
        check_v2(p, hist, &told, &ix, &anchors, &seen, &all_inserted)?;
    }
    let back = restore(&ix, &records)?;
    check_v2(p, hist, &told, &back, &anchors, &seen, &all_inserted)?;
    note!("index {round}: {plan:?}");
    Ok(plan)
}

fn note_batch_order(hist: &[Told], b: &[usize]) {
    for (pos, i) in b.iter().enumerate() {
        if hist[*i].parents.iter().any(|q| b[pos..].contains(q)) {
            probe("batch delivers a spend before its funding");
        }
    }
}

/// The index rebuilt from its changes is the index.
fn restore(ix: &V2, records: &[ChangeSet<ConfirmationBlockTime>]) -> Result<V2, Violation> {
    probe("restored from merged changes");
    let mut total = ChangeSet::default();
    for r in records {
        total.merge(r.clone());
    }
    let mut order: Vec<usize> = (0..records.len()).collect();
    if chance(1, 2) {
        probe("changes merged in another order");
        shuffle(&mut order);
        let mut other = ChangeSet::default();
        for i in order {
            other.merge(records[i].clone());
        }
        ensure!(other == total, "merge-order", "merging the same changes in another order gives something else");
    }
    let back = guarded("SpIndexerV2::try_from", || V2::try_from(total.clone()))?;
    let Ok(back) = back else {
        fail!("restore", "an index cannot be restored from its own changes");
    };
    same_index(ix, &back, "restored from its changes")?;
    let whole = guarded("initial_changeset", || ix.initial_changeset())?;
    let again = guarded("SpIndexerV2::try_from", || V2::try_from(whole.clone()))?;
    let Ok(again) = again else {
        fail!("restore", "an index cannot be restored from its complete state");
    };
    same_index(ix, &again, "restored from its complete state")?;
    // Applying everything once more changes nothing.
    let mut twice = again.clone();
    guarded("apply_changeset", || twice.apply_changeset(total))?;
    same_index(&again, &twice, "after applying its changes again")?;
    Ok(if chance(1, 2) { back } else { again })
}

fn same_index(a: &V2, b: &V2, what: &str) -> Res {
    ensure!(
        a.index().by_shared_secret == b.index().by_shared_secret
            && a.index().by_label == b.index().by_label
            && a.index().txid_to_partial_secret == b.index().txid_to_partial_secret
            && a.index().by_script.keys().collect::<BTreeSet<_>>() == b.index().by_script.keys().collect::<BTreeSet<_>>(),
        "restore-coins",
        "{what}, the index reports other outputs"
    );
    ensure!(
        a.index().label_lookup == b.index().label_lookup && a.index().num_to_label == b.index().num_to_label,
        "restore-labels",
        "{what}, the index knows other labels"
    );
    ensure!(graph_view(a.graph()) == graph_view(b.graph()), "restore-graph", "{what}, the index holds other transactions");
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_v2(
    p: &Party,
    hist: &[Told],
    told: &[usize],
    ix: &V2,
    anchors: &BTreeMap<usize, BTreeSet<BlockId>>,
    seen: &BTreeMap<usize, u64>,
    all_inserted: &BTreeSet<usize>,
) -> Res {
    let refs: Vec<&Told> = told.iter().map(|i| &hist[*i]).collect();
    let exp = expected(p, &refs);
    let i = ix.index();
    for (op, (tweak, spk)) in &exp.coins {
        let got = i.by_shared_secret.get(op);
        ensure!(got.is_some(), "missed-output", "output {op} of the wallet is not reported");
        ensure!(
            got.map(|g| g.secret_bytes()) == Some(*tweak),
            "wrong-tweak",
            "output {op}: reported with another tweak than the protocol's"
        );
        let by = i.by_script.get(spk);
        ensure!(
            by.is_some_and(|o| exp.coins.get(o).is_some_and(|c| c.1 == *spk)),
            "wrong-script-lookup",
            "script of {op} leads to {by:?}"
        );
        ensure!(i.get_by_script(spk).is_some(), "wrong-script-lookup", "no secret for the script of {op}");
    }
    ensure!(
        i.by_shared_secret.len() == exp.coins.len(),
        "foreign-output",
        "the index reports {} outputs, the wallet has {}",
        i.by_shared_secret.len(),
        exp.coins.len()
    );
    let labels: BTreeSet<_> = i.by_label.iter().cloned().collect();
    ensure!(labels == exp.labels, "wrong-labels", "labels reported: {labels:?}, made for: {:?}", exp.labels);
    for (l, op) in &exp.labels {
        let n = i.get_by_label(*l).count();
        let want = exp.labels.iter().filter(|(m, _)| m == l).count();
        ensure!(n == want, "wrong-labels", "label {l:?} of {op}: {n} outputs instead of {want}");
    }
    ensure!(
        i.txid_to_partial_secret == exp.secrets,
        "wrong-secrets",
        "the index keeps tweaks for {} transactions instead of {}",
        i.txid_to_partial_secret.len(),
        exp.secrets.len()
    );
    let mut xs: Vec<_> = i.by_xonly().map(|(x, _)| p2(&x)).collect();
    xs.sort();
    let mut want: Vec<_> = exp.coins.values().map(|c| c.1.clone()).collect();
    want.sort();
    want.dedup();
    ensure!(xs == want, "wrong-script-lookup", "scripts reported differ from the wallet's");
    // ---- transactions
    let in_graph: BTreeSet<Txid> = ix.graph().full_txs().map(|n| n.txid).collect();
    for k in told {
        let t = &hist[*k];
        let rel = relevant(&exp, t);
        let want = rel || all_inserted.contains(k);
        ensure!(
            in_graph.contains(&t.id) == want,
            if want { "relevant-missed" } else { "irrelevant-kept" },
            "transaction {k} {} but is {}in the graph",
            if rel { "creates or spends a wallet output" } else { "has nothing to do with the wallet" },
            if want { "not " } else { "" }
        );
        if want {
            let Some(node) = ix.graph().get_tx_node(t.id) else {
                fail!("relevant-missed", "transaction {k} has no node");
            };
            ensure!(*node.tx == t.tx, "wrong-transaction", "transaction {k} is stored differently");
            let a: BTreeSet<BlockId> = node.anchors.iter().map(|a| a.block_id).collect();
            let w = anchors.get(k).cloned().unwrap_or_default();
            ensure!(a == w, "wrong-anchors", "transaction {k} is anchored at {a:?} instead of {w:?}");
            ensure!(
                node.last_seen.unwrap_or(0) == seen.get(k).copied().unwrap_or(0),
                "wrong-seen",
                "transaction {k}: last seen {:?} instead of {:?}",
                node.last_seen,
                seen.get(k)
            );
        }
    }
    let ours: BTreeSet<Txid> = told.iter().map(|k| hist[*k].id).collect();
    for id in &in_graph {
        // Unrelated block transactions only come in when everything was asked for.
        ensure!(
            ours.contains(id) || !all_inserted.is_empty(),
            "irrelevant-kept",
            "an unrelated transaction is in the graph"
        );
    }
    Ok(())
}

/// What a graph holds. When a transaction was first seen is left out: bdk_chain does not restore it.
pub fn graph_view(g: &TxGraph<ConfirmationBlockTime>) -> indexer::bdk_chain::tx_graph::ChangeSet<ConfirmationBlockTime> {
    let mut c = g.initial_changeset();
    c.first_seen.clear();
    c
}

fn p2(x: &bitcoin::XOnlyPublicKey) -> ScriptBuf {
    refmodel::p2tr_spk(x)
}

// ---------------------------------------------------------------------------------------------
// First index flavour

pub struct Source(pub Rc<BTreeMap<Txid, Vec<TxOut>>>);

impl PrevoutSource for Source {
    fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        self.0.get(&tx.compute_txid()).cloned().expect("harness: known transaction")
    }
}

type V1 = SpIndexer<Source, ConfirmationBlockTime>;

fn tell_v1(p: &Party, hist: &[Told]) -> Result<Vec<String>, Violation> {
    let source = Rc::new(hist.iter().map(|t| (t.id, t.prevouts.clone())).collect::<BTreeMap<_, _>>());
    let mut indexes = SpIndexes::default();
    let mut codes: BTreeMap<u32, _> = BTreeMap::new();
    for l in &p.labels {
        let r = guarded("add_label", || indexes.add_label(p.ref_code(None), p.scan_sk, *l))?;
        let Ok(c) = r else { fail!("label", "label {l} cannot be added") };
        ensure!(c == p.ref_code(Some(*l)), "label-address", "label {l} gives another address than the protocol's");
        ensure!(indexes.get_label(*l).is_some(), "label", "label {l} is not known after adding it");
        codes.insert(*l, c);
    }
    let make = |indexes: SpIndexes, graph: TxGraph<ConfirmationBlockTime>| -> V1 {
        let scanner = Scanner::new(p.scan_sk, p.spend_pk(), indexes.label_to_tweak.clone());
        SpIndexer::new(Source(source.clone()), scanner, indexes, graph)
    };
    let mut ix = make(indexes, TxGraph::default());
    let mut graph_changes = indexer::bdk_chain::tx_graph::ChangeSet::default();
    let mut index_changes = SpIndexesChangeSet::default();
    let order = legal_order(hist);
    let mut told: Vec<usize> = vec![];
    let mut plan = vec![];
    for i in order {
        step();
        let mut calls = vec![i];
        if !told.is_empty() && chance(1, 4) {
            fault("duplicate delivery");
            calls.insert(pick(2) as usize, *pick_from(&told));
        }
        for c in calls {
            let spends_before = expected(p, &told.iter().map(|k| &hist[*k]).collect::<Vec<_>>());
            let s = guarded("spends_owned_spouts", || ix.spends_owned_spouts(&hist[c].tx))?;
            let want = hist[c].tx.input.iter().any(|i| spends_before.coins.contains_key(&i.previous_output));
            ensure!(s == want, "spend-unnoticed", "transaction {c} spends a wallet output: {want}, reported {s}");
            if hist[c].tweak.is_none() {
                probe("transaction without usable inputs delivered");
            }
            let r = guarded("index_tx", || ix.index_tx(&hist[c].tx))?;
            match r {
                Ok(cs) => graph_changes.merge(cs),
                Err(e) => fail!("index-error", "indexing transaction {c} fails: {e}"),
            }
            told.push(c);
            told.sort();
            told.dedup();
            plan.push(format!("v1:{c}"));
        }
        check_v1(p, hist, &told, &ix)?;
        if chance(1, 4) {
            probe("first index flavour restored from saved changes");
            fault("process restart");
            plan.push("v1:restart".into());
            index_changes.merge(guarded("changeset", || SpIndexesChangeSet::from(ix.indexes.clone()))?);
            let back = guarded("indexes", || SpIndexes::from(index_changes.clone()))?;
            ensure!(back == ix.indexes, "restore-coins", "restored from its changes, the first flavour reports something else");
            let mut g = TxGraph::default();
            g.apply_changeset(graph_changes.clone());
            ensure!(graph_view(&g) == graph_view(&ix.tx_graph), "restore-graph", "restored from its changes, the first flavour holds other transactions");
            ix = make(back, g);
        }
    }
    Ok(plan)
}

fn check_v1(p: &Party, hist: &[Told], told: &[usize], ix: &V1) -> Res {
    let refs: Vec<&Told> = told.iter().map(|i| &hist[*i]).collect();
    let exp = expected(p, &refs);
    for (op, (tweak, spk)) in &exp.coins {
        let Some(s) = ix.indexes.spouts.get(op) else {
            fail!("missed-output", "first flavour: output {op} of the wallet is not reported");
        };
        let txout = hist.iter().find(|t| t.id == op.txid).map(|t| t.tx.output[op.vout as usize].clone());
        ensure!(
            s.outpoint == *op && s.tweak.secret_bytes() == *tweak && s.script_pubkey == *spk,
            "wrong-tweak",
            "first flavour: output {op} is reported wrongly"
        );
        ensure!(
            exp.labels.contains(&(s.label, *op)),
            "wrong-labels",
            "first flavour: output {op} is reported with label {:?}",
            s.label
        );
        ensure!(
            ix.indexes.txout(*op) == txout && Some(s.amount) == txout.as_ref().map(|t| t.value),
            "wrong-amount",
            "first flavour: output {op} is reported with {}",
            s.amount
        );
        ensure!(
            ix.indexes.script_to_spout.get(spk).is_some_and(|o| exp.coins.get(&o.outpoint).is_some_and(|c| c.1 == *spk)),
            "wrong-script-lookup",
            "first flavour: script of {op} is not found"
        );
    }
    ensure!(
        ix.indexes.spouts.len() == exp.coins.len(),
        "foreign-output",
        "first flavour reports {} outputs, the wallet has {}",
        ix.indexes.spouts.len(),
        exp.coins.len()
    );
    let l: BTreeSet<_> = ix.indexes.label_to_spout.iter().map(|(l, s)| (*l, s.outpoint)).collect();
    ensure!(l == exp.labels, "wrong-labels", "first flavour: labels {l:?} instead of {:?}", exp.labels);
    let in_graph: BTreeSet<Txid> = ix.tx_graph.full_txs().map(|n| n.txid).collect();
    let want: BTreeSet<Txid> = exp.secrets.keys().copied().collect();
    let secrets: BTreeMap<Txid, PublicKey> = refs
        .iter()
        .filter(|t| want.contains(&t.id))
        .map(|t| (t.id, secp_shared(p, t)))
        .collect();
    ensure!(
        ix.indexes.txid_to_shared_secret == secrets,
        "wrong-secrets",
        "first flavour keeps {} shared secrets, {} transactions pay the wallet",
        ix.indexes.txid_to_shared_secret.len(),
        secrets.len()
    );
    for t in refs.iter().filter(|t| want.contains(&t.id)) {
        for (i, prev) in t.tx.input.iter().zip(&t.prevouts) {
            ensure!(
                ix.tx_graph.get_txout(i.previous_output) == Some(prev),
                "wrong-prevout",
                "first flavour: a previous output of a transaction that pays the wallet is missing or another one"
            );
        }
    }
    ensure!(in_graph == want, "relevant-missed", "first flavour holds {} transactions instead of {}", in_graph.len(), want.len());
    for t in want {
        let n = ix.indexes.txouts_in_tx(t).count();
        let w = exp.coins.keys().filter(|o| o.txid == t).count();
        ensure!(n == w, "missed-output", "first flavour: {n} outputs of a transaction instead of {w}");
    }
    Ok(())
}


/// The secret the wallet shares with the senders of a transaction.
fn secp_shared(p: &Party, t: &Told) -> PublicKey {
    let scalar = Scalar::from(p.scan_sk);
    t.tweak.expect("pays the wallet").mul_tweak(secp(), &scalar).expect("not zero")
}
