//! C12, second part: the index together with a chain and the reports of a node about its mempool:
//! arrivals, sightings, evictions, replacements, with a clock that jumps.
use crate::{core::*, ensure, fail, note, wsim::*};
use bitcoin::{constants::genesis_block, secp256k1::PublicKey, BlockHash, Network, OutPoint, Transaction, Txid};
use indexer::{
    bdk_chain::{
        local_chain::{self, LocalChain},
        BlockId, CanonicalizationParams, ChainPosition, CheckPoint, ConfirmationBlockTime, Merge,
    },
    v2::{ChangeSet, SpIndexerV2},
};
use std::collections::{BTreeMap, BTreeSet};

type Anchor = ConfirmationBlockTime;

/// Everything the index was told.
#[derive(Clone, Default)]
struct Facts {
    graph: BTreeSet<Txid>,
    anchors: BTreeMap<Txid, BTreeSet<BlockId>>,
    seen: BTreeMap<Txid, u64>,
    evicted: BTreeMap<Txid, u64>,
    mine: BTreeSet<OutPoint>,
}

impl Facts {
    fn index(&mut self, r: &TxRec) {
        self.mine.extend(r.found.iter().map(|f| OutPoint::new(r.id, f.vout)));
    }
    fn relevant(&self, r: &TxRec) -> bool {
        !r.found.is_empty() || r.tx.input.iter().any(|i| self.mine.contains(&i.previous_output))
    }
    fn see(&mut self, id: Txid, t: u64) {
        let e = self.seen.entry(id).or_default();
        *e = t.max(*e);
    }
    fn evict(&mut self, id: Txid, t: u64) {
        let e = self.evicted.entry(id).or_default();
        *e = t.max(*e);
    }

    fn ancestors(&self, u: &Universe, id: Txid) -> BTreeSet<Txid> {
        let mut out = BTreeSet::new();
        let mut stack = vec![id];
        while let Some(t) = stack.pop() {
            if self.graph.contains(&t) && out.insert(t) {
                stack.extend(u.txs[&t].tx.input.iter().map(|i| i.previous_output.txid));
            }
        }
        out
    }

    /// What conflicts with these transactions, with all that builds on it.
    fn losers(&self, u: &Universe, winners: &BTreeSet<Txid>) -> BTreeSet<Txid> {
        let spent: BTreeMap<OutPoint, Txid> = winners
            .iter()
            .flat_map(|w| u.txs[w].tx.input.iter().map(|i| (i.previous_output, *w)))
            .collect();
        let mut out: BTreeSet<Txid> = self
            .graph
            .iter()
            .filter(|t| u.txs[*t].tx.input.iter().any(|i| spent.get(&i.previous_output).is_some_and(|w| w != *t)))
            .copied()
            .collect();
        loop {
            let more: Vec<Txid> = self
                .graph
                .iter()
                .filter(|t| !out.contains(*t))
                .filter(|t| u.txs[*t].tx.input.iter().any(|i| out.contains(&i.previous_output.txid)))
                .copied()
                .collect();
            if more.is_empty() {
                return out;
            }
            out.extend(more);
        }
    }
}

#[derive(Clone)]
struct Sim {
    idx: SpIndexerV2<Anchor>,
    chain: LocalChain,
    facts: Facts,
    staged: ChangeSet<Anchor>,
    staged_chain: local_chain::ChangeSet,
    times: BTreeSet<u64>,
    now: u64,
}

impl Sim {
    fn time(&mut self) -> u64 {
        if chance(1, 10) {
            fault("clock jumps back");
            self.now -= u64::from(range(1, 40)).min(self.now - 1);
        } else {
            self.now += u64::from(range(1, 5));
        }
        let mut t = self.now;
        while !self.times.insert(t) {
            t += 1;
        }
        self.now = t;
        t
    }

    fn stage(&mut self, c: ChangeSet<Anchor>) {
        self.staged.merge(c);
    }

    /// The mempool, or a part of it, is reported. A part never lacks what the index would need.
    fn report(&mut self, u: &Universe, ids: &[Txid], t: u64, relevant: bool) -> Res {
        let recs: Vec<(&TxRec, PublicKey)> =
            ids.iter().map(|i| &u.txs[i]).filter_map(|r| Some((r, r.tweak?))).collect();
        let told: Vec<(Transaction, PublicKey, u64)> = recs.iter().map(|(r, k)| (r.tx.clone(), *k, t)).collect();
        let idx = &mut self.idx;
        let c = if relevant {
            guarded("batch_insert_relevant_unconfirmed", || idx.batch_insert_relevant_unconfirmed(told))?
        } else {
            guarded("batch_insert_unconfirmed", || idx.batch_insert_unconfirmed(told))?
        };
        self.stage(c);
        for (r, _) in &recs {
            self.facts.index(r);
        }
        for (r, _) in &recs {
            if !relevant || self.facts.relevant(r) {
                self.facts.graph.insert(r.id);
                self.facts.see(r.id, t);
            }
        }
        Ok(())
    }

    fn evict(&mut self, gone: &[Txid], t: u64, one_by_one: bool) -> Res {
        let idx = &mut self.idx;
        if one_by_one {
            for id in gone {
                let c = guarded("insert_evicted_at", || idx.insert_evicted_at(*id, t))?;
                self.staged.merge(c);
                self.facts.evict(*id, t);
            }
        } else {
            let c = guarded("batch_insert_relevant_evicted_at", || {
                idx.batch_insert_relevant_evicted_at(gone.iter().map(|id| (*id, t)))
            })?;
            self.staged.merge(c);
            for id in gone.iter().filter(|i| self.facts.graph.contains(*i)).copied().collect::<Vec<_>>() {
                self.facts.evict(id, t);
            }
        }
        Ok(())
    }

    /// The chain up to `to`, in one of the ways a caller may tell it.
    fn sync(&mut self, u: &Universe, to: u32) -> Res {
        let mut from = 1;
        for cp in self.chain.iter_checkpoints() {
            if u.chain.hash_at(cp.height()) == Some(cp.hash()) {
                from = cp.height() + 1;
                break;
            }
            probe("mempool: the chain is reorganised");
        }
        if chance(1, 4) {
            from = from.saturating_sub(range(1, 3)).max(1);
        }
        let chain_first = chance(1, 2);
        if chain_first {
            self.update_chain(u, to)?;
        }
        let way = pick(4);
        for h in from..=to {
            let b = &u.chain.blocks[h as usize];
            let at = BlockId { height: h, hash: b.block_hash() };
            let anchor = Anchor { block_id: at, confirmation_time: u64::from(b.header.time) };
            let recs: Vec<&TxRec> = b.txdata.iter().filter_map(|t| u.txs.get(&t.compute_txid())).collect();
            let idx = &mut self.idx;
            let only_needed = way == 1;
            let mut anchored_alone = false;
            let c = match way {
                0 | 1 => {
                    let s = u.secrets(b, only_needed);
                    guarded("apply_block_relevant", || idx.apply_block_relevant(b, s, h))?
                }
                2 => {
                    let s = u.secrets(b, false);
                    guarded("apply_block", || idx.apply_block(b, s, h))?
                }
                _ => {
                    let split = chance(1, 2);
                    let mut told: Vec<_> = recs
                        .iter()
                        .filter_map(|r| Some((r.tx.clone(), r.tweak?, if split { vec![] } else { vec![anchor] })))
                        .collect();
                    shuffle(&mut told);
                    let mut c = guarded("batch_insert_relevant", || idx.batch_insert_relevant(told))?;
                    if split {
                        anchored_alone = true;
                        for r in &recs {
                            if idx.graph().get_tx(r.id).is_some() {
                                c.merge(guarded("insert_anchor", || idx.insert_anchor(r.id, anchor))?);
                            }
                        }
                    }
                    c
                }
            };
            self.stage(c);
            let told: Vec<&&TxRec> = recs.iter().filter(|r| way != 3 || r.tweak.is_some()).collect();
            for r in &told {
                self.facts.index(r);
            }
            for r in &told {
                if way == 2 || self.facts.relevant(r) {
                    self.facts.graph.insert(r.id);
                    self.facts.anchors.entry(r.id).or_default().insert(at);
                }
            }
            for r in recs.iter().filter(|_| anchored_alone) {
                if self.facts.graph.contains(&r.id) {
                    self.facts.anchors.entry(r.id).or_default().insert(at);
                }
            }
            step();
        }
        if !chain_first {
            self.update_chain(u, to)?;
        }
        Ok(())
    }

    fn update_chain(&mut self, u: &Universe, to: u32) -> Res {
        let cp = CheckPoint::from_block_ids(
            (0..=to).map(|h| BlockId { height: h, hash: u.chain.hash_at(h).expect("height") }),
        )
        .expect("ascending");
        let Ok(c) = self.chain.apply_update(cp) else {
            fail!("harness", "a full list of blocks does not connect");
        };
        self.staged_chain.merge(c);
        Ok(())
    }

    fn check(&self, u: &Universe) -> Res<View> {
        let f = &self.facts;
        let have: BTreeSet<Txid> = self.idx.graph().full_txs().map(|t| t.txid).collect();
        ensure!(
            have == f.graph,
            "known",
            "the index keeps {} transactions, {} that concern it were reported",
            have.len(),
            f.graph.len()
        );
        // ---- the reference: on the chain, then what was seen last, then what is left
        let in_chain = |b: &BlockId| self.chain.get(b.height).is_some_and(|c| c.hash() == b.hash);
        let height = |id: &Txid| f.anchors.get(id)?.iter().find(|b| in_chain(b)).map(|b| b.height);
        let mut canon: BTreeSet<Txid> = BTreeSet::new();
        for id in f.graph.iter().filter(|i| height(i).is_some()) {
            canon.extend(f.ancestors(u, *id));
        }
        let confirmed = canon.clone();
        let mut out = f.losers(u, &canon);
        let mut by_time: Vec<(u64, Txid)> = f
            .seen
            .iter()
            .filter(|(id, t)| f.graph.contains(*id) && f.evicted.get(*id).is_none_or(|e| e < *t))
            .map(|(id, t)| (*t, *id))
            .collect();
        by_time.sort();
        for (_, id) in by_time.iter().rev() {
            if !canon.contains(id) && !out.contains(id) {
                canon.extend(f.ancestors(u, *id));
                out = f.losers(u, &canon);
            }
        }
        let left: BTreeSet<Txid> = f
            .anchors
            .keys()
            .filter(|i| f.graph.contains(*i) && !canon.contains(*i) && !out.contains(*i))
            .copied()
            .collect();
        // ---- what is reported
        let tip = self.chain.tip().block_id();
        let got: BTreeMap<Txid, Option<u32>> = guarded("list_canonical_txs", || {
            self.idx
                .graph()
                .list_canonical_txs(&self.chain, tip, CanonicalizationParams::default())
                .map(|c| {
                    let at = match c.chain_position {
                        ChainPosition::Confirmed { anchor, .. } => Some(anchor.block_id.height),
                        ChainPosition::Unconfirmed { .. } => None,
                    };
                    (c.tx_node.txid, at)
                })
                .collect()
        })?;
        for id in &canon {
            ensure!(
                got.contains_key(id),
                "canonical-lost",
                "a transaction that is {} is not reported",
                if confirmed.contains(id) { "confirmed" } else { "in the mempool" }
            );
        }
        let spare: BTreeSet<Txid> = left.iter().flat_map(|i| f.ancestors(u, *i)).collect();
        for (id, at) in &got {
            ensure!(
                canon.contains(id) || spare.contains(id),
                "canonical-extra",
                "a transaction is reported that was replaced or left the mempool"
            );
            let want = height(id);
            ensure!(
                if want.is_some() { *at == want } else { at.is_some() == confirmed.contains(id) },
                "status",
                "a transaction is reported as {at:?}, it is {want:?}"
            );
        }
        let set: BTreeSet<Txid> = got.keys().copied().collect();
        let lost = f.losers(u, &set);
        ensure!(lost.is_disjoint(&set), "conflict-kept", "two conflicting transactions are reported");
        for id in left.iter().filter(|i| !set.contains(*i)) {
            ensure!(
                f.ancestors(u, *id).iter().any(|a| lost.contains(a)),
                "unconfirmed-lost",
                "a transaction seen in a block that was replaced conflicts with nothing and is not reported"
            );
        }
        // ---- the coins
        let spent: BTreeSet<OutPoint> =
            set.iter().flat_map(|i| u.txs[i].tx.input.iter().map(|i| i.previous_output)).collect();
        let mut v = View { canonical: got.clone(), ..Default::default() };
        for (id, at) in &got {
            let r = &u.txs[id];
            for o in &r.found {
                let op = OutPoint::new(*id, o.vout);
                // Told without its tweak, a transaction is kept only for what it spends.
                if !f.mine.contains(&op) || spent.contains(&op) {
                    continue;
                }
                v.unspent.insert(op);
                let sat = r.tx.output[o.vout as usize].value.to_sat();
                match (at, o.label) {
                    (Some(_), _) => v.confirmed += sat,
                    (None, Some(0)) => v.trusted += sat,
                    (None, _) => v.untrusted += sat,
                }
            }
        }
        let index = self.idx.index();
        let b = guarded("balance", || {
            self.idx.graph().balance(
                &self.chain,
                tip,
                CanonicalizationParams::default(),
                index.by_label.clone(),
                |l: &Option<u32>, _| *l == Some(0),
            )
        })?;
        let bal = (b.confirmed.to_sat(), b.trusted_pending.to_sat(), b.untrusted_pending.to_sat(), b.immature.to_sat());
        ensure!(
            bal == (v.confirmed, v.trusted, v.untrusted, 0),
            "balance",
            "balance (confirmed, trusted, untrusted, immature) is {bal:?} instead of {:?}",
            (v.confirmed, v.trusted, v.untrusted, 0)
        );
        let unspent: BTreeSet<OutPoint> = guarded("filter_chain_unspents", || {
            self.idx
                .graph()
                .filter_chain_unspents(
                    &self.chain,
                    tip,
                    CanonicalizationParams::default(),
                    index.by_shared_secret.keys().map(|o| ((), *o)),
                )
                .map(|(_, t)| t.outpoint)
                .collect()
        })?;
        ensure!(unspent == v.unspent, "unspent", "{} coins are unspent instead of {}", unspent.len(), v.unspent.len());
        Ok(v)
    }
}

pub fn run() -> Res {
    let keys = wallet_keys(0, Network::Regtest);
    let mut u = Universe::new(keys.party.clone());
    let genesis: BlockHash = genesis_block(Network::Regtest).block_hash();
    let (chain, chain_cs) = LocalChain::from_genesis_hash(genesis);
    ensure!(u.chain.hash_at(0) == Some(genesis), "harness", "genesis");
    let p = u.party.clone();
    let mut idx = SpIndexerV2::<Anchor>::new(p.scan_sk, p.spend_pk());
    let mut first = idx.add_label(0);
    first.merge(idx.initial_changeset());
    let mut s = Sim {
        idx,
        chain,
        facts: Facts::default(),
        staged: first,
        staged_chain: chain_cs,
        times: BTreeSet::new(),
        now: 1_000,
    };
    let mut store: (ChangeSet<Anchor>, local_chain::ChangeSet, Facts) = Default::default();
    store.0.merge(std::mem::take(&mut s.staged));
    store.1.merge(std::mem::take(&mut s.staged_chain));
    let n = range(8, 45);
    let mut last = View::default();
    for _ in 0..n {
        step();
        let op = weighted(&[4, 4, 4, 3, 2, 4, 4, 2, 4, 2, 1, 1]);
        match op {
            0 => drop(u.pay()),
            1 => drop(u.spend()),
            2 => {
                // A replacement the node accepts takes the place of the other one.
                if let Some(id) = u.replace() {
                    if chance(1, 2) {
                        u.pending.retain(|i| *i != id);
                        u.pending.insert(0, id);
                    }
                }
            }
            3 => drop(u.mine(2)),
            4 => drop(u.reorg()),
            5 => {
                // Single arrivals; those before it in the mempool may not have been noticed.
                let mut pool = u.mempool();
                if pool.is_empty() {
                    continue;
                }
                let k = range(1, 3).min(pool.len() as u32);
                let mut some = vec![];
                for _ in 0..k {
                    some.push(pool.remove(pick(pool.len() as u32) as usize));
                }
                if chance(1, 5) {
                    some.push(some[0]);
                }
                let t = s.time();
                let relevant = !chance(1, 4);
                note!("arrival of {} at {t}", some.len());
                s.report(&u, &some, t, relevant)?;
                probe("mempool: arrivals");
            }
            6 => {
                let pool = u.mempool();
                let t = s.time();
                let order = chance(1, 2);
                let mut ids = pool.clone();
                if order {
                    shuffle(&mut ids);
                }
                s.report(&u, &ids, t, true)?;
                let all = chance(1, 3);
                let mut gone: Vec<Txid> = u
                    .order
                    .iter()
                    .filter(|i| !pool.contains(i) && (all || s.facts.graph.contains(*i)))
                    .copied()
                    .collect();
                shuffle(&mut gone);
                let t = s.time();
                let one_by_one = chance(1, 3);
                note!("poll of {} at {t}, {} evicted", ids.len(), gone.len());
                if !gone.is_empty() {
                    probe("mempool: evictions");
                }
                s.evict(&gone, t, one_by_one)?;
            }
            7 => {
                let pool = u.mempool();
                if pool.is_empty() {
                    continue;
                }
                let id = *pick_from(&pool);
                // Seen by its id alone; the transaction itself may come later.
                let t = s.time();
                note!("seen again at {t}");
                let idx = &mut s.idx;
                let c = guarded("insert_seen_at", || idx.insert_seen_at(id, t))?;
                s.stage(c);
                s.facts.see(id, t);
                probe("mempool: seen by its id");
            }
            8 => {
                let to = if chance(3, 4) { u.chain.height() } else { range(0, u.chain.height()) };
                // A node never goes back without a longer branch.
                let known = s
                    .chain
                    .iter_checkpoints()
                    .find(|c| u.chain.hash_at(c.height()) == Some(c.hash()))
                    .map_or(0, |c| c.height());
                let stale = s.chain.tip().height() > known;
                let to = if stale { u.chain.height() } else { to.max(known) };
                note!("synced to {to}");
                s.sync(&u, to)?;
            }
            9 => {
                store.0.merge(std::mem::take(&mut s.staged));
                store.1.merge(std::mem::take(&mut s.staged_chain));
                store.2 = s.facts.clone();
                note!("saved");
            }
            10 => {
                fault("process crash");
                probe("mempool: reloaded");
                note!("crash");
                let (idx, chain) = load(&store.0, &store.1)?;
                s.idx = idx;
                s.chain = chain;
                s.facts = store.2.clone();
                s.staged = ChangeSet::default();
                s.staged_chain = Default::default();
                for l in u.party.labels.clone() {
                    let c = s.idx.add_label(l);
                    s.stage(c);
                }
            }
            _ => {
                let l = *pick_from(&[1u32, 2, 77, u32::MAX]);
                if !u.party.labels.contains(&l) {
                    let c = s.idx.add_label(l);
                    s.stage(c);
                    u.party.labels.push(l);
                    u.published.push(Some(l));
                }
            }
        }
        if op >= 5 {
            let v = s.check(&u)?;
            let gone = last.canonical.keys().filter(|i| !v.canonical.contains_key(*i)).count();
            if gone > 0 && op == 5 {
                probe("mempool: displaced by a later arrival");
            }
            if gone > 0 && op == 6 {
                probe("mempool: left the mempool");
            }
            if v.canonical.iter().any(|(i, _)| s.facts.evicted.contains_key(i) && s.facts.seen.get(i) > s.facts.evicted.get(i)) {
                probe("mempool: back after an eviction");
            }
            if v.unspent.iter().any(|o| last.canonical.contains_key(&o.txid) && !last.unspent.contains(o)) {
                probe("coin reappears");
            }
            let mut shape: Vec<_> = v.canonical.values().map(|s| s.map(|h| u.chain.height().saturating_sub(h))).collect();
            shape.sort();
            state(&("mempool", op, shape, v.unspent.len(), gone));
            last = v;
        }
    }
    let to = u.chain.height();
    s.sync(&u, to)?;
    let t = s.time() + 100;
    s.report(&u, &u.mempool(), t, true)?;
    let live = s.check(&u)?;
    store.0.merge(std::mem::take(&mut s.staged));
    store.1.merge(std::mem::take(&mut s.staged_chain));
    let (idx, chain) = load(&store.0, &store.1)?;
    s.idx = idx;
    s.chain = chain;
    let again = s.check(&u)?;
    if live.canonical == again.canonical {
        ensure!(live == again, "reload", "the index reports something else after reloading");
    }
    Ok(())
}

fn load(c: &ChangeSet<Anchor>, chain: &local_chain::ChangeSet) -> Res<(SpIndexerV2<Anchor>, LocalChain)> {
    let c = c.clone();
    let idx = guarded("SpIndexerV2::try_from", || SpIndexerV2::try_from(c))?;
    let Ok(idx) = idx else {
        fail!("reload", "the index cannot be reloaded from its changes");
    };
    let Ok(chain) = LocalChain::from_changeset(chain.clone()) else {
        fail!("reload", "the chain cannot be reloaded from its changes");
    };
    Ok((idx, chain))
}
