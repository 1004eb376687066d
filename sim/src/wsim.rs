//! A simulated wallet user: the real `SpWallet`, a block chain that reorganises, a universe of
//! payments, spends and conflicting transactions, and the oracle for what the wallet must report.
use crate::{core::*, ensure, fail, refmodel, world::*};
use bdk_sp_wallet::{ChangeSet, SpWallet};
use bitcoin::{
    bip32::{DerivationPath, Xpriv},
    secp256k1::{PublicKey, Scalar, SecretKey},
    Amount, Block, BlockHash, Network, OutPoint, Transaction, TxOut, Txid,
};
use indexer::bdk_chain::{BlockId, CheckPoint, Merge};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    str::FromStr,
};

#[derive(Clone)]
pub struct TxRec {
    pub tx: Transaction,
    pub id: Txid,
    pub tweak: Option<PublicKey>,
    pub inputs: Vec<Coin>,
    pub found: Vec<refmodel::Found>,
}

pub struct Keys {
    pub desc: String,
    pub party: Party,
}

/// Wallet keys derived from a master key without using the code under test.
pub fn wallet_keys(name: usize, network: Network) -> Keys {
    keys_of(name, Xpriv::new_master(network, &fresh32()).expect("master"), network)
}

/// The same for a given master key.
pub fn keys_of(name: usize, master: Xpriv, network: Network) -> Keys {
    let coin = if network == Network::Bitcoin { 0 } else { 1 };
    let derive = |branch: u32| -> SecretKey {
        let path = DerivationPath::from_str(&format!("352h/{coin}h/0h/{branch}h/0")).expect("path");
        master.derive_priv(secp(), &path).expect("derivation").private_key
    };
    let desc = format!("tr([{}]{})", master.fingerprint(secp()), master);
    Keys {
        desc,
        party: Party {
            name,
            scan_sk: derive(1),
            spend_sk: derive(0),
            labels: vec![0],
            network,
        },
    }
}

#[derive(Clone)]
pub struct Universe {
    pub party: Party,
    pub chain: Chain,
    pub txs: BTreeMap<Txid, TxRec>,
    /// Creation order, for deterministic choice.
    pub order: Vec<Txid>,
    pub pending: Vec<Txid>,
    /// Labels payers may use.
    pub published: Vec<Option<u32>>,
    /// Every coin comes from a transaction of its own that a node can look up.
    pub funded: bool,
    /// Lets no two payments spend the same coins, unless one replaces the other.
    pub funding: BTreeSet<Txid>,
    /// No reorganisation replaces blocks up to this height.
    pub floor: u32,
}

impl Universe {
    pub fn new(party: Party) -> Self {
        Self {
            party,
            chain: Chain::new(),
            txs: BTreeMap::new(),
            order: vec![],
            pending: vec![],
            published: vec![None, Some(0)],
            funded: false,
            funding: BTreeSet::new(),
            floor: 0,
        }
    }

    pub fn coin_of(&self, rec: &TxRec, f: &refmodel::Found) -> Coin {
        let tw = SecretKey::from_slice(&f.tweak).expect("tweak");
        let sk = self.party.spend_sk.add_tweak(&Scalar::from(tw)).expect("key");
        let txout = rec.tx.output[f.vout as usize].clone();
        let mut c = Coin::new(Kind::Sp, sk, OutPoint::new(rec.id, f.vout), txout.value);
        c.txout = txout;
        c
    }

    pub fn owned_outputs(&self) -> Vec<(OutPoint, refmodel::Found)> {
        self.order
            .iter()
            .flat_map(|id| self.txs[id].found.iter().map(|f| (OutPoint::new(*id, f.vout), f.clone())))
            .collect()
    }

    /// A transaction somebody else made from the wallet's coins goes to the mempool.
    pub fn adopt(&mut self, tx: Transaction) -> Option<Txid> {
        let owned = self.owned();
        let ins: Vec<Coin> = tx
            .input
            .iter()
            .map(|i| owned.iter().find(|c| c.outpoint == i.previous_output).cloned())
            .collect::<Option<_>>()?;
        let id = tx.compute_txid();
        let tweak = refmodel::tweak_data(secp(), &tx, &prevouts(&ins));
        let found = tweak.map(|t| self.party.ref_scan(&tx, &t)).unwrap_or_default();
        self.chain.note_tx(&tx);
        self.txs.insert(id, TxRec { tx, id, tweak, inputs: ins, found });
        self.order.push(id);
        self.pending.push(id);
        Some(id)
    }

    /// Every output any transaction of the universe pays to the wallet.
    pub fn owned(&self) -> Vec<Coin> {
        self.order
            .iter()
            .flat_map(|id| {
                let r = &self.txs[id];
                r.found.iter().map(|f| self.coin_of(r, f)).collect::<Vec<_>>()
            })
            .collect()
    }

    fn outputs(&self, ins: &[Coin], pay: u32, reuse: bool) -> Vec<TxOut> {
        let mut to: Vec<Option<Option<u32>>> = vec![];
        debug_assert!(self.published.iter().flatten().all(|l| self.party.labels.contains(l)));
        for _ in 0..pay {
            to.push(Some(*pick_from(&self.published)));
        }
        for _ in 0..pick(2) {
            to.push(None);
        }
        if to.is_empty() {
            to.push(None);
        }
        shuffle(&mut to);
        let keys: Vec<_> = to.iter().flatten().map(|l| self.party.ref_keys(*l)).collect();
        let mut it = ref_send(ins, &keys).unwrap_or_default().into_iter();
        to.iter()
            .map(|t| TxOut {
                value: Amount::from_sat(1_100 + u64::from(pick(50_000))),
                script_pubkey: match t {
                    Some(_) => it.next().unwrap_or_else(unrelated_spk),
                    None => self.known_spk(reuse).unwrap_or_else(unrelated_spk),
                },
            })
            .collect()
    }

    /// Sometimes an output goes to a script an earlier payment to the wallet made public.
    fn known_spk(&self, reuse: bool) -> Option<bitcoin::ScriptBuf> {
        if !reuse || !chance(1, 8) {
            return None;
        }
        let recent: Vec<_> = self.order.iter().rev().take(3).map(|i| &self.txs[i]).filter(|r| !r.found.is_empty()).collect();
        if recent.is_empty() {
            return None;
        }
        let r = *pick_from(&recent);
        probe("output to a script used before");
        Some(r.tx.output[pick_from(&r.found).vout as usize].script_pubkey.clone())
    }

    fn add(&mut self, ins: Vec<Coin>, outs: Vec<TxOut>) -> Txid {
        let tx = assemble(&ins, outs);
        let id = tx.compute_txid();
        let tweak = refmodel::tweak_data(secp(), &tx, &prevouts(&ins));
        let found = tweak.map(|t| self.party.ref_scan(&tx, &t)).unwrap_or_default();
        self.chain.note_tx(&tx);
        self.txs.insert(id, TxRec { tx, id, tweak, inputs: ins, found });
        self.order.push(id);
        self.pending.push(id);
        id
    }

    fn fresh_inputs(&mut self, n: u32) -> Vec<Coin> {
        let mut ins: Vec<Coin> = vec![];
        for i in 0..n {
            let kind = if i > 0 && chance(1, 5) { *pick_from(&INELIGIBLE) } else { *pick_from(&ELIGIBLE) };
            let op = fresh_outpoint(&ins);
            ins.push(Coin::new(kind, fresh_sk(), op, Amount::from_sat(100_000)));
        }
        if self.funded {
            for c in ins.iter_mut() {
                self.fund(c);
            }
        }
        ins
    }

    /// Give a coin a transaction that creates it, old enough to be out of every reorganisation.
    fn fund(&mut self, c: &mut Coin) {
        let vout = *pick_from(&[0u32, 1, 2, 7]);
        let mut output: Vec<TxOut> = (0..vout)
            .map(|i| TxOut {
                value: Amount::from_sat(700 + u64::from(i)),
                script_pubkey: bitcoin::ScriptBuf::new_op_return([i as u8]),
            })
            .collect();
        output.push(c.txout.clone());
        let mut tx = assemble(&[], output);
        tx.input.push(bitcoin::TxIn {
            previous_output: OutPoint::new(bitcoin::hashes::Hash::from_byte_array(fresh32()), 0),
            ..Default::default()
        });
        c.outpoint = OutPoint::new(tx.compute_txid(), vout);
        self.funding.insert(c.outpoint.txid);
        self.chain.note_tx(&tx);
    }

    /// What a node has in its mempool: pending transactions that fit the chain and each other,
    /// earlier ones first.
    pub fn mempool(&self) -> Vec<Txid> {
        let mut spent = self.spent_on_chain();
        let mut there: BTreeSet<Txid> = self.on_chain().into_keys().collect();
        let mut out = vec![];
        for id in &self.pending {
            let tx = &self.txs[id].tx;
            let fits = !there.contains(id)
                && tx.input.iter().all(|i| {
                    let p = i.previous_output;
                    !spent.contains(&p) && (!self.txs.contains_key(&p.txid) || there.contains(&p.txid))
                });
            if fits {
                spent.extend(tx.input.iter().map(|i| i.previous_output));
                there.insert(*id);
                out.push(*id);
            }
        }
        out
    }

    /// Somebody pays the wallet.
    pub fn pay(&mut self) -> Txid {
        let n = range(1, 2);
        let ins = self.fresh_inputs(n);
        let k = 1 + weighted(&[4, 2, 1]) as u32;
        let outs = self.outputs(&ins, k, true);
        self.add(ins, outs)
    }

    /// Strangers pay each other.
    pub fn noise(&mut self) -> Txid {
        let ins = self.fresh_inputs(1);
        let outs = self.outputs(&ins, 0, false);
        self.add(ins, outs)
    }

    /// The wallet's owner spends some coins, maybe together with somebody else.
    pub fn spend(&mut self) -> Option<Txid> {
        let spent: BTreeSet<OutPoint> = self
            .pending
            .iter()
            .flat_map(|id| self.txs[id].tx.input.iter().map(|i| i.previous_output))
            .chain(self.spent_on_chain())
            .collect();
        let mut free: Vec<Coin> = self.owned().into_iter().filter(|c| !spent.contains(&c.outpoint)).collect();
        if free.is_empty() {
            return None;
        }
        let mut ins = vec![];
        for _ in 0..range(1, 2).min(free.len() as u32) {
            let i = pick(free.len() as u32) as usize;
            ins.push(free.remove(i));
        }
        if chance(1, 4) {
            ins.extend(self.fresh_inputs(1));
        }
        let k = weighted(&[2, 3, 1]) as u32;
        let outs = self.outputs(&ins, k, k > 0);
        Some(self.add(ins, outs))
    }

    /// A transaction in conflict with an earlier one: the same coins, or some of them, spent
    /// differently. With exactly the same inputs it pays the very same silent payment scripts.
    pub fn replace(&mut self) -> Option<Txid> {
        if self.order.is_empty() {
            return None;
        }
        let n = self.order.len();
        let old = if chance(1, 2) { &self.order[n - range(1, 3).min(n as u32) as usize] } else { pick_from(&self.order) };
        let old = self.txs[old].clone();
        let mut ins = old.inputs.clone();
        if ins.len() > 1 && chance(1, 3) {
            ins.pop();
        } else if chance(1, 4) {
            ins.extend(self.fresh_inputs(1));
        }
        if !ins.iter().any(Coin::eligible) {
            return None;
        }
        // Identical satisfactions are drawn anew, so the transaction differs in any case.
        let k = weighted(&[1, 4, 1]) as u32;
        let outs = self.outputs(&ins, k, false);
        probe("conflicting transaction");
        if ins.len() == old.inputs.len() && k > 0 && !old.found.is_empty() {
            probe("replacement pays the same script");
        }
        Some(self.add(ins, outs))
    }

    pub fn spent_on_chain(&self) -> BTreeSet<OutPoint> {
        self.chain
            .blocks
            .iter()
            .flat_map(|b| b.txdata.iter().skip(1))
            .flat_map(|t| t.input.iter().map(|i| i.previous_output))
            .collect()
    }

    pub fn on_chain(&self) -> BTreeMap<Txid, (u32, BlockHash)> {
        self.chain
            .blocks
            .iter()
            .enumerate()
            .flat_map(|(h, b)| {
                let hash = b.block_hash();
                b.txdata.iter().skip(1).map(move |t| (t.compute_txid(), (h as u32, hash)))
            })
            .collect()
    }

    /// Mine a block with a random valid choice of the pending transactions: `rate` thirds of them.
    pub fn mine(&mut self, rate: u32) -> BlockHash {
        let mut spent = self.spent_on_chain();
        let mut there: BTreeSet<Txid> = self.on_chain().into_keys().collect();
        let mut take = vec![];
        let mut left = vec![];
        let candidates = std::mem::take(&mut self.pending);
        for id in candidates {
            let r = &self.txs[&id];
            let parents_ok = r.tx.input.iter().all(|i| {
                !self.txs.contains_key(&i.previous_output.txid) || there.contains(&i.previous_output.txid)
            });
            let free = r.tx.input.iter().all(|i| !spent.contains(&i.previous_output));
            if parents_ok && free && !there.contains(&id) && (rate >= 3 || chance(rate, 3)) {
                spent.extend(r.tx.input.iter().map(|i| i.previous_output));
                there.insert(id);
                take.push(r.tx.clone());
            } else {
                left.push(id);
            }
        }
        self.pending = left;
        self.chain.mine(take).block_hash()
    }

    /// A competing branch with more work takes over.
    pub fn reorg(&mut self) -> u32 {
        let max = (self.chain.height() - self.floor.min(self.chain.height())).min(4);
        if max == 0 {
            return 0;
        }
        let depth = range(1, max);
        fault("reorganisation");
        let dropped: Vec<Txid> = self.chain.rollback(depth).iter().map(|t| t.compute_txid()).collect();
        let mut pending: Vec<Txid> = dropped;
        pending.append(&mut self.pending);
        self.pending = pending;
        // Which of several conflicting transactions comes first decides which is mined.
        if chance(1, 2) {
            self.pending.reverse();
            probe("reorganisation prefers the other of two conflicting transactions");
        }
        let extra = range(1, 2);
        let rate = [2, 0, 1][weighted(&[3, 2, 1])];
        for _ in 0..depth + extra {
            self.mine(rate);
        }
        depth
    }

    /// An output that pays a script of an earlier payment once more: the wallet's keys open it, but
    /// nothing in its transaction announces it.
    pub fn paid_again(&self, op: &OutPoint) -> Option<refmodel::Found> {
        let r = self.txs.get(&op.txid)?;
        let spk = &r.tx.output.get(op.vout as usize)?.script_pubkey;
        let first = self.order.iter().map(|i| &self.txs[i]).filter(|o| o.id != r.id).find_map(|o| {
            o.found.iter().find(|f| o.tx.output[f.vout as usize].script_pubkey == *spk)
        })?;
        Some(refmodel::Found { vout: op.vout, ..first.clone() })
    }

    pub fn is_mine(&self, r: &TxRec) -> bool {
        !r.found.is_empty() || r.tx.input.iter().any(|i| is_owned(self, &i.previous_output))
    }

    /// The wallet's transactions confirmed in a block and those below it.
    pub fn confirmed_below(&self, tip: BlockHash) -> BTreeMap<Txid, u32> {
        let mut out = BTreeMap::new();
        let mut at = Some(tip);
        while let Some((h, b)) = at.and_then(|x| self.chain.by_hash.get(&x)) {
            for t in b.txdata.iter().skip(1) {
                let id = t.compute_txid();
                if self.txs.get(&id).is_some_and(|r| self.is_mine(r)) {
                    out.insert(id, *h);
                }
            }
            at = (*h > 0).then_some(b.header.prev_blockhash);
        }
        out
    }

    /// What a tweak source would say about a block.
    pub fn secrets(&self, b: &Block, only_needed: bool) -> HashMap<Txid, PublicKey> {
        b.txdata
            .iter()
            .filter_map(|t| {
                let r = self.txs.get(&t.compute_txid())?;
                if only_needed && r.found.is_empty() {
                    return None;
                }
                Some((r.id, r.tweak?))
            })
            .collect()
    }

    pub fn matters(&self, b: &Block) -> bool {
        b.txdata.iter().any(|t| {
            self.txs.get(&t.compute_txid()).is_some_and(|r| {
                !r.found.is_empty()
                    || r.tx.input.iter().any(|i| {
                        self.txs
                            .get(&i.previous_output.txid)
                            .is_some_and(|p| p.found.iter().any(|f| f.vout == i.previous_output.vout))
                    })
            })
        })
    }
}

/// A checkpoint list that always connects: everything the wallet knows, and what is asked for.
pub fn checkpoint(chain: &Chain, wallet: &SpWallet, must: u32, up_to: u32, thin: bool) -> CheckPoint {
    let known: BTreeSet<u32> = wallet.chain().iter_checkpoints().map(|c| c.height()).collect();
    // The lowest stale block of the wallet must be contradicted explicitly.
    let mut fork_next = None;
    for cp in wallet.chain().iter_checkpoints() {
        if chain.hash_at(cp.height()) == Some(cp.hash()) {
            break;
        }
        fork_next = Some(cp.height());
    }
    let up_to = up_to.max(fork_next.unwrap_or(0));
    let ids: Vec<BlockId> = (0..=up_to)
        .filter(|h| {
            *h == 0 || *h == must || *h == up_to || !thin || known.contains(h) || Some(*h) == fork_next || chance(1, 3)
        })
        .map(|h| BlockId { height: h, hash: chain.hash_at(h).expect("height") })
        .collect();
    CheckPoint::from_block_ids(ids).expect("ascending")
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Style {
    /// Every block, all tweaks (full node).
    Full,
    /// Only blocks that matter, only the tweaks that matched (light client).
    Light,
}

/// Bring the wallet to the tip of the chain; returns the hashes of applied blocks.
pub fn deliver(u: &Universe, wallet: &mut SpWallet, applied: &mut BTreeSet<BlockHash>, style: Style) -> Res<u32> {
    let mut n = 0;
    let tip = u.chain.height();
    let chain_first = !chance(1, 4);
    let mut from = 1;
    for cp in wallet.chain().iter_checkpoints() {
        if u.chain.hash_at(cp.height()) == Some(cp.hash()) {
            from = cp.height() + 1;
            break;
        }
    }
    // A careful caller rescans a little more than needed.
    if chance(1, 4) {
        fault("blocks delivered again");
        from = from.saturating_sub(range(1, 3)).max(1);
    }
    for h in from..=tip {
        let b = &u.chain.blocks[h as usize];
        let matters = u.matters(b);
        if style == Style::Light && !matters && h != tip {
            continue;
        }
        let cp = checkpoint(&u.chain, wallet, h, h.max(wallet_floor(u, wallet)), style == Style::Light);
        if chain_first {
            guarded("update_chain", || wallet.update_chain(cp.clone()))?;
        }
        if style == Style::Full || matters {
            let s = u.secrets(b, style == Style::Light);
            guarded("apply_block_relevant", || wallet.apply_block_relevant(b, s, h))?;
            applied.insert(b.block_hash());
            n += 1;
        }
        if !chain_first {
            guarded("update_chain", || wallet.update_chain(cp))?;
        }
        step();
    }
    let cp = checkpoint(&u.chain, wallet, tip, tip, style == Style::Light);
    guarded("update_chain", || wallet.update_chain(cp))?;
    let t = wallet.chain().tip();
    ensure!(
        t.height() == tip && t.hash() == u.chain.tip(),
        "tip",
        "told the best chain up to {tip}, the wallet's tip is {}",
        t.height()
    );
    Ok(n)
}

/// An update must not end below what the wallet already has on the best chain.
fn wallet_floor(u: &Universe, wallet: &SpWallet) -> u32 {
    wallet
        .chain()
        .iter_checkpoints()
        .find(|cp| u.chain.hash_at(cp.height()) == Some(cp.hash()))
        .map_or(0, |c| c.height())
}

pub fn network_wallet(keys: &Keys, birthday: BlockId) -> Res<SpWallet> {
    let genesis = bitcoin::constants::genesis_block(Network::Regtest).block_hash();
    let w = guarded("SpWallet::new", || SpWallet::new(birthday, genesis, &keys.desc, keys.party.network))?;
    let Ok(w) = w else {
        fail!("wallet", "a wallet cannot be made from a valid descriptor");
    };
    Ok(w)
}

#[derive(Debug, Default, PartialEq, Eq, Clone)]
pub struct View {
    pub confirmed: u64,
    pub trusted: u64,
    pub untrusted: u64,
    pub unspent: BTreeSet<OutPoint>,
    pub canonical: BTreeMap<Txid, Option<u32>>,
}

/// What the wallet must report, given its own chain and the blocks it was told. `applied` are the
/// blocks it was told at any time.
pub fn check_wallet(u: &Universe, wallet: &SpWallet, applied: &BTreeSet<BlockHash>) -> Res<View> {
    // ---- what it knows
    let mut known: BTreeMap<Txid, BTreeSet<(u32, BlockHash)>> = BTreeMap::new();
    for hash in applied {
        let (h, b) = &u.chain.by_hash[hash];
        for t in b.txdata.iter().skip(1) {
            let id = t.compute_txid();
            let Some(r) = u.txs.get(&id) else { continue };
            let mine = !r.found.is_empty() || r.tx.input.iter().any(|i| is_owned(u, &i.previous_output));
            if mine {
                known.entry(id).or_default().insert((*h, *hash));
            }
        }
    }
    check_known(u, wallet, known)
}

/// The same, given the transactions the wallet was told with the blocks it saw each one in.
pub fn check_known(u: &Universe, wallet: &SpWallet, known: BTreeMap<Txid, BTreeSet<(u32, BlockHash)>>) -> Res<View> {
    let in_chain = |h: u32, hash: &BlockHash| wallet.chain().get(h).is_some_and(|c| c.hash() == *hash);
    let confirmed: BTreeMap<Txid, u32> = known
        .iter()
        .filter_map(|(id, a)| a.iter().find(|(h, hash)| in_chain(*h, hash)).map(|(h, _)| (*id, *h)))
        .collect();
    // ---- canonical transactions
    let canon = guarded("canonical_txs", || {
        wallet
            .canonical_txs()
            .map(|(tx, s)| (tx.compute_txid(), s.map(|s| s.height.to_consensus_u32())))
            .collect::<Vec<_>>()
    })?;
    let s: BTreeMap<Txid, Option<u32>> = canon.iter().copied().collect();
    ensure!(s.len() == canon.len(), "canonical-twice", "a transaction is reported twice");
    for id in s.keys() {
        ensure!(known.contains_key(id), "foreign-tx", "transaction {id} is none of the wallet's");
    }
    for (id, h) in &confirmed {
        ensure!(
            s.get(id) == Some(&Some(*h)),
            "confirmed-lost",
            "a transaction confirmed at {h} is reported as {:?}",
            s.get(id)
        );
    }
    for (id, st) in &s {
        ensure!(
            st.is_none() || confirmed.contains_key(id),
            "confirmed-wrongly",
            "a transaction that is not on the wallet's chain is reported as confirmed at {st:?}"
        );
    }
    let mut spent_by: BTreeMap<OutPoint, Txid> = BTreeMap::new();
    for id in s.keys() {
        for i in &u.txs[id].tx.input {
            let other = spent_by.insert(i.previous_output, *id);
            ensure!(other.is_none(), "conflict-kept", "two reported transactions spend {}", i.previous_output);
            let p = i.previous_output.txid;
            ensure!(
                !known.contains_key(&p) || s.contains_key(&p),
                "orphan-kept",
                "a reported transaction spends one that is not reported"
            );
        }
    }
    for id in known.keys().filter(|i| !s.contains_key(*i)) {
        // It, or one of its ancestors, must be displaced by a reported transaction.
        let mut stack = vec![*id];
        let mut displaced = false;
        while let Some(t) = stack.pop() {
            for i in &u.txs[&t].tx.input {
                if spent_by.get(&i.previous_output).is_some_and(|o| *o != t) {
                    displaced = true;
                }
                if known.contains_key(&i.previous_output.txid) {
                    stack.push(i.previous_output.txid);
                }
            }
        }
        ensure!(displaced, "unconfirmed-lost", "transaction {id} conflicts with nothing and is not reported");
    }
    // ---- coins
    let mut v = View { canonical: s.clone(), ..Default::default() };
    let mut spks: Vec<Vec<u8>> = vec![];
    for (id, st) in &s {
        let r = &u.txs[id];
        for f in &r.found {
            let op = OutPoint::new(*id, f.vout);
            if spent_by.contains_key(&op) {
                continue;
            }
            let out = &r.tx.output[f.vout as usize];
            v.unspent.insert(op);
            spks.push(out.script_pubkey.to_bytes());
            let sat = out.value.to_sat();
            match (st, f.label) {
                (Some(_), _) => v.confirmed += sat,
                (None, Some(0)) => v.trusted += sat,
                (None, _) => v.untrusted += sat,
            }
        }
    }
    let b = guarded("balance", || wallet.balance())?;
    let got = (b.confirmed.to_sat(), b.trusted_pending.to_sat(), b.untrusted_pending.to_sat(), b.immature.to_sat());
    ensure!(
        got == (v.confirmed, v.trusted, v.untrusted, 0),
        "balance",
        "balance (confirmed, trusted, untrusted, immature) is {got:?} instead of {:?}",
        (v.confirmed, v.trusted, v.untrusted, 0)
    );
    let cands = guarded("all_candidates", || {
        wallet
            .all_candidates()
            .inputs()
            .map(|i| (i.prev_outpoint, i.prev_txout.clone()))
            .collect::<Vec<_>>()
    })?;
    let ops: BTreeSet<OutPoint> = cands.iter().map(|c| c.0).collect();
    ensure!(ops.len() == cands.len(), "candidate-twice", "a spend candidate is offered twice");
    ensure!(
        ops == v.unspent,
        "candidates",
        "{} spend candidates are offered, the wallet has {} unspent coins",
        ops.len(),
        v.unspent.len()
    );
    for (op, out) in &cands {
        let want = &u.txs[&op.txid].tx.output[op.vout as usize];
        ensure!(out == want, "candidate-wrong", "candidate {op} is offered with another amount or script");
    }
    let mut got: Vec<Vec<u8>> = guarded("unspent_spks", || wallet.unspent_spks())?.iter().map(|s| s.to_vec()).collect();
    got.sort();
    spks.sort();
    ensure!(
        got == spks,
        "unspent-scripts",
        "{} scripts of unspent coins are reported, the wallet has {}",
        got.len(),
        spks.len()
    );
    // ---- and the coins can be spent
    let map = guarded("populate_sp_keymap", || {
        bdk_sp_wallet::signers::populate_sp_keymap(&u.party.spend_sk, wallet.indexer().index(), u.party.network)
    })?;
    for op in &v.unspent {
        let spk = &u.txs[&op.txid].tx.output[op.vout as usize].script_pubkey;
        let x = bitcoin::XOnlyPublicKey::from_slice(&spk.as_bytes()[2..]).expect("owned");
        let k = map.get(&x);
        ensure!(
            k.is_some_and(|k| k.inner.x_only_public_key(secp()).0 == x),
            "key-missing",
            "no key that opens unspent coin {op}"
        );
    }
    Ok(v)
}

pub fn is_owned(u: &Universe, op: &OutPoint) -> bool {
    u.txs.get(&op.txid).is_some_and(|p| p.found.iter().any(|f| f.vout == op.vout))
}

pub fn merge_all(parts: &[ChangeSet]) -> Option<ChangeSet> {
    let mut it = parts.iter().cloned();
    let mut first = it.next()?;
    for p in it {
        first.merge(p);
    }
    Some(first)
}
