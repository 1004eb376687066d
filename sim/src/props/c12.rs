//! C12: the wallet's balance and coins follow its best chain through reorganisations, replaced
//! and conflicting transactions and reloads.
use super::Property;
use crate::{core::*, ensure, fail, note, wsim::*};
use bdk_sp_wallet::{ChangeSet, SpWallet};
use bitcoin::{BlockHash, Network};
use indexer::bdk_chain::BlockId;
use std::collections::BTreeSet;

pub const PROPERTY: Property = Property {
    id: "C12",
    run,
    quick: 8_000,
    thorough: 120_000,
    probes: &[],
    state_rule: "distinct (canonical transactions with their status, unspent coins) shapes reported by the wallet, with the operation that led there",
    must_reach: &[
        "conflicting transaction",
        "replacement pays the same script",
        "wallet follows a reorganisation",
        "unconfirmed after a reorganisation",
        "coin reappears",
        "reloaded",
        "light delivery",
        "known transaction displaced by a conflict",
        "mempool: arrivals",
        "mempool: evictions",
        "mempool: seen by its id",
        "mempool: reloaded",
        "mempool: displaced by a later arrival",
        "mempool: left the mempool",
        "mempool: back after an eviction",
        "mempool: the chain is reorganised",
    ],
    real: &["bdk_sp_wallet: SpWallet, signers::populate_sp_keymap", "indexer v2", "bdk_chain local chain, transaction graph and canonicalisation"],
    stub: &["bdk_tx (git dependency that is not available offline): stand-in with the documented meaning", "blocks and tweaks come from the simulated chain"],
    assumptions: &["chain updates connect to what the wallet knows", "blocks of a branch are delivered in order"],
};

fn run() -> Res {
    if chance(1, 3) {
        return super::c12m::run();
    }
    let keys = wallet_keys(0, Network::Regtest);
    let mut u = Universe::new(keys.party.clone());
    let birthday = BlockId { height: 0, hash: u.chain.tip() };
    let mut w = network_wallet(&keys, birthday)?;
    let mut saved: Vec<ChangeSet> = vec![];
    let mut applied: BTreeSet<BlockHash> = BTreeSet::new();
    let mut last = check_wallet(&u, &w, &applied)?;
    let n = range(6, 40);
    for _ in 0..n {
        step();
        let op = weighted(&[4, 4, 3, 4, 3, 7, 2, 1]);
        match op {
            0 => {
                u.pay();
                note!("payment");
            }
            1 => {
                u.spend();
                note!("spend");
            }
            2 => {
                u.replace();
                note!("replacement");
            }
            3 => {
                u.mine(2);
                note!("block {}", u.chain.height());
            }
            4 => {
                let d = u.reorg();
                note!("reorganisation of depth {d}");
            }
            5 => {
                let style = if chance(1, 2) { Style::Light } else { Style::Full };
                if style == Style::Light {
                    probe("light delivery");
                }
                let stale = u.chain.hash_at(w.chain().tip().height()) != Some(w.chain().tip().hash());
                deliver(&u, &mut w, &mut applied, style)?;
                if stale {
                    probe("wallet follows a reorganisation");
                }
                note!("delivered up to {} ({style:?})", u.chain.height());
            }
            6 => {
                fault("process restart");
                probe("reloaded");
                saved.extend(w.take_staged());
                w = reload(&saved)?;
                note!("reloaded");
            }
            _ => {
                let l = *pick_from(&[1u32, 2, 77, u32::MAX]);
                let a = guarded("get_labelled_address", || w.get_labelled_address(l))?;
                ensure!(
                    a.as_ref().ok() == Some(&u.party.ref_code(Some(l))),
                    "address",
                    "the address for label {l} is not the protocol's"
                );
                if !u.party.labels.contains(&l) {
                    u.party.labels.push(l);
                    u.published.push(Some(l));
                }
            }
        }
        if op >= 5 {
            let v = check_wallet(&u, &w, &applied)?;
            if v.canonical.values().any(|s| s.is_none()) {
                probe("unconfirmed after a reorganisation");
            }
            let seen = last.canonical.keys().filter(|i| !v.canonical.contains_key(*i)).count();
            if seen > 0 {
                probe("known transaction displaced by a conflict");
            }
            if v.unspent.iter().any(|o| last.canonical.contains_key(&o.txid) && !last.unspent.contains(o)) {
                probe("coin reappears");
            }
            let mut shape: Vec<_> = v.canonical.values().map(|s| s.map(|h| u.chain.height().saturating_sub(h))).collect();
            shape.sort();
            state(&(op, shape, v.unspent.len(), seen));
            last = v;
        }
    }
    // Everything settles: the wallet ends with exactly what the best chain says.
    deliver(&u, &mut w, &mut applied, Style::Full)?;
    saved.extend(w.take_staged());
    let live = check_wallet(&u, &w, &applied)?;
    let w = reload(&saved)?;
    let again = check_wallet(&u, &w, &applied)?;
    // Which of several conflicting unconfirmed transactions counts is not prescribed.
    if live.canonical == again.canonical {
        ensure!(live == again, "reload", "the wallet reports something else after reloading");
    }
    Ok(())
}

pub fn reload(saved: &[ChangeSet]) -> Res<SpWallet> {
    let Some(total) = merge_all(saved) else {
        fail!("reload", "nothing was ever staged");
    };
    let w = guarded("SpWallet::try_from", || SpWallet::try_from(total))?;
    let Ok(w) = w else {
        fail!("reload", "the wallet cannot be reloaded from what it staged");
    };
    Ok(w)
}
