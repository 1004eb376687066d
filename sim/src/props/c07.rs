//! C07: block matching misses no block that matters, even when the tweak server fails.
use super::Property;
use crate::{
    core::*,
    ensure, fail, note,
    p2psim::{run_process, Control, P2p, Shared, Stop, TweakServer},
    seams,
    world::*,
    wsim::*,
};
use bdk_sp_oracles::{
    filters::kyoto::{FilterEvent, FilterSubscriber},
    tweaks::blindbit::{BlindbitSubscriber, TweakEvent},
};
use bip157::{chain::ChainState, sim::Jitter, AddrV2, Builder, HeaderCheckpoint, ServiceFlags, TrustedPeer};
use bitcoin::{secp256k1::PublicKey, BlockHash, Network};
use indexer::{bdk_chain::ConfirmationBlockTime, v2::SpIndexerV2};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    net::Ipv4Addr,
    rc::Rc,
    time::Duration,
};

pub const PROPERTY: Property = Property {
    id: "C07",
    run,
    quick: 3_000,
    thorough: 60_000,
    probes: &[],
    state_rule: "distinct (way the session ended, faults struck, matches, sync notices, reorganisations, relevant blocks of the final chain) tuples",
    must_reach: &[
        "spend of a coin received in the same session",
        "spend of a coin known before",
        "spend in a block without tweaks",
        "several outputs from one payment",
        "labelled payment",
        "payment to the change address only",
        "more than a batch of filters",
        "consumer goes away",
        "consumer goes away between two messages",
        "the node gives up",
        "process killed and restarted",
        "in sync with several notices",
        "tweak server lags behind",
        "notice for a replaced chain",
    ],
    real: &["oracles: BlindbitSubscriber, BlindbitClient, FilterSubscriber, DatabaseBuffer", "indexer (second flavour) deriving scripts", "BIP158 filters, redb on a real file, tokio channels and tasks, rayon"],
    stub: &["the bip157 node: its messages are made by the simulator", "reqwest: requests are answered by the simulated tweak server", "task scheduling, time and file system calls"],
    assumptions: &["the tweak server follows the same best chain as the node, possibly with a delay", "payments are at least 1000 satoshi, the limit the client asks the server to apply", "a branch that was replaced does not become the best one again within a session"],
};

const FILE: &str = "filter_data.redb";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Done,
    Consumer,
    Node,
    Killed,
}

fn run() -> Res {
    let _ = std::fs::remove_file(FILE);
    let r = inner();
    TweakServer::uninstall();
    let _ = std::fs::remove_file(FILE);
    r
}

type Matches = BTreeMap<BlockHash, Vec<HashMap<[u8; 34], PublicKey>>>;

fn inner() -> Res {
    let network = Network::Regtest;
    let mut u = Universe::new(Party::new(0, network));
    u.funded = true;
    u.party.labels.push(0);
    let mut index = SpIndexerV2::<ConfirmationBlockTime>::new(u.party.scan_sk, u.party.spend_pk());
    let _ = index.add_label(0);
    for _ in 0..pick(3) {
        let l = *pick_from(&[1u32, 2, 9, 1 << 20]);
        if !u.party.labels.contains(&l) {
            u.party.labels.push(l);
            u.published.push(Some(l));
            let _ = index.add_label(l);
        }
    }
    let u = Rc::new(RefCell::new(u));
    let node = P2p::new(u.clone());
    let server = TweakServer::new(u.clone());
    server.install();
    // ---- what happened before
    let long = chance(1, 25);
    if long {
        probe("more than a batch of filters");
        let n = *pick_from(&[990u32, 999, 1005]);
        for _ in 0..n {
            u.borrow_mut().mine(0);
        }
    }
    for _ in 0..pick(10) {
        node.event();
    }
    let mut known = 0;
    if chance(1, 2) && !long {
        let mut b = u.borrow_mut();
        b.mine(2);
        known = b.chain.height();
        for h in 1..=known {
            let blk = b.chain.blocks[h as usize].clone();
            let s = b.secrets(&blk, false);
            let _ = guarded("apply_block_relevant", || index.apply_block_relevant(&blk, s, h))?;
        }
    }
    if known > 0 {
        u.borrow_mut().floor = known;
    }
    for _ in 0..pick(14) {
        node.event();
    }
    let sessions = range(1, 2);
    for s in 0..sessions {
        let last = s + 1 == sessions;
        let how = if last {
            [How::Done, How::Consumer, How::Node][weighted(&[6, 1, 1])]
        } else {
            *pick_from(&[How::Killed, How::Node, How::Consumer, How::Done])
        };
        session(&node, &server, &index, known, how)?;
        for _ in 0..pick(6) {
            node.event();
        }
    }
    Ok(())
}

fn session(node: &Rc<P2p>, server: &Rc<TweakServer>, index: &SpIndexerV2<ConfirmationBlockTime>, known: u32, how: How) -> Res {
    let u = node.u.clone();
    node.calm.set(chance(1, 3));
    node.change_rate.set(*pick_from(&[5, 20, 60]));
    node.changes_left.set(pick(14));
    node.pause_ms.set(*pick_from(&[1, 20, 500, 4000]));
    node.chunk.set(*pick_from(&[1, 3, 10, 1000]).max(&(u.borrow().chain.height() / 30)));
    node.dies_at.set((how == How::Node).then(|| range(1, 30)));
    server.fault_rate.set(*pick_from(&[0, 0, 3, 20, 70]));
    server.faults_left.set(pick(40));
    server.delay_ms.set(*pick_from(&[0, 20, 3000, 25_000]));
    server.lag.set(pick(3));
    server.lag_left.set(pick(6));
    if node.calm.get() {
        node.changes_left.set(0);
    }
    let control = Control::new(*pick_from(&[0, 1, 3, 5]), (how == How::Killed).then(|| u64::from(range(1, 150))));
    let birthday = if known > 0 { known + 1 - pick(2) } else { pick(2) };
    let spks: Vec<[u8; 34]> = index
        .index()
        .by_xonly()
        .map(|(x, _)| crate::refmodel::p2tr_spk(&x).to_bytes().try_into().expect("p2tr"))
        .collect();
    let stamp = fault_stamp();
    let matches: Rc<RefCell<Matches>> = Rc::default();
    let verdict: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
    let notices = Rc::new(RefCell::new(0u32));
    seams::disk_start(None, 0, false);
    let limit = Duration::from_secs(48 * 3600);
    let r = {
        let (matches, verdict, notices, u, control2) = (matches.clone(), verdict.clone(), notices.clone(), u.clone(), control.clone());
        let index = index.clone();
        let node2 = node.clone();
        run_process(&control, Some(node.clone()), limit, async move {
            let peer = TrustedPeer::new(AddrV2::Ipv4(Ipv4Addr::new(127, 0, 0, 1)), None, ServiceFlags::P2P_V2);
            let (n, client) = Builder::new(Network::Regtest)
                .chain_state(ChainState::Checkpoint(HeaderCheckpoint::from_genesis(Network::Regtest)))
                .add_peers(vec![peer])
                .required_peers(1)
                .build();
            let (changes_tx, changes_rx) = bip157::tokio::sync::mpsc::unbounded_channel::<FilterEvent>();
            let (matches_tx, matches_rx) = bip157::tokio::sync::mpsc::unbounded_channel::<TweakEvent>();
            let made = guarded("BlindbitSubscriber::new", || {
                BlindbitSubscriber::new(spks, index, "http://tweaks.example".into(), changes_rx, matches_tx)
            })?;
            let Ok((mut blindbit, buffer)) = made else { fail!("setup", "the subscriber cannot be set up") };
            let mut filters = FilterSubscriber::new(buffer, client.event_rx, changes_tx, birthday);
            let requester = client.requester;
            let (mut info_rx, mut warn_rx) = (client.info_rx, client.warn_rx);
            bip157::tokio::spawn(async move { n.run().await });
            let b = bip157::tokio::spawn(async move { blindbit.run().await });
            let f = bip157::tokio::spawn(async move { filters.run().await });
            bip157::tokio::spawn(async move {
                while info_rx.recv().await.is_some() {}
                while warn_rx.recv().await.is_some() {}
            });
            let shared = Shared::new(matches_rx);
            let mut leaves = u32::MAX;
            if how == How::Consumer {
                probe("consumer goes away");
                fault("consumer goes away");
                if chance(1, 2) {
                    shared.leave_at_send(pick(12));
                } else {
                    leaves = pick(6);
                }
            }
            let slow = chance(1, 4);
            let consumer = {
                let shared = shared.clone();
                async move {
                    let mut n = 0;
                    while n < leaves {
                        let Some(e) = shared.recv().await else { break };
                        n += 1;
                        control2.progress();
                        match e {
                            TweakEvent::Matches((hash, map)) => {
                                note!("match {hash}");
                                matches.borrow_mut().entry(hash).or_default().push(map);
                            }
                            TweakEvent::Synced(tip) => {
                                *notices.borrow_mut() += 1;
                                note!("synced {}", tip.height);
                                let r = check(&u.borrow(), &matches.borrow(), birthday, tip.hash, tip.height);
                                let wrong = r.is_err();
                                if wrong {
                                    *verdict.borrow_mut() = r;
                                    return true;
                                }
                                if node2.changes_left.get() == 0 && tip.hash == u.borrow().chain.tip() {
                                    if how == How::Done {
                                        let _ = requester.shutdown();
                                        return true;
                                    }
                                    leaves = n;
                                }
                            }
                        }
                        if slow {
                            tokio::time::sleep(Duration::from_millis(u64::from(pick(2000)))).await;
                        }
                    }
                    shared.close();
                    // It keeps the node alive, as a program would that is busy elsewhere.
                    if how == How::Consumer {
                        node2.changes_left.set(0);
                        tokio::time::sleep(Duration::from_secs(60)).await;
                        let _ = requester.shutdown();
                    }
                    false
                }
            };
            let done = Jitter::new(consumer).await;
            let f = f.await;
            let b = b.await;
            drop(shared);
            Ok((done, f.map(|_| ()), b))
        })
    };
    bip157::sim::on_send(None);
    seams::disk_stop();
    let struck = fault_stamp() != stamp;
    let (n, m) = (*notices.borrow(), matches.borrow().len());
    if n > 1 {
        probe("in sync with several notices");
    }
    state(&(how as u8, struck, m.min(12), n.min(6), node.reorgs.get().min(4)));
    verdict.replace(Ok(()))?;
    if let Some(b) = server.bad.borrow_mut().take() {
        fail!("request", "the tweak server was asked for {b}");
    }
    match r {
        Err(Stop::Killed) => {
            fault("process killed");
            probe("process killed and restarted");
        }
        Err(s) => fail!("stuck", "matching does not get anywhere any more ({how:?}): {s:?}"),
        Ok(r) => {
            let (done, f, b) = r?;
            ensure!(f.is_ok() && b.is_ok(), "panic", "matching panicked ({how:?})");
            if how == How::Node {
                probe("the node gives up");
            }
            if how == How::Done {
                ensure!(done, "ended-early", "matching ended before the final sync notice");
            }
        }
    }
    Ok(())
}

/// All blocks that matter were matched when the sync notice for this tip arrived.
fn check(u: &Universe, matches: &Matches, birthday: u32, tip: BlockHash, height: u32) -> Res {
    let Some((h, _)) = u.chain.by_hash.get(&tip) else {
        fail!("made-up-notice", "a sync notice for a block nobody ever saw");
    };
    ensure!(*h == height, "notice", "the sync notice gives height {height} to the block at {h}");
    if u.chain.blocks.get(height as usize).map(|b| b.block_hash()) != Some(tip) {
        // Replaced in the meantime: the server has the tweaks of the new chain, another notice is due.
        probe("notice for a replaced chain");
        return Ok(());
    }
    let final_chain = tip == u.chain.tip();
    let mut at = tip;
    loop {
        let (h, b) = &u.chain.by_hash[&at];
        if *h == 0 || *h < birthday {
            break;
        }
        let got = matches.get(&at);
        if u.matters(b) {
            let paid = b.txdata.iter().any(|t| u.txs.get(&t.compute_txid()).is_some_and(|r| !r.found.is_empty()));
            let spends = b.txdata.iter().any(|t| t.input.iter().any(|i| is_owned(u, &i.previous_output)));
            if spends {
                let known_before = b.txdata.iter().flat_map(|t| &t.input).any(|i| {
                    is_owned(u, &i.previous_output)
                        && u.on_chain().get(&i.previous_output.txid).is_some_and(|(p, _)| *p < birthday)
                });
                probe(if known_before { "spend of a coin known before" } else { "spend of a coin received in the same session" });
                if TweakServer::tweaks(u, b).is_empty() {
                    probe("spend in a block without tweaks");
                }
            }
            if got.is_none() {
                for i in b.txdata.iter().flat_map(|t| &t.input).filter(|i| is_owned(u, &i.previous_output)) {
                    let r = &u.txs[&i.previous_output.txid];
                    note!(
                        "spent: vout {} of {:?}, confirmed {:?}, birthday {birthday}",
                        i.previous_output.vout,
                        r.found.iter().map(|f| (f.vout, f.label, r.tx.output[f.vout as usize].value.to_sat())).collect::<Vec<_>>(),
                        u.on_chain().get(&i.previous_output.txid).map(|p| p.0)
                    );
                }
            }
            ensure!(
                got.is_some(),
                "missed",
                "in sync at {height}, but block {h} ({}{}) was never matched",
                if paid { "pays the wallet" } else { "" },
                if spends { " spends from it" } else { "" }
            );
        }
        if let Some(maps) = got {
            let server = TweakServer::tweaks(u, b);
            for t in &b.txdata {
                let Some(r) = u.txs.get(&t.compute_txid()).filter(|r| !r.found.is_empty()) else { continue };
                if r.found.len() > 1 {
                    probe("several outputs from one payment");
                }
                if r.found.iter().all(|f| f.label == Some(0)) {
                    probe("payment to the change address only");
                }
                if r.found.iter().any(|f| f.label.is_some_and(|l| l > 0)) {
                    probe("labelled payment");
                }
                let there = maps.iter().any(|m| {
                    t.output.iter().any(|o| {
                        <[u8; 34]>::try_from(o.script_pubkey.as_bytes()).is_ok_and(|s| m.get(&s).copied() == r.tweak)
                    })
                });
                ensure!(there, "tweak-missing", "block {h} was matched without the tweak of a payment to the wallet in it");
            }
            if final_chain {
                for (_, t) in maps.last().expect("not empty") {
                    ensure!(server.contains(t), "tweak-wrong", "block {h} was matched with a tweak of another block");
                }
            }
        }
        at = b.header.prev_blockhash;
    }
    Ok(())
}
