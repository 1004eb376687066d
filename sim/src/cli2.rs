//! The second command line wallet as a simulated process: its real `main` with the tasks it starts,
//! on a simulated disk, clock, network and scheduler.
use crate::{
    cli1::{DiskPlan, End},
    core::*,
    ensure, fail,
    p2psim::{run_process, Control, P2p, Stop},
    seams,
    wsim::{check_known, keys_of, Keys, Universe, View},
};
use bdk_sp_wallet::SpWallet;
use bitcoin::{bip32::Xpriv, BlockHash, Network, Txid};
use sim_cli2::program;
use std::{
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    str::FromStr,
    time::Duration,
};

pub const DB: &str = ".bdk_example_silentpayments.db";
pub const MAGIC: &[u8] = b"bdk_example_silentpayments";

#[derive(Clone, Copy, Default)]
pub struct Plan {
    pub disk: DiskPlan,
    /// Killed after this many runs of its tasks.
    pub kill_at: Option<u64>,
    pub jitter: u32,
}

pub struct Ended {
    pub end: End,
    pub report: seams::DiskReport,
    /// Panics inside the tasks it started.
    pub panics: u64,
}

/// One process from start to end.
pub fn call(args: &[&str], node: Option<Rc<P2p>>, plan: Plan) -> Res<Ended> {
    let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    sim_cli2::take_output();
    let what = format!("sp-cli2 {}", args[0]);
    bip157::sim::panics();
    let control = Control::new(plan.jitter, plan.kill_at);
    seams::disk_start(plan.disk.fault, plan.disk.cut, plan.disk.nasty);
    let limit = Duration::from_secs(48 * 3600);
    let r = guarded(&what, || run_process(&control, node, limit, sim_cli2::run(&args)));
    let report = seams::disk_stop();
    let panics = bip157::sim::panics();
    let out = sim_cli2::take_output();
    if report.died {
        return Ok(Ended { end: End::Died, report, panics });
    }
    let end = match r? {
        Err(Stop::Killed) => End::Died,
        Err(s) => fail!("stuck", "{what} does not get anywhere any more: {s:?}"),
        Ok(Ok(())) => End::Ok(out),
        Ok(Err(e)) => End::Err(format!("{e:#}")),
    };
    Ok(Ended { end, report, panics })
}

pub fn clean_call(args: &[&str]) -> Res<Vec<String>> {
    match call(args, None, Plan::default())?.end {
        End::Ok(o) => Ok(o),
        End::Err(e) => fail!("command", "sp-cli2 {} fails without any fault: {e}", args[0]),
        End::Died => unreachable!("no crash was planned"),
    }
}

thread_local! {
    static DESC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// The descriptor printed last.
pub fn descriptor() -> String {
    DESC.with(|d| d.borrow().clone())
}

/// The keys `create` has printed.
pub fn printed_keys(out: &[String]) -> Option<Keys> {
    let doc: serde_json::Value = out.iter().find_map(|l| serde_json::from_str(l).ok())?;
    let desc = doc.get("tr_xprv")?.as_str()?;
    let xprv = desc.split(']').nth(1)?.trim_end_matches(')');
    let master = Xpriv::from_str(xprv).ok()?;
    let mut keys = keys_of(0, master, Network::Regtest);
    keys.desc = desc.to_string();
    DESC.with(|d| *d.borrow_mut() = desc.to_string());
    Some(keys)
}

/// What the next process finds on the disk.
pub fn open() -> Res<SpWallet> {
    clap::sim_args(vec!["balance".into()]);
    let r = guarded("init_or_load", || program::init_or_load(MAGIC, DB))?;
    match r {
        Ok(Some(i)) => Ok(i.wallet),
        Ok(None) => fail!("open", "the stored wallet cannot be opened"),
        Err(e) => fail!("open", "the stored wallet cannot be opened: {e:#}"),
    }
}

/// Everything the stored wallet reports, checked for soundness: no coin, amount, label or
/// confirmation that is not true of the chain it reports, and nothing missing below its tip.
pub fn report(u: &Universe) -> Res<(View, u32, BlockHash)> {
    let w = open()?;
    // Whether a light client notices that a script was paid once more is left to it.
    let mut with_more: Option<Universe> = None;
    for op in w.indexer().index().by_shared_secret.keys() {
        if crate::wsim::is_owned(u, op) {
            continue;
        }
        if let Some(f) = u.paid_again(op) {
            probe("script paid again is noticed");
            with_more.get_or_insert_with(|| u.clone()).txs.get_mut(&op.txid).expect("known").found.push(f);
        }
    }
    let u = with_more.as_ref().unwrap_or(u);
    let mut known: BTreeMap<Txid, BTreeSet<(u32, BlockHash)>> = BTreeMap::new();
    for (id, anchors) in w.graph().all_anchors() {
        let Some(r) = u.txs.get(id) else {
            fail!("foreign-tx", "transaction {id} was never made by anybody");
        };
        ensure!(u.is_mine(r), "foreign-tx", "transaction {id} is none of the wallet's");
        for a in anchors {
            let at = a.block_id;
            let there = u
                .chain
                .by_hash
                .get(&at.hash)
                .is_some_and(|(h, b)| *h == at.height && b.txdata.iter().any(|t| t.compute_txid() == *id));
            ensure!(there, "confirmed-wrongly", "transaction {id} is said to be in block {} and is not", at.height);
            known.entry(*id).or_default().insert((at.height, at.hash));
        }
    }
    for n in w.graph().full_txs() {
        ensure!(known.contains_key(&n.txid), "foreign-tx", "transaction {} was never in a block", n.txid);
    }
    for cp in w.chain().iter_checkpoints() {
        let real = u.chain.by_hash.get(&cp.hash()).is_some_and(|(h, _)| *h == cp.height());
        ensure!(real, "made-up-block", "the wallet's chain has a block at {} that nobody ever saw", cp.height());
    }
    // The wallet's chain is one chain.
    let mut below: Option<indexer::bdk_chain::CheckPoint> = None;
    for cp in w.chain().iter_checkpoints() {
        if let Some(above) = below.take() {
            let mut at = above.hash();
            while u.chain.by_hash[&at].0 > cp.height() {
                at = u.chain.by_hash[&at].1.header.prev_blockhash;
            }
            ensure!(at == cp.hash(), "mixed-chain", "the wallet's blocks at {} and {} are not on one chain", cp.height(), above.height());
        }
        below = Some(cp);
    }
    let v = check_known(u, &w, known)?;
    let tip = w.chain().tip();
    for (id, h) in u.confirmed_below(tip.hash()) {
        ensure!(
            v.canonical.get(&id) == Some(&Some(h)),
            "saved-incomplete",
            "the saved tip is {}, and a transaction of the wallet confirmed at {h} on that chain is reported as {:?}, paying {:?}, spending {}",
            tip.height(),
            v.canonical.get(&id),
            u.txs[&id].found.iter().map(|f| (f.label, u.txs[&id].tx.output[f.vout as usize].value.to_sat())).collect::<Vec<_>>(),
            u.txs[&id].inputs.len()
        );
    }
    for (op, f) in u.owned_outputs() {
        let known = w.indexer().index().by_shared_secret.get(&op).is_some();
        if known {
            let labelled = w.indexer().index().by_label.iter().any(|(l, o)| *l == f.label && *o == op);
            ensure!(labelled, "label", "{op} is not reported under its label {:?}", f.label);
        }
    }
    Ok((v, tip.height(), tip.hash()))
}

/// After synchronising with a chain that stands still: exactly the truth.
pub fn check_synced(u: &Universe, v: &View, height: u32, hash: BlockHash) -> Res {
    ensure!(
        height == u.chain.height() && hash == u.chain.tip(),
        "tip",
        "in sync, but the wallet's tip is {height}, the chain's is {}",
        u.chain.height()
    );
    let on_chain = u.on_chain();
    for (id, (h, _)) in &on_chain {
        let Some(r) = u.txs.get(id).filter(|r| u.is_mine(r)) else { continue };
        ensure!(
            v.canonical.get(id) == Some(&Some(*h)),
            "confirmed-lost",
            "a transaction of the wallet confirmed at {h} ({} outputs to it, {} inputs) is reported as {:?}",
            r.found.len(),
            r.tx.input.len(),
            v.canonical.get(id)
        );
    }
    for (id, h) in &v.canonical {
        ensure!(h.is_none() || on_chain.contains_key(id), "confirmed-wrongly", "transaction {id} is not on the chain");
    }
    Ok(())
}

/// The printed balance agrees with the stored state.
pub fn check_balance(v: &View) -> Res {
    let out = clean_call(&["balance"])?;
    let docs: Vec<serde_json::Value> = out.iter().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let get = |a: &str, b: &str| docs.iter().find_map(|d| d.get(a)?.get(b)?.as_u64());
    let got = (
        get("confirmed", "total"),
        get("confirmed", "spendable"),
        get("unconfirmed", "total"),
        get("unconfirmed", "trusted"),
        get("unconfirmed", "untrusted"),
    );
    let want = (Some(v.confirmed), Some(v.confirmed), Some(v.trusted + v.untrusted), Some(v.trusted), Some(v.untrusted));
    ensure!(got == want, "balance", "printed balance {got:?} instead of {want:?}");
    Ok(())
}
