//! The first command line wallet as a simulated process: its real `main` on a simulated disk,
//! clock and node.
use crate::{
    core::*,
    ensure, fail,
    seams::{self, DiskFault},
    wsim::{is_owned, Keys, Universe},
};
use bitcoin::{OutPoint, Txid};
use indexer::bdk_chain::{CanonicalizationParams, ChainOracle, ChainPosition};
use serde_json::Value;
use sim_cli1::program;
use std::collections::{BTreeMap, BTreeSet};

pub const DB: &str = ".bdk_example_silentpayments.db";
pub const MAGIC: &[u8] = b"bdk_example_silentpayments";

pub struct Cli1 {
    pub scan_desc: String,
    pub spend_desc: String,
    pub code: String,
}

#[derive(Debug)]
pub enum End {
    Ok(Vec<String>),
    Err(String),
    /// The process died at a simulated crash.
    Died,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct DiskPlan {
    pub fault: Option<(u64, DiskFault)>,
    pub cut: u64,
    pub nasty: bool,
}

/// Empty the working directory, which is the run's own.
pub fn clean() {
    for e in std::fs::read_dir(".").expect("scratch") {
        let p = e.expect("entry").path();
        let name = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        if name.starts_with(".bdk") || name.ends_with(".redb") || name.contains("silentpayments") {
            let _ = std::fs::remove_file(&p);
        }
    }
}

impl Cli1 {
    pub fn new(keys: &Keys) -> Self {
        let base = keys.desc.trim_end_matches(')');
        Self {
            scan_desc: format!("{base}/352h/1h/0h/1h/0)"),
            spend_desc: format!("{base}/352h/1h/0h/0h/0)"),
            code: keys.party.ref_code(None).to_string(),
        }
    }

    /// One process from start to end.
    pub fn call(&self, args: &[&str], plan: DiskPlan) -> Res<(End, seams::DiskReport)> {
        let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        sim_cli1::take_output();
        seams::disk_start(plan.fault, plan.cut, plan.nasty);
        let what = format!("sp-cli1 {}", args[0]);
        let r = guarded(&what, || sim_cli1::run(&args));
        let report = seams::disk_stop();
        if report.died {
            return Ok((End::Died, report));
        }
        let out = sim_cli1::take_output();
        Ok(match r? {
            Ok(()) => (End::Ok(out), report),
            Err(e) => (End::Err(format!("{e:#}")), report),
        })
    }

    pub fn clean_call(&self, args: &[&str]) -> Res<Vec<String>> {
        match self.call(args, DiskPlan::default())?.0 {
            End::Ok(o) => Ok(o),
            End::Err(e) => fail!("command", "sp-cli1 {} fails without any fault: {e}", args[0]),
            End::Died => unreachable!("no crash was planned"),
        }
    }

    pub fn init_args(&self) -> Vec<&str> {
        vec!["init", "--network", "regtest", "--scan", &self.scan_desc, "--spend", &self.spend_desc]
    }

    pub fn scan_args(&self) -> Vec<&str> {
        vec!["scan", "--scan", &self.scan_desc, "--code", &self.code, "--url", "127.0.0.1:18443"]
    }

    /// What the next process finds on the disk.
    pub fn open(&self) -> Res<program::Init> {
        clap_args(&["balance"]);
        let r = guarded("init_or_load", || program::init_or_load(MAGIC, DB))?;
        match r {
            Ok(Some(i)) => Ok(i),
            Ok(None) => fail!("open", "the stored wallet cannot be opened"),
            Err(e) => fail!("open", "the stored wallet cannot be opened: {e:#}"),
        }
    }
}

fn clap_args(a: &[&str]) {
    clap::sim_args(a.iter().map(|s| s.to_string()).collect());
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Coins {
    pub confirmed: BTreeMap<OutPoint, u64>,
    pub trusted: u64,
    pub untrusted: u64,
    pub canonical: BTreeMap<Txid, Option<u32>>,
}

/// Everything the stored wallet reports, checked for soundness: no coin, amount, label or
/// confirmation that is not true of the chain it reports.
pub fn report(u: &Universe, cli: &Cli1) -> Res<(Coins, u32, bitcoin::BlockHash)> {
    let init = cli.open()?;
    let chain = init.chain.into_inner().expect("lock");
    let graph = init.graph.into_inner().expect("lock");
    let tip = chain.get_chain_tip().expect("infallible");
    let mut coins = Coins::default();
    for c in graph.list_canonical_txs(&chain, tip, CanonicalizationParams::default()) {
        let h = match c.chain_position {
            ChainPosition::Confirmed { anchor, .. } => Some(anchor.block_id.height),
            ChainPosition::Unconfirmed { .. } => None,
        };
        let id = c.tx_node.txid;
        // Only transactions of the wallet count; previous outputs are kept as partial ones.
        let Some(r) = u.txs.get(&id) else {
            fail!("foreign-tx", "transaction {id} was never made by anybody");
        };
        let mine = !r.found.is_empty() || r.tx.input.iter().any(|i| is_owned(u, &i.previous_output));
        ensure!(mine, "foreign-tx", "transaction {id} is none of the wallet's");
        if let Some(h) = h {
            let there = chain.get(h).is_some_and(|cp| {
                u.chain
                    .by_hash
                    .get(&cp.hash())
                    .is_some_and(|(bh, b)| *bh == h && b.txdata.iter().any(|t| t.compute_txid() == id))
            });
            ensure!(there, "confirmed-wrongly", "transaction {id} is reported as confirmed at {h}, where it is not");
        }
        coins.canonical.insert(id, h);
    }
    // What is saved is a state the wallet was in: nothing is missing from the blocks below its tip,
    // which no later scan looks at again.
    for (id, h) in u.confirmed_below(tip.hash) {
        ensure!(
            coins.canonical.get(&id) == Some(&Some(h)),
            "saved-incomplete",
            "the saved tip is {}, and a transaction of the wallet confirmed at {h} on that chain is reported as {:?}",
            tip.height,
            coins.canonical.get(&id)
        );
    }
    for (op, s) in &init.indexes.spouts {
        let owned = u.txs.get(&op.txid).and_then(|r| r.found.iter().find(|f| f.vout == op.vout).map(|f| (r, f)));
        let Some((r, f)) = owned else {
            fail!("false-output", "{op} is reported as the wallet's and is not");
        };
        let out = &r.tx.output[op.vout as usize];
        ensure!(
            s.outpoint == *op && s.amount == out.value && s.script_pubkey == out.script_pubkey && s.label == f.label && s.tweak.secret_bytes() == f.tweak,
            "output-wrong",
            "{op} is reported with another amount, script, label or tweak"
        );
    }
    let unspent: Vec<_> = graph
        .filter_chain_unspents(
            &chain,
            tip,
            CanonicalizationParams::default(),
            init.indexes.spouts.iter().map(|(op, s)| (s.clone(), *op)),
        )
        .collect();
    for (s, txo) in &unspent {
        let sat = txo.txout.value.to_sat();
        match &txo.chain_position {
            ChainPosition::Confirmed { .. } => {
                coins.confirmed.insert(txo.outpoint, sat);
            }
            ChainPosition::Unconfirmed { .. } if s.label == Some(0) => coins.trusted += sat,
            ChainPosition::Unconfirmed { .. } => coins.untrusted += sat,
        }
    }
    // The reported coins are the outputs of the reported transactions that none of them spends.
    let spent: BTreeSet<OutPoint> = coins
        .canonical
        .keys()
        .flat_map(|id| u.txs[id].tx.input.iter().map(|i| i.previous_output))
        .collect();
    let mut want = Coins { canonical: coins.canonical.clone(), ..Default::default() };
    for (id, h) in &coins.canonical {
        let r = &u.txs[id];
        for f in &r.found {
            let op = OutPoint::new(*id, f.vout);
            if spent.contains(&op) {
                continue;
            }
            let sat = r.tx.output[f.vout as usize].value.to_sat();
            match (h, f.label) {
                (Some(_), _) => {
                    want.confirmed.insert(op, sat);
                }
                (None, Some(0)) => want.trusted += sat,
                (None, _) => want.untrusted += sat,
            }
        }
    }
    ensure!(coins == want, "coins", "reported coins {coins:?} are not those of the reported transactions {want:?}");
    Ok((coins, tip.height, tip.hash))
}

/// After a scan against a chain that stands still: exactly the truth.
pub fn check_synced(u: &Universe, coins: &Coins, height: u32, hash: bitcoin::BlockHash) -> Res {
    ensure!(
        height == u.chain.height() && hash == u.chain.tip(),
        "tip",
        "after scanning everything the wallet's tip is {height}, the chain's is {}",
        u.chain.height()
    );
    let on_chain = u.on_chain();
    for (id, (h, _)) in &on_chain {
        let r = &u.txs[id];
        let mine = !r.found.is_empty() || r.tx.input.iter().any(|i| is_owned(u, &i.previous_output));
        if mine {
            ensure!(
                coins.canonical.get(id) == Some(&Some(*h)),
                "confirmed-lost",
                "a transaction of the wallet confirmed at {h} ({} outputs to it, {} inputs) is reported as {:?}",
                r.found.len(),
                r.tx.input.len(),
                coins.canonical.get(id)
            );
        }
    }
    for (id, h) in &coins.canonical {
        ensure!(
            h.is_none() || on_chain.contains_key(id),
            "confirmed-wrongly",
            "transaction {id} is not on the chain"
        );
    }
    Ok(())
}

/// The printed balance agrees with the stored state.
pub fn check_balance(cli: &Cli1, coins: &Coins) -> Res {
    let out = cli.clean_call(&["balance"])?;
    let docs: Vec<Value> = out.iter().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let get = |a: &str, b: &str| docs.iter().find_map(|d| d.get(a)?.get(b)?.as_u64());
    let sum: u64 = coins.confirmed.values().sum();
    let got = (
        get("confirmed", "total"),
        get("confirmed", "spendable"),
        get("unconfirmed", "total"),
        get("unconfirmed", "trusted"),
        get("unconfirmed", "untrusted"),
    );
    let want = (
        Some(sum),
        Some(sum),
        Some(coins.trusted + coins.untrusted),
        Some(coins.trusted),
        Some(coins.untrusted),
    );
    ensure!(got == want, "balance", "printed balance {got:?} instead of {want:?}");
    Ok(())
}
