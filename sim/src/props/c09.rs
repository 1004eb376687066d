//! C09: scanning through a full node's RPC interface converges to the wallet's true coins after
//! any trouble.
use super::Property;
use crate::{
    cli1::{self, Cli1, DiskPlan, End},
    cli2::{self, Plan},
    core::*,
    ensure, fail, note,
    p2psim::{P2p, TweakServer},
    props::c08,
    rpcsim::Node,
    seams::{self, DiskFault},
    wsim::*,
};
use bitcoin::Network;
use std::{cell::RefCell, rc::Rc};

pub const PROPERTY: Property = Property {
    id: "C09",
    run,
    quick: 2_500,
    thorough: 60_000,
    probes: &[],
    state_rule: "distinct (way the scan ended, faults and chain changes during it, shape of the reported coins, blocks behind) tuples",
    must_reach: &[
        "scan interrupted by an error",
        "scan killed",
        "commit in the middle of a scan",
        "node does not know the transaction any more",
        "reorganisation between scans",
        "transaction mined again after a reorganisation",
        "spend without a taproot output",
        "labelled address",
        "scanned in both ways",
    ],
    real: &["cli/v1: the whole program", "cli/v2: the whole program with its scan-rpc command", "wallet, indexer (both flavours), Custom prevout lookups", "bdk_bitcoind_rpc Emitter, bitcoincore-rpc client, JSON-RPC encoding", "bdk_file_store on real files"],
    stub: &["the HTTP transport of the jsonrpc crate: requests are answered by the simulated node", "clap: real parser, arguments handed over by the simulator", "bdk_tx (not available offline)", "clock and file system calls: simulated time, faults injected into real files"],
    assumptions: &["the node is honest and keeps an index of all transactions of its chain and mempool"],
};

fn run() -> Res {
    if chance(2, 5) {
        second_cli()
    } else {
        first_cli()
    }
}

fn second_cli() -> Res {
    cli1::clean();
    seams::clock_start();
    let r = second_cli_inner();
    seams::clock_stop();
    Node::uninstall();
    TweakServer::uninstall();
    cli1::clean();
    r
}

const SCAN2: [&str; 3] = ["scan-rpc", "--url", "127.0.0.1:18443"];

fn second_cli_inner() -> Res {
    let u = Rc::new(RefCell::new(c08::create()?));
    let node = Node::new(u.clone());
    node.install();
    let p2p = P2p::new(u.clone());
    let server = TweakServer::new(u.clone());
    server.install();
    let sessions = range(1, 5);
    for s in 0..sessions {
        for _ in 0..pick(8) {
            node.event();
        }
        if chance(1, 5) {
            let crash = chance(1, 3);
            c08::label(&u, crash)?;
        }
        if chance(1, 8) {
            // The two ways of scanning work on the same wallet.
            p2p.calm.set(true);
            let e = cli2::call(&["scan-cbf", "http://tweaks.example"], Some(p2p.clone()), Plan::default())?;
            if let End::Err(e) = e.end {
                fail!("sync-fails", "scanning filters fails without any fault: {e}");
            }
            probe("scanned in both ways");
            let (v, h, hash) = cli2::report(&u.borrow())?;
            cli2::check_synced(&u.borrow(), &v, h, hash)?;
        }
        if chance(1, 3) {
            probe("reorganisation between scans");
            u.borrow_mut().reorg();
        }
        // ---- a scan with trouble
        node.calm.set(false);
        node.fault_rate.set(*pick_from(&[0, 0, 1, 4, 20]));
        node.change_rate.set(*pick_from(&[0, 0, 2, 10]));
        node.slow_ms.set(*pick_from(&[0, 50, 4000, 30_000]));
        node.kill_at.set(chance(1, 6).then(|| node.calls.get() + u64::from(range(1, *pick_from(&[10, 60, 300])))));
        let plan = Plan { disk: disk_plan(true), ..Plan::default() };
        let (misses, before) = (node.misses.get(), reorg_count(&u));
        let stamp = fault_stamp();
        let e = cli2::call(&SCAN2, None, plan)?;
        note_fault(&plan.disk, e.report.hit);
        node.calm.set(true);
        node.kill_at.set(None);
        let trouble = fault_stamp() != stamp || node.misses.get() != misses || e.report.hit;
        if reorg_count(&u) != before {
            probe("reorganisation during a scan");
        }
        let how = match &e.end {
            End::Ok(out) => {
                if out.iter().filter(|l| l.contains("committed to db")).count() > 1 {
                    probe("commit in the middle of a scan");
                }
                0u8
            }
            End::Err(e) => {
                probe("scan interrupted by an error");
                ensure!(trouble, "scan-fails", "scanning fails although nothing went wrong: {e}");
                1
            }
            End::Died => {
                probe("scan killed");
                2
            }
        };
        note!("v2 session {s}: scan ended {:?} at height {}", e.end, u.borrow().chain.height());
        let (v, h, hash) = cli2::report(&u.borrow())?;
        if how == 0 && !trouble {
            cli2::check_synced(&u.borrow(), &v, h, hash)?;
        }
        if chance(1, 4) {
            cli2::check_balance(&v)?;
        }
        let unconf = v.canonical.values().filter(|x| x.is_none()).count();
        state(&(2u8, how, trouble, v.canonical.len().min(8), v.unspent.len().min(8), unconf.min(3), u.borrow().chain.height().saturating_sub(h).min(4)));
    }
    // ---- the trouble is over
    if chance(1, 3) {
        u.borrow_mut().reorg();
    }
    u.borrow_mut().mine(2);
    node.calm.set(true);
    node.slow_ms.set(0);
    let e = cli2::call(&SCAN2, None, Plan::default())?;
    if let End::Err(e) = e.end {
        fail!("scan-fails", "scanning still fails after the trouble is over: {e}");
    }
    let (v, h, hash) = cli2::report(&u.borrow())?;
    cli2::check_synced(&u.borrow(), &v, h, hash)?;
    cli2::check_balance(&v)?;
    if chance(1, 3) {
        cli2::clean_call(&SCAN2)?;
        let again = cli2::report(&u.borrow())?;
        ensure!(again == (v, h, hash), "rescan", "scanning again without news changes the coins");
    }
    Ok(())
}

fn disk_plan(crashes: bool) -> DiskPlan {
    let fault = if crashes && chance(1, 4) {
        let scale = *pick_from(&[4u32, 40, 400, 2000]);
        let n = u64::from(range(1, scale));
        let kind = match weighted(&[4, 1, 1]) {
            0 => DiskFault::Crash,
            1 => DiskFault::Full,
            _ => DiskFault::Error,
        };
        Some((n, kind))
    } else {
        None
    };
    DiskPlan { fault, cut: u64::from(pick(1 << 20)), nasty: chance(1, 3) }
}

/// Always a fault, at one of the first operations, of a number drawn from the scales.
pub fn disk_plan_in(scales: &[u32]) -> DiskPlan {
    let n = u64::from(range(1, *pick_from(scales)));
    let kind = match weighted(&[4, 1, 1]) {
        0 => DiskFault::Crash,
        1 => DiskFault::Full,
        _ => DiskFault::Error,
    };
    DiskPlan { fault: Some((n, kind)), cut: u64::from(pick(1 << 20)), nasty: chance(1, 3) }
}

pub fn note_fault(plan: &DiskPlan, hit: bool) {
    if let (true, Some((_, k))) = (hit, plan.fault) {
        match k {
            DiskFault::Crash => fault("crash during a write"),
            DiskFault::Full => fault("disk full"),
            DiskFault::Error => fault("write error"),
        }
    }
    if plan.nasty {
        fault("short and interrupted writes");
    }
}

fn first_cli() -> Res {
    cli1::clean();
    let keys = wallet_keys(0, Network::Regtest);
    let mut u = Universe::new(keys.party.clone());
    u.funded = true;
    let u = Rc::new(RefCell::new(u));
    let cli = Cli1::new(&keys);
    let node = Node::new(u.clone());
    node.install();
    seams::clock_start();
    let r = first_cli_inner(&u, &cli, &node);
    seams::clock_stop();
    Node::uninstall();
    cli1::clean();
    r
}

fn first_cli_inner(u: &Rc<RefCell<Universe>>, cli: &Cli1, node: &Rc<Node>) -> Res {
    cli.clean_call(&cli.init_args())?;
    let sessions = range(1, 6);
    for s in 0..sessions {
        for _ in 0..pick(8) {
            let before = u.borrow().chain.height();
            node.event();
            if u.borrow().chain.height() <= before {
                step();
            }
        }
        if chance(1, 5) {
            label(u, cli)?;
        }
        // ---- a scan with trouble
        node.calm.set(false);
        node.fault_rate.set(*pick_from(&[0, 0, 1, 4, 20]));
        node.change_rate.set(*pick_from(&[0, 0, 2, 10]));
        node.slow_ms.set(*pick_from(&[0, 50, 4000, 30_000]));
        node.kill_at.set(chance(1, 8).then(|| node.calls.get() + u64::from(range(1, *pick_from(&[10, 60, 300])))));
        let plan = disk_plan(true);
        let (faults, before) = (node.misses.get(), reorg_count(u));
        let stamp = fault_stamp();
        let (end, rep) = cli.call(&cli.scan_args(), plan)?;
        note_fault(&plan, rep.hit);
        node.calm.set(true);
        node.kill_at.set(None);
        let trouble = fault_stamp() != stamp || node.misses.get() != faults || rep.hit;
        if reorg_count(u) != before {
            probe("reorganisation during a scan");
        }
        let how = match &end {
            End::Ok(out) => {
                if out.iter().filter(|l| l.contains("committed to db")).count() > 1 {
                    probe("commit in the middle of a scan");
                }
                0u8
            }
            End::Err(e) => {
                probe("scan interrupted by an error");
                ensure!(trouble, "scan-fails", "scanning fails although nothing went wrong: {e}");
                1
            }
            End::Died => {
                probe("scan killed");
                2
            }
        };
        note!("session {s}: scan ended {end:?} at height {}", u.borrow().chain.height());
        let (coins, h, hash) = cli1::report(&u.borrow(), cli)?;
        if how == 0 && !trouble {
            cli1::check_synced(&u.borrow(), &coins, h, hash)?;
        }
        if chance(1, 4) {
            cli1::check_balance(cli, &coins)?;
        }
        let unconf = coins.canonical.values().filter(|x| x.is_none()).count();
        state(&(how, trouble, coins.canonical.len().min(8), coins.confirmed.len().min(8), unconf.min(3), u.borrow().chain.height().saturating_sub(h).min(4)));
        if chance(1, 3) {
            probe("reorganisation between scans");
            u.borrow_mut().reorg();
        }
    }
    // ---- the trouble is over
    u.borrow_mut().mine(2);
    {
        let u = u.borrow();
        let on = u.on_chain();
        for (id, _) in on.iter() {
            let places = u.chain.by_hash.values().filter(|(_, b)| b.txdata.iter().any(|t| t.compute_txid() == *id)).count();
            if places > 1 && !u.txs[id].found.is_empty() {
                probe("transaction mined again after a reorganisation");
            }
            let r = &u.txs[id];
            if r.tx.input.iter().any(|i| is_owned(&u, &i.previous_output)) && !r.tx.output.iter().any(|o| o.script_pubkey.is_p2tr()) {
                probe("spend without a taproot output");
            }
        }
    }
    node.calm.set(true);
    node.slow_ms.set(0);
    let (end, _) = cli.call(&cli.scan_args(), DiskPlan::default())?;
    if let End::Err(e) = end {
        fail!("scan-fails", "scanning still fails after the trouble is over: {e}");
    }
    let (coins, h, hash) = cli1::report(&u.borrow(), cli)?;
    cli1::check_synced(&u.borrow(), &coins, h, hash)?;
    cli1::check_balance(cli, &coins)?;
    // Scanning again changes nothing.
    if chance(1, 3) {
        cli.clean_call(&cli.scan_args())?;
        let again = cli1::report(&u.borrow(), cli)?;
        ensure!(again == (coins, h, hash), "rescan", "scanning again without news changes the coins");
    }
    Ok(())
}

pub fn label(u: &Rc<RefCell<Universe>>, cli: &Cli1) -> Res {
    let l = *pick_from(&[1u32, 2, 77, u32::MAX]);
    let text = l.to_string();
    let out = cli.clean_call(&["code", "--label", &text, "--scan", &cli.scan_desc])?;
    let want = u.borrow().party.ref_code(Some(l)).to_string();
    ensure!(out.iter().any(|o| o.contains(&want)), "address", "the address for label {l} is not the protocol's");
    probe("labelled address");
    let mut u = u.borrow_mut();
    if !u.party.labels.contains(&l) {
        u.party.labels.push(l);
        u.published.push(Some(l));
        note!("label {l}");
    }
    Ok(())
}

fn reorg_count(u: &Rc<RefCell<Universe>>) -> usize {
    let u = u.borrow();
    u.chain.by_hash.len() - u.chain.blocks.len()
}
