//! C08: a light client that has synced holds exactly the wallet's true coins.
use super::Property;
use crate::{
    cli1::{self, DiskPlan, End},
    cli2::{self, Plan},
    core::*,
    ensure, fail, note,
    p2psim::{P2p, TweakServer},
    props::c09::{disk_plan_in, note_fault},
    seams,
    world::*,
    wsim::*,
};
use bitcoin::Network;
use std::{
    cell::{Cell, RefCell},
    rc::Rc,
};

pub const PROPERTY: Property = Property {
    id: "C08",
    run,
    quick: 1_500,
    thorough: 60_000,
    probes: &[],
    state_rule: "distinct (way the session ended, trouble, shape of the reported coins, blocks behind, reorganisations) tuples",
    must_reach: &[
        "session killed",
        "session ends with an error",
        "the node gives up",
        "reorganisation during a session",
        "reorganisation between sessions",
        "block request dropped",
        "tip of the wallet replaced",
        "birthday block replaced",
        "rescan from an explicit height",
        "labelled address",
        "creation interrupted",
        "unconfirmed after a reorganisation",
        "in sync in spite of trouble",
        "output to a script used before",
    ],
    real: &["cli/v2: the whole program with its tasks", "oracles, wallet, indexer (second flavour)", "BIP158 filters, redb and bdk_file_store on real files", "tokio tasks and channels"],
    stub: &["the bip157 node: its messages are made by the simulator", "reqwest: requests are answered by the simulated tweak server", "bdk_tx, tracing-subscriber (not available offline)", "task scheduling, time and file system calls"],
    assumptions: &["the tweak server follows the same best chain as the node, possibly with a delay", "payments are at least 1000 satoshi, the limit the client asks the server to apply", "a branch that was replaced does not become the best one again", "a transaction that pays to a script of another payment in its block also pays the wallet itself"],
};

const URL: &str = "http://tweaks.example";

fn run() -> Res {
    cli1::clean();
    seams::clock_start();
    let r = inner();
    seams::clock_stop();
    TweakServer::uninstall();
    cli1::clean();
    r
}

/// A wallet made by the program on a chain that has some blocks already.
pub fn create() -> Res<Universe> {
    let mut u = Universe::new(Party::new(0, Network::Regtest));
    u.funded = true;
    for _ in 0..pick(6) {
        u.mine(0);
    }
    let height = if chance(1, 3) { 0 } else { u.chain.height() };
    let (h, hash) = (height.to_string(), u.chain.hash_at(height).expect("height").to_string());
    let args = ["create", "--network", "regtest", "--birthday-height", &h, "--birthday-hash", &hash];
    for _ in 0..3 {
        if !chance(1, 6) {
            break;
        }
        let plan = Plan { disk: disk_plan_in(&[3, 12]), ..Plan::default() };
        let e = cli2::call(&args, None, plan)?;
        note_fault(&plan.disk, e.report.hit);
        if std::path::Path::new(cli2::DB).exists() {
            // It said it would not be overwritten: then it has to be complete.
            if let (End::Ok(out), Some(keys)) = (&e.end, out_keys(&e.end)) {
                let _ = out;
                u.party = keys.party;
                u.floor = height.saturating_sub(1);
                return Ok(u);
            }
            if let Some(keys) = out_keys(&e.end) {
                u.party = keys.party;
            }
            let w = cli2::open()?;
            ensure!(w.birthday.height == height, "birthday", "an interrupted creation left a wallet with another birthday");
            std::fs::remove_file(cli2::DB).expect("remove");
        }
        probe("creation interrupted");
    }
    let out = cli2::clean_call(&args)?;
    let Some(keys) = cli2::printed_keys(&out) else {
        fail!("create", "the keys of the new wallet were not printed");
    };
    u.party = keys.party;
    u.floor = height.saturating_sub(1);
    Ok(u)
}

fn out_keys(e: &End) -> Option<Keys> {
    match e {
        End::Ok(out) => cli2::printed_keys(out),
        _ => None,
    }
}

/// Ask for an address, maybe crashing on the way; every address that was shown may be paid.
pub fn label(u: &Rc<RefCell<Universe>>, crash: bool) -> Res {
    let l = *pick_from(&[1u32, 2, 77, u32::MAX]);
    let text = l.to_string();
    let want = u.borrow().party.ref_code(Some(l)).to_string();
    let shown = Rc::new(Cell::new(false));
    let (s, w) = (shown.clone(), want.clone());
    sim_cli2::on_output(Some(Box::new(move |line| {
        if line.contains(&w) {
            s.set(true);
        }
    })));
    let plan = Plan { disk: if crash { disk_plan_in(&[3, 12]) } else { DiskPlan::default() }, ..Plan::default() };
    let e = cli2::call(&["code", "--label", &text], None, plan);
    sim_cli2::on_output(None);
    let e = e?;
    note_fault(&plan.disk, e.report.hit);
    if matches!(e.end, End::Ok(_)) {
        ensure!(shown.get(), "address", "the address for label {l} is not the protocol's");
    }
    if !shown.get() {
        return Ok(());
    }
    probe("labelled address");
    let mut u = u.borrow_mut();
    if !u.party.labels.contains(&l) {
        u.party.labels.push(l);
        u.published.push(Some(l));
        note!("label {l}");
    }
    Ok(())
}

fn inner() -> Res {
    let u = create()?;
    let birthday = u.floor + 1;
    let birth_hash = u.chain.hash_at(birthday.min(u.chain.height()));
    let u = Rc::new(RefCell::new(u));
    let node = P2p::new(u.clone());
    let server = TweakServer::new(u.clone());
    server.install();
    if chance(1, 50) {
        for _ in 0..*pick_from(&[990u32, 999, 1005]) {
            u.borrow_mut().mine(0);
        }
    }
    let sessions = range(1, 5);
    for s in 0..sessions {
        for _ in 0..pick(8) {
            node.event();
        }
        if chance(1, 6) {
            let crash = chance(1, 3);
            label(&u, crash)?;
        }
        if s > 0 && chance(1, 3) {
            probe("reorganisation between sessions");
            u.borrow_mut().reorg();
        }
        session(&node, &server)?;
    }
    {
        let u = u.borrow();
        if birth_hash.is_some() && u.chain.hash_at(birthday) != birth_hash {
            probe("birthday block replaced");
        }
    }
    // ---- the trouble is over
    for _ in 0..pick(4) {
        node.event();
    }
    if chance(1, 2) {
        u.borrow_mut().reorg();
    }
    u.borrow_mut().mine(2);
    node.calm.set(true);
    node.changes_left.set(0);
    node.dies_at.set(None);
    server.fault_rate.set(0);
    server.lag.set(0);
    let e = cli2::call(&["scan-cbf", URL], Some(node.clone()), Plan::default())?;
    ensure!(e.panics == 0, "panic", "a task panicked without any fault: {:?}", last_panic());
    if let End::Err(e) = e.end {
        fail!("sync-fails", "synchronising still fails after the trouble is over: {e}");
    }
    let (v, h, hash) = cli2::report(&u.borrow())?;
    cli2::check_synced(&u.borrow(), &v, h, hash)?;
    cli2::check_balance(&v)?;
    if v.canonical.values().any(|s| s.is_none()) {
        probe("unconfirmed after a reorganisation");
    }
    // Synchronising again changes nothing.
    if chance(1, 4) {
        let e = cli2::call(&["scan-cbf", URL], Some(node.clone()), Plan::default())?;
        if let End::Err(e) = e.end {
            fail!("sync-fails", "synchronising again fails: {e}");
        }
        let again = cli2::report(&u.borrow())?;
        ensure!(again == (v, h, hash), "rescan", "synchronising again without news changes the coins");
    }
    Ok(())
}

fn session(node: &Rc<P2p>, server: &Rc<TweakServer>) -> Res {
    let u = node.u.clone();
    let height = u.borrow().chain.height();
    node.calm.set(chance(1, 4));
    node.change_rate.set(*pick_from(&[5, 20, 60]));
    node.changes_left.set(if node.calm.get() { 0 } else { pick(12) });
    node.pause_ms.set(*pick_from(&[1, 20, 500, 4000]));
    node.chunk.set(*pick_from(&[1, 3, 10, 1000]).max(&(height / 30)));
    let gives_up = chance(1, 8);
    node.dies_at.set(gives_up.then(|| range(1, 30)));
    server.fault_rate.set(*pick_from(&[0, 0, 3, 20, 70]));
    server.faults_left.set(pick(40));
    server.delay_ms.set(*pick_from(&[0, 20, 3000, 25_000]));
    server.lag.set(pick(3));
    server.lag_left.set(pick(6));
    node.notices.borrow_mut().clear();
    let disk = if chance(1, 4) { disk_plan_in(&[4, 40, 400]) } else { DiskPlan { nasty: chance(1, 4), ..DiskPlan::default() } };
    let plan = Plan {
        disk,
        kill_at: chance(1, 5).then(|| u64::from(range(1, *pick_from(&[20, 100, 400])))),
        jitter: *pick_from(&[0, 1, 3, 5]),
    };
    let (before, was_h, was_tip) = cli2::report(&u.borrow())?;
    let _ = before;
    if u.borrow().chain.hash_at(was_h) != Some(was_tip) {
        probe("tip of the wallet replaced");
    }
    let stamp = fault_stamp();
    let mut args: Vec<String> = vec!["scan-cbf".into(), URL.into()];
    if chance(1, 10) {
        probe("rescan from an explicit height");
        let h = u.borrow().floor.min(height);
        let hash = u.borrow().chain.hash_at(h).expect("height");
        args.extend(["--height".into(), h.to_string(), "--hash".into(), hash.to_string()]);
    }
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let e = cli2::call(&args, Some(node.clone()), plan)?;
    note_fault(&plan.disk, e.report.hit);
    let died_node = gives_up && node.dies_at.get().is_none();
    ensure!(e.panics == 0 || e.report.hit, "panic", "a task panicked: {:?}", last_panic());
    let how = match &e.end {
        End::Ok(_) => 0u8,
        End::Err(m) => {
            probe("session ends with an error");
            if died_node {
                probe("the node gives up");
            }
            // Servers that fail for a while and blocks that disappear are waited for or made up for.
            ensure!(died_node || e.report.hit, "sync-fails", "synchronising fails although the node stays up: {m}");
            1
        }
        End::Died => {
            fault("session killed");
            probe("session killed");
            2
        }
    };
    note!("session ended {:?}", e.end);
    let (v, h, hash) = cli2::report(&u.borrow())?;
    if how == 0 && !died_node {
        ensure!(
            node.notices.borrow().contains(&hash),
            "tip",
            "the session ended in sync, but the wallet's tip {h} is none the node reported being in sync with"
        );
        if fault_stamp() != stamp {
            probe("in sync in spite of trouble");
        }
    }
    if chance(1, 5) {
        cli2::check_balance(&v)?;
    }
    let unconf = v.canonical.values().filter(|x| x.is_none()).count();
    if unconf > 0 {
        probe("unconfirmed after a reorganisation");
    }
    state(&(how, fault_stamp() != stamp, v.canonical.len().min(8), v.unspent.len().min(8), unconf.min(3), u.borrow().chain.height().saturating_sub(h).min(4), node.reorgs.get().min(4)));
    Ok(())
}
