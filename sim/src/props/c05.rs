//! C05: a crash never loses or corrupts what was saved.
use super::{c09, Property};
use crate::{
    cli1::{self, Cli1, DiskPlan, End},
    core::*,
    ensure, fail, note,
    rpcsim::Node,
    seams,
    wsim::*,
};
use bdk_file_store::{Store, StoreError, StoreErrorWithDump};
use bdk_sp_wallet::{ChangeSet, SpWallet};
use bitcoin::{BlockHash, Network, OutPoint};
use indexer::bdk_chain::{BlockId, ConfirmationBlockTime, Merge};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

pub const PROPERTY: Property = Property {
    id: "C05",
    run,
    quick: 3_000,
    thorough: 80_000,
    probes: &[],
    state_rule: "distinct (program, step, way the process ended, which state was found afterwards, size of the saved state) tuples",
    must_reach: &[
        "died during a save",
        "torn save recovered",
        "save in flight survived",
        "save in flight lost",
        "died while recovering",
        "died while creating the wallet",
        "died while saving a label",
        "died after a commit in the middle of a scan",
        "killed without saving",
        "merged before saving",
    ],
    real: &["wallet: SpWallet, ChangeSet", "indexer (both flavours) and their change sets", "cli/v1: the whole program", "bdk_file_store on real files, bincode"],
    stub: &["the program that keeps a library wallet (part of the harness)", "the HTTP transport of the jsonrpc crate: requests are answered by the simulated node", "clock and file system calls: simulated time, faults injected into real files"],
    assumptions: &["what a completed system call wrote survives the death of the process; the machine itself does not lose power"],
};

fn run() -> Res {
    match weighted(&[5, 4]) {
        0 => library(),
        _ => first_cli(),
    }
}

// ---------------------------------------------------------------------------------------------
// A program that keeps its library wallet in a file.

const MAGIC: &[u8] = b"sim_sp_wallet";
const DB: &str = ".bdk_sim_wallet.db";

/// Everything a wallet holds that has to survive.
#[derive(Clone, Debug, PartialEq)]
struct Snapshot {
    birthday: BlockId,
    network: Network,
    chain: indexer::bdk_chain::local_chain::ChangeSet,
    indexer: indexer::v2::ChangeSet<ConfirmationBlockTime>,
    outputs: BTreeMap<OutPoint, [u8; 32]>,
    labels: BTreeSet<(Option<u32>, OutPoint)>,
    numbers: BTreeMap<u32, bitcoin::secp256k1::PublicKey>,
    address: String,
    applied: BTreeSet<BlockHash>,
}

fn snapshot(w: &SpWallet, applied: &BTreeSet<BlockHash>) -> Res<Snapshot> {
    guarded("reading the wallet", || {
        let i = w.indexer().index();
        Snapshot {
            birthday: w.birthday,
            network: w.network(),
            chain: w.chain().initial_changeset(),
            indexer: w.indexer().initial_changeset(),
            outputs: i.by_shared_secret.iter().map(|(o, s)| (*o, s.secret_bytes())).collect(),
            labels: i.by_label.iter().cloned().collect(),
            numbers: i.num_to_label.iter().map(|(n, p)| (*n, *p)).collect(),
            address: w.get_address().to_string(),
            applied: applied.clone(),
        }
    })
}

fn difference(a: &Snapshot, b: &Snapshot) -> String {
    let mut d = vec![];
    if a.birthday != b.birthday {
        d.push(format!("birthday {:?}/{:?}", a.birthday.height, b.birthday.height));
    }
    if a.network != b.network {
        d.push(format!("network {}/{}", a.network, b.network));
    }
    if a.chain != b.chain {
        d.push("chain".into());
    }
    if a.indexer.graph != b.indexer.graph {
        d.push("transactions".into());
    }
    if a.indexer != b.indexer {
        d.push("indexer".into());
    }
    if a.outputs != b.outputs {
        d.push(format!("outputs {}/{}", a.outputs.len(), b.outputs.len()));
    }
    if a.labels != b.labels {
        d.push("labels of outputs".into());
    }
    if a.numbers != b.numbers {
        d.push("labels".into());
    }
    if a.address != b.address {
        d.push("addresses".into());
    }
    d.join(", ")
}

fn write_db(total: &ChangeSet) -> Result<(), String> {
    let tmp = format!("{DB}.tmp");
    let _ = std::fs::remove_file(&tmp);
    let mut s = Store::<ChangeSet>::create(MAGIC, &tmp).map_err(|e| e.to_string())?;
    s.append(total).map_err(|e| e.to_string())?;
    std::fs::rename(&tmp, DB).map_err(|e| e.to_string())
}

struct Life {
    /// The last save that completed, and one that may have.
    saved: Option<Snapshot>,
    in_flight: Option<Snapshot>,
}

enum Stop {
    /// Killed or given up.
    End,
    Broken(Violation),
}

impl From<Violation> for Stop {
    fn from(v: Violation) -> Self {
        Stop::Broken(v)
    }
}

/// The formats the project stores: what is read back is what was written.
fn round_trips(cs: &ChangeSet) -> Res {
    let js = serde_json::to_string(cs);
    let Ok(js) = js else {
        fail!("json", "a change set cannot be written as JSON: {}", js.unwrap_err());
    };
    let back: Result<ChangeSet, _> = serde_json::from_str(&js);
    match back {
        Ok(b) => ensure!(b == *cs, "json", "a change set read back from JSON is another one"),
        Err(e) => fail!("json", "a change set cannot be read back from JSON: {e}"),
    }
    let bin = bincode::serialize(cs);
    let Ok(bin) = bin else {
        fail!("bincode", "a change set cannot be written: {}", bin.unwrap_err());
    };
    let back: Result<ChangeSet, _> = bincode::deserialize(&bin);
    match back {
        Ok(b) => ensure!(b == *cs, "bincode", "a change set read back is another one"),
        Err(e) => fail!("bincode", "a change set cannot be read back: {e}"),
    }
    let mut m = ChangeSet::default();
    m.merge(cs.clone());
    ensure!(m == *cs, "merge", "merging a change set into an empty one gives another one");
    let mut m = cs.clone();
    m.merge(ChangeSet::default());
    ensure!(m == *cs, "merge", "merging an empty change set into one gives another one");
    Ok(())
}

fn library() -> Res {
    cli1::clean();
    let keys = wallet_keys(0, Network::Regtest);
    let mut u = Universe::new(keys.party.clone());
    for _ in 0..pick(4) {
        u.mine(0);
    }
    let h = pick(u.chain.height() + 1);
    let birthday = BlockId { height: h, hash: u.chain.hash_at(h).expect("height") };
    let mut life = Life { saved: None, in_flight: None };
    let lives = range(2, 7);
    for n in 0..lives {
        let plan = if chance(3, 4) { c09::disk_plan_in(&[2, 6, 30, 150, 600]) } else { DiskPlan { nasty: chance(1, 2), cut: u64::from(pick(1 << 20)), fault: None } };
        seams::disk_start(plan.fault, plan.cut, plan.nasty);
        let r = one_life(&mut u, &keys, birthday, &mut life, n);
        let rep = seams::disk_stop();
        c09::note_fault(&plan, rep.hit);
        match r {
            Ok(()) | Err(Stop::End) => {}
            Err(Stop::Broken(v)) => {
                cli1::clean();
                return Err(v);
            }
        }
        note!("process {n} ended, died: {}", rep.died);
        // The world goes on without it.
        for _ in 0..pick(4) {
            world(&mut u);
        }
    }
    let r = settle(&mut u, &keys, birthday, &mut life);
    cli1::clean();
    r
}

fn world(u: &mut Universe) {
    match weighted(&[4, 3, 2, 4, 2]) {
        0 => {
            u.pay();
        }
        1 => {
            u.spend();
        }
        2 => {
            u.replace();
        }
        3 => {
            u.mine(2);
        }
        _ => {
            u.reorg();
        }
    }
}

/// Start the program: create, load or recover the wallet.
fn open(u: &Universe, keys: &Keys, birthday: BlockId, life: &mut Life) -> Result<(SpWallet, Store<ChangeSet>, BTreeSet<BlockHash>), Stop> {
    if life.saved.is_none() && life.in_flight.is_none() || !std::path::Path::new(DB).exists() {
        ensure_stop(life.saved.is_none(), "lost", "the saved wallet is gone")?;
        let w = network_wallet(keys, birthday)?;
        let first = w.staged().cloned();
        let Some(first) = first else {
            return Err(Violation::new("stage", "a new wallet stages nothing").into());
        };
        round_trips(&first)?;
        life.in_flight = Some(snapshot(&w, &BTreeSet::new())?);
        if write_db(&first).is_err() {
            probe("died while creating the wallet");
            return Err(Stop::End);
        }
        life.saved = life.in_flight.take();
    }
    let loaded = guarded("Store::load", || Store::<ChangeSet>::load(MAGIC, DB))?;
    let (store, total) = match loaded {
        Ok((s, t)) => (s, t),
        Err(StoreErrorWithDump { changeset: Some(t), error: StoreError::Bincode(_) }) => {
            if write_db(&t).is_err() {
                probe("died while recovering");
                return Err(Stop::End);
            }
            probe("torn save recovered");
            guarded("Store::load", || Store::<ChangeSet>::load(MAGIC, DB))?
                .map_err(|e| Violation::new("open", format!("the recovered store cannot be loaded: {e}")))?
        }
        // The simulated disk reports errors for changes only.
        Err(e) => return Err(Violation::new("open", format!("the store cannot be loaded: {e}")).into()),
    };
    let Some(total) = total else {
        return Err(Violation::new("open", "the store is empty").into());
    };
    round_trips(&total)?;
    let w = guarded("SpWallet::try_from", || SpWallet::try_from(total))?;
    let Ok(mut w) = w else {
        return Err(Violation::new("open", "the wallet cannot be made from what was saved").into());
    };
    // It is one of the states it may be.
    let none = BTreeSet::new();
    let found = snapshot(&w, &none)?;
    let like = |s: &Option<Snapshot>| {
        s.as_ref().is_some_and(|s| Snapshot { applied: none.clone(), ..s.clone() } == found)
    };
    let state = if like(&life.in_flight) {
        probe("save in flight survived");
        life.in_flight.take()
    } else if like(&life.saved) {
        if life.in_flight.take().is_some() {
            probe("save in flight lost");
        }
        life.saved.take()
    } else {
        let d1 = life.saved.as_ref().map(|s| difference(s, &found)).unwrap_or_default();
        let d2 = life.in_flight.as_ref().map(|s| difference(s, &found)).unwrap_or("none".into());
        return Err(Violation::new(
            "mixture",
            format!("what is found after the restart is not the last saved state (differs in {d1}) nor the one being saved ({d2})"),
        )
        .into());
    };
    life.in_flight = None;
    life.saved = state;
    let change = guarded("get_change_address", || w.get_change_address())?;
    ensure_stop(change == u.party.ref_code(Some(0)), "address", "after a restart the change address is another one")?;
    let applied = life.saved.as_ref().map(|s| s.applied.clone()).unwrap_or_default();
    check_wallet(u, &w, &applied)?;
    Ok((w, store, applied))
}

fn ensure_stop(ok: bool, class: &str, what: &str) -> Result<(), Stop> {
    if ok {
        Ok(())
    } else {
        Err(Violation::new(class, what).into())
    }
}

fn one_life(u: &mut Universe, keys: &Keys, birthday: BlockId, life: &mut Life, n: u32) -> Result<(), Stop> {
    let (mut w, mut store, mut applied) = open(u, keys, birthday, life)?;
    let mut buffer: Option<ChangeSet> = None;
    let steps = range(1, 14);
    for _ in 0..steps {
        step();
        let op = weighted(&[6, 4, 4, 1]);
        match op {
            0 => world(u),
            1 => {
                let style = if chance(1, 2) { Style::Light } else { Style::Full };
                deliver(u, &mut w, &mut applied, style)?;
            }
            2 => {
                let mut cs = w.take_staged();
                if chance(1, 3) {
                    // Kept for later, with something in front or not.
                    probe("merged before saving");
                    let mut b = buffer.take().unwrap_or_default();
                    if let Some(c) = cs.take() {
                        b.merge(c);
                    }
                    buffer = (!b.is_empty()).then_some(b);
                    if chance(1, 2) {
                        continue;
                    }
                }
                if let Some(mut b) = buffer.take() {
                    if let Some(c) = cs.take() {
                        b.merge(c);
                    }
                    cs = Some(b);
                }
                let Some(cs) = cs else { continue };
                round_trips(&cs)?;
                life.in_flight = Some(snapshot(&w, &applied)?);
                let r = guarded("Store::append", || store.append(&cs))?;
                if r.is_err() {
                    probe("died during a save");
                    state(&("lib", n, 1, applied.len().min(12)));
                    return Err(Stop::End);
                }
                life.saved = life.in_flight.take();
                note!("saved up to {}", w.chain().tip().height());
                state(&("lib", n, 0, applied.len().min(12)));
            }
            _ => {
                let l = *pick_from(&[1u32, 2, 77, u32::MAX]);
                let a = guarded("get_labelled_address", || w.get_labelled_address(l))?;
                let Ok(_) = a else {
                    return Err(Violation::new("address", "no labelled address").into());
                };
                // It is published only once it is saved.
                let cs = w.take_staged();
                let mut b = buffer.take().unwrap_or_default();
                if let Some(c) = cs {
                    b.merge(c);
                }
                if !b.is_empty() {
                    life.in_flight = Some(snapshot(&w, &applied)?);
                    let r = guarded("Store::append", || store.append(&b))?;
                    if r.is_err() {
                        probe("died while saving a label");
                        return Err(Stop::End);
                    }
                    life.saved = life.in_flight.take();
                }
                if !u.party.labels.contains(&l) {
                    u.party.labels.push(l);
                    u.published.push(Some(l));
                }
            }
        }
    }
    probe("killed without saving");
    Ok(())
}

fn settle(u: &mut Universe, keys: &Keys, birthday: BlockId, life: &mut Life) -> Res {
    let broken = |r: Result<(SpWallet, Store<ChangeSet>, BTreeSet<BlockHash>), Stop>| match r {
        Ok(x) => Ok(x),
        Err(Stop::Broken(v)) => Err(v),
        Err(Stop::End) => Err(Violation::new("open", "the wallet cannot be opened without any fault")),
    };
    let (mut w, mut store, mut applied) = broken(open(u, keys, birthday, life))?;
    u.mine(3);
    deliver(u, &mut w, &mut applied, Style::Full)?;
    // The same as a wallet that was told everything and never stopped.
    let live = check_wallet(u, &w, &applied)?;
    for (id, (h, _)) in u.on_chain() {
        if u.is_mine(&u.txs[&id]) {
            ensure!(
                live.canonical.get(&id) == Some(&Some(h)),
                "lost-after-crash",
                "after the crashes a transaction confirmed at {h} is reported as {:?}",
                live.canonical.get(&id)
            );
        }
    }
    let mut twin = network_wallet(keys, birthday)?;
    for l in u.published.clone().into_iter().flatten().filter(|l| *l != 0) {
        let _ = guarded("get_labelled_address", || twin.get_labelled_address(l))?;
    }
    let mut all = BTreeSet::new();
    deliver(u, &mut twin, &mut all, Style::Full)?;
    let other = check_wallet(u, &twin, &all)?;
    // Unconfirmed leftovers of replaced blocks are known to the one that saw them only.
    let sure = |v: &View| v.canonical.iter().filter_map(|(i, h)| h.map(|h| (*i, h))).collect::<BTreeMap<_, _>>();
    ensure!(
        sure(&live) == sure(&other),
        "lost-after-crash",
        "after the crashes {} transactions are confirmed, in a wallet that never stopped {}",
        sure(&live).len(),
        sure(&other).len()
    );
    // Save, reopen, the same.
    let Some(cs) = w.take_staged() else { return Ok(()) };
    life.in_flight = None;
    life.saved = Some(snapshot(&w, &applied)?);
    let r = guarded("Store::append", || store.append(&cs))?;
    ensure!(r.is_ok(), "save", "saving fails without any fault");
    broken(open(u, keys, birthday, life))?;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// The first command line wallet, dying at any change it makes to the disk.

fn first_cli() -> Res {
    cli1::clean();
    let keys = wallet_keys(0, Network::Regtest);
    let mut u = Universe::new(keys.party.clone());
    u.funded = true;
    let u = Rc::new(RefCell::new(u));
    let cli = Cli1::new(&keys);
    let node = Node::new(u.clone());
    node.install();
    seams::clock_start();
    let r = first_cli_inner(&u, &cli, &node);
    sim_cli1::on_output(None);
    seams::clock_stop();
    Node::uninstall();
    cli1::clean();
    r
}

type Stored = sim_cli1::program::ChangeSet;

fn read_store(path: &str) -> Option<Stored> {
    match Store::<Stored>::load(cli1::MAGIC, path) {
        Ok((_, c)) => c,
        Err(e) => e.changeset,
    }
}

/// What the file held at a moment when the program said it was saved.
#[derive(Default)]
struct Committed {
    copies: Vec<Vec<u8>>,
    tips: Vec<Option<BlockHash>>,
}

fn first_cli_inner(u: &Rc<RefCell<Universe>>, cli: &Cli1, node: &Rc<Node>) -> Res {
    // ---- creating it
    let mut created = false;
    for _ in 0..pick(3) {
        let plan = c09::disk_plan_in(&[3, 10, 40]);
        let (end, rep) = cli.call(&cli.init_args(), plan)?;
        c09::note_fault(&plan, rep.hit);
        match end {
            End::Ok(_) => {
                created = true;
                break;
            }
            End::Err(e) => {
                ensure!(rep.hit || created_already(), "init", "init fails although nothing went wrong: {e}");
            }
            End::Died => probe("died while creating the wallet"),
        }
        if created_already() {
            break;
        }
    }
    if !created && !created_already() {
        cli.clean_call(&cli.init_args())?;
    }
    let mut floor = read_store(cli1::DB);
    ensure!(floor.is_some(), "open", "the wallet was created and its file holds nothing");
    let (first, _, _) = cli1::report(&u.borrow(), cli)?;
    ensure!(first.canonical.is_empty(), "open", "a new wallet holds transactions");
    // ---- using it
    let committed = Rc::new(RefCell::new(Committed::default()));
    {
        let (c, node) = (committed.clone(), node.clone());
        sim_cli1::on_output(Some(Box::new(move |l| {
            if l.contains("committed to db") {
                if let Ok(b) = std::fs::read(cli1::DB) {
                    let mut c = c.borrow_mut();
                    c.copies.push(b);
                    c.tips.push(node.last_block.get());
                }
            }
        })));
    }
    let calls = range(1, 8);
    for n in 0..calls {
        for _ in 0..pick(6) {
            node.event();
        }
        let plan = if chance(4, 5) { c09::disk_plan_in(&[4, 40, 400, 2000]) } else { DiskPlan::default() };
        let op = weighted(&[2, 6, 1]);
        node.calm.set(true);
        node.last_block.set(None);
        let mut label = None;
        let (end, rep) = match op {
            0 => {
                let l = *pick_from(&[1u32, 2, 77, u32::MAX]);
                label = Some(l);
                let text = l.to_string();
                cli.call(&["code", "--label", &text, "--scan", &cli.scan_desc], plan)?
            }
            1 => {
                node.calm.set(chance(1, 3));
                node.fault_rate.set(*pick_from(&[0, 0, 1, 8]));
                node.change_rate.set(*pick_from(&[0, 0, 4]));
                node.slow_ms.set(*pick_from(&[0, 4000, 40_000]));
                cli.call(&cli.scan_args(), plan)?
            }
            _ => cli.call(&["balance"], plan)?,
        };
        node.calm.set(true);
        c09::note_fault(&plan, rep.hit);
        let died = matches!(end, End::Died);
        note!("call {n}: {op} ended {end:?} died {died}");
        if died && op == 0 {
            probe("died while saving a label");
        }
        // What the program said was saved is there.
        let said = std::mem::take(&mut *committed.borrow_mut());
        if died && !said.copies.is_empty() {
            probe("died after a commit in the middle of a scan");
        }
        for (copy, tip) in said.copies.iter().zip(&said.tips) {
            let path = ".bdk_sim_copy.db";
            std::fs::write(path, copy).expect("copy");
            let at = read_store(path);
            let _ = std::fs::remove_file(path);
            let Some(at) = at else {
                fail!("commit", "the program says it saved, and the file holds nothing");
            };
            if let Some(t) = tip {
                let there = at.local_chain.blocks.values().any(|h| h.as_ref() == Some(t));
                ensure!(there, "commit", "the program says it saved, and the file lacks the block it scanned last");
            }
            floor = Some(at);
        }
        let torn = matches!(Store::<Stored>::load(cli1::MAGIC, cli1::DB), Err(StoreErrorWithDump { error: StoreError::Bincode(_), .. }));
        let mut recovered = false;
        if torn {
            // The next start dies as well, maybe.
            for _ in 0..pick(3) {
                let plan = c09::disk_plan_in(&[3, 30, 300]);
                let (e, rep) = cli.call(&["balance"], plan)?;
                c09::note_fault(&plan, rep.hit);
                match e {
                    End::Ok(_) => recovered = true,
                    End::Died => probe("died while recovering"),
                    End::Err(e) => ensure!(rep.hit, "open", "the wallet cannot be opened after a crash: {e}"),
                }
            }
        }
        let (coins, h, hash) = cli1::report(&u.borrow(), cli)?;
        if torn {
            probe("torn save recovered");
        }
        let Some(now) = read_store(cli1::DB) else {
            fail!("lost", "the file of the wallet holds nothing any more");
        };
        if let Some(f) = &floor {
            let mut m = f.clone();
            m.merge(now.clone());
            ensure!(m == now, "lost", "something that was saved is gone after a crash");
        }
        floor = Some(now.clone());
        if let Some(l) = label {
            let told = match &end {
                End::Ok(out) => {
                    let want = u.borrow().party.ref_code(Some(l)).to_string();
                    out.iter().any(|o| o.contains(&want))
                }
                _ => false,
            };
            let there = now.indexes.num_to_label.contains_key(&l);
            ensure!(there || !told, "label-lost", "the address for label {l} was given out and the label is not saved");
            if there {
                let mut u = u.borrow_mut();
                if !u.party.labels.contains(&l) {
                    u.party.labels.push(l);
                    u.published.push(Some(l));
                }
            }
        }
        match end {
            End::Ok(_) => {
                if op == 2 {
                    cli1::check_balance(cli, &coins)?;
                }
            }
            End::Err(e) => ensure!(
                rep.hit || (op == 1 && fault_stamp() > 0),
                "command",
                "a command fails although nothing went wrong: {e}"
            ),
            End::Died => {}
        }
        state(&("cli1", op, died, torn, recovered, coins.canonical.len().min(8), u.borrow().chain.height().saturating_sub(h).min(4)));
        let _ = hash;
    }
    // ---- and it ends where one that never stopped ends
    u.borrow_mut().mine(2);
    node.calm.set(true);
    node.slow_ms.set(0);
    cli.clean_call(&cli.scan_args())?;
    let (coins, h, hash) = cli1::report(&u.borrow(), cli)?;
    cli1::check_synced(&u.borrow(), &coins, h, hash)?;
    cli1::check_balance(cli, &coins)?;
    // JSON of what is stored.
    if let Some(now) = read_store(cli1::DB) {
        let js = serde_json::to_string(&now);
        let Ok(js) = js else {
            fail!("json", "the change set of the first program cannot be written as JSON: {}", js.unwrap_err());
        };
        let back: Result<Stored, _> = serde_json::from_str(&js);
        match back {
            Ok(b) => ensure!(b == now, "json", "the change set of the first program read back from JSON is another one"),
            Err(e) => fail!("json", "the change set of the first program cannot be read back from JSON: {e}"),
        }
    }
    Ok(())
}

fn created_already() -> bool {
    std::path::Path::new(cli1::DB).exists()
}
