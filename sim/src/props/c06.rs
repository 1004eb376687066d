//! C06: the filter pipeline hands on every filter of the final best chain, whatever the
//! interleaving of filters, reorganisations and sync notices.
use super::Property;
use crate::{
    core::*,
    ensure, fail, note,
    p2psim::{run_process, Control, Shared, Stop},
    seams::{self, DiskFault},
};
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, FilterEvent, FilterSubscriber, UpdateError, WriteRange, TABLE_DEF};
use bip157::{
    chain::{BlockHeaderChanges, IndexedHeader},
    sim::Jitter,
    Event, HeaderCheckpoint, IndexedBlock, IndexedFilter, SyncUpdate,
};
use bitcoin::{block::Header, BlockHash};
use redb::{Database, ReadableTable};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    rc::Rc,
    sync::{Arc, Mutex},
    time::Duration,
};

pub const PROPERTY: Property = Property {
    id: "C06",
    run,
    quick: 4_000,
    thorough: 100_000,
    probes: &[],
    state_rule: "distinct (way the pipeline ended, batches and sync notices of a session, reorganisations in it, filters waiting when one struck, birthday position) tuples",
    must_reach: &[
        "batch written because the queue is full",
        "filter replaced while it waits in the queue",
        "filter replaced after it was handed on",
        "consumer goes away",
        "node goes away",
        "consumer goes away between two messages",
        "consumer is slow",
        "process killed and restarted",
        "killed while writing",
        "birthday above the tip",
    ],
    real: &["oracles: FilterSubscriber, DatabaseBuffer", "redb on a real file", "tokio channels and tasks"],
    stub: &["the bip157 node: its messages are made by the simulator", "task scheduling, time and file system calls"],
    assumptions: &["the node announces filters of a branch in ascending order and reports being in sync only after the last one", "a branch that was replaced does not become the best one again within a session"],
};

/// One block of the simulated chain.
#[derive(Clone)]
struct Blk {
    hash: BlockHash,
    header: Header,
    filter: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    RunsOn,
    Node,
    Consumer,
    Killed,
}

struct World {
    chain: Vec<Blk>,
    serial: u64,
}

impl World {
    fn block(&mut self) -> Blk {
        self.serial += 1;
        let mut header = bitcoin::constants::genesis_block(bitcoin::Network::Regtest).header;
        header.nonce = self.serial as u32;
        header.time += self.chain.len() as u32;
        if let Some(p) = self.chain.last() {
            header.prev_blockhash = p.hash;
        }
        let n = (mix(self.serial) % 9) as usize;
        let mut filter = self.serial.to_le_bytes().to_vec();
        filter.truncate(8);
        filter.extend(std::iter::repeat_n(7u8, n));
        Blk { hash: header.block_hash(), header, filter }
    }
    fn grow(&mut self, n: u32) {
        for _ in 0..n {
            let b = self.block();
            self.chain.push(b);
        }
    }
}

/// What was sent so far, as the consumer's oracle needs it.
#[derive(Default)]
struct Log {
    /// (height, hash) in order of emission.
    emitted: Vec<(u32, BlockHash)>,
    /// For each sync notice the chain it stands for.
    notices: Vec<(u32, BlockHash, Vec<BlockHash>)>,
    contents: BTreeMap<BlockHash, Vec<u8>>,
}

fn header_of(h: usize, b: &Blk) -> IndexedHeader {
    IndexedHeader { height: h as u32, header: b.header }
}

struct Consumer {
    birthday: u32,
    handed: BTreeMap<u32, (BlockHash, usize)>,
    high: usize,
    batches: u32,
    notices: usize,
}

fn table(db: &Arc<Mutex<Database>>) -> BTreeMap<u32, Vec<u8>> {
    let read = db.lock().expect("lock").begin_read().expect("harness: read");
    let Ok(t) = read.open_table(TABLE_DEF) else { return BTreeMap::new() };
    t.iter().expect("harness: table").map(|e| e.expect("harness: row")).map(|(k, v)| (k.value(), v.value())).collect()
}

impl Consumer {
    fn batch(&mut self, log: &Log, db: &Arc<Mutex<Database>>, w: &WriteRange) -> Res {
        self.batches += 1;
        ensure!(
            w.writes.len() <= 2_000,
            "batch-size",
            "a batch of {} filters, although batches are bounded",
            w.writes.len()
        );
        if w.writes.len() >= 900 {
            probe("batch written because the queue is full");
        }
        let mut at = vec![];
        for (h, hash) in &w.writes {
            ensure!(*h >= self.birthday, "below-birthday", "the filter of block {h} is handed on, the birthday is {}", self.birthday);
            let Some(i) = log.emitted.iter().rposition(|e| e == &(*h, *hash)) else {
                fail!("made-up", "a filter for {h}:{hash} is handed on that the node never sent");
            };
            at.push((*h, *hash, i));
            self.high = self.high.max(i);
        }
        for (h, hash, i) in &at {
            // Everything up to `high` had been received when this batch was made.
            let newer = log.emitted[..=self.high].iter().rposition(|e| e.0 == *h).expect("itself");
            ensure!(
                newer == *i,
                "replaced-filter",
                "the filter handed on for height {h} belongs to a replaced block whose replacement's filter had arrived"
            );
            if let Some((old, j)) = self.handed.get(h) {
                ensure!(i >= j, "goes-back", "the filter for height {h} goes back to that of an older block");
                if old != hash {
                    probe("filter replaced after it was handed on");
                }
            }
            self.handed.insert(*h, (*hash, *i));
        }
        let stored = table(db);
        for (h, hash, i) in &at {
            let got = stored.get(h);
            // A later batch may have replaced it already.
            let ok = got.is_some_and(|g| {
                g == &log.contents[hash]
                    || log.emitted[i + 1..].iter().any(|(h2, x)| h2 == h && g == &log.contents[x])
            });
            ensure!(ok, "contents", "the stored filter for height {h} is not what the node sent");
        }
        Ok(())
    }

    fn notice(&mut self, log: &Log, db: &Arc<Mutex<Database>>, height: u32, hash: BlockHash) -> Res {
        let Some((h, x, chain)) = log.notices.get(self.notices) else {
            fail!("made-up-notice", "a sync notice the node never gave");
        };
        self.notices += 1;
        ensure!(
            *h == height && *x == hash,
            "notice",
            "the sync notice is for {height}:{hash} instead of {h}:{x}"
        );
        let stored = table(db);
        for k in self.birthday.max(1)..=height {
            let want = chain[k as usize];
            let got = self.handed.get(&k).map(|g| g.0);
            // Handed on before, for this or a later chain.
            let fine = got == Some(want)
                || got.is_some_and(|g| {
                    log.notices[self.notices..].iter().any(|n| n.2.get(k as usize) == Some(&g))
                });
            ensure!(
                fine,
                "filter-lost",
                "in sync at {height}, but the filter of block {k} was {}",
                if got.is_some() { "handed on for another block only" } else { "never handed on" }
            );
            let bytes = stored.get(&k);
            let ok = bytes.is_some_and(|b| {
                b == &log.contents[&want] || log.emitted.iter().any(|(h2, x)| *h2 == k && b == &log.contents[x] && *x != want && newer(log, k, want, *x))
            });
            ensure!(ok, "contents", "in sync at {height}, but the stored filter for {k} is not that of the chain");
        }
        Ok(())
    }
}

fn newer(log: &Log, k: u32, a: BlockHash, b: BlockHash) -> bool {
    let pos = |x: BlockHash| log.emitted.iter().rposition(|e| *e == (k, x));
    pos(b) > pos(a)
}

const FILE: &str = "c06_filters.redb";

fn run() -> Res {
    let _ = std::fs::remove_file(FILE);
    let r = sessions();
    let _ = std::fs::remove_file(FILE);
    r
}

fn sessions() -> Res {
    let mut w = World { chain: vec![], serial: fresh_u64() % 1_000 };
    w.grow(1);
    let long = chance(1, 6);
    let first = if long { *pick_from(&[995u32, 998, 999, 1000, 1001, 1999, 2005, 2600]) } else { range(1, 30) };
    w.grow(first);
    let birthday = match weighted(&[3, 3, 1, 1]) {
        0 => 0,
        1 => pick(12),
        2 => w.chain.len() as u32 - 1,
        _ => {
            probe("birthday above the tip");
            w.chain.len() as u32 + pick(4)
        }
    };
    let sessions = range(1, 3);
    // Opening the file is up to whoever sets the pipeline up (see C08), not to the pipeline.
    let mut torn = false;
    for s in 0..sessions {
        let last = s + 1 == sessions;
        let how = if last {
            *pick_from(&[How::RunsOn, How::RunsOn, How::Node, How::Consumer])
        } else {
            *pick_from(&[How::Killed, How::Killed, How::Node, How::Consumer, How::RunsOn])
        };
        session(&mut w, birthday, how, &mut torn)?;
        if chance(1, 2) {
            let g = range(1, 5);
            let k = pick((w.chain.len() as u32 - 1).min(6)) as usize;
            let n = w.chain.len();
            w.chain.truncate(n - k);
            w.grow(k as u32 + g);
        }
    }
    Ok(())
}

fn session(w: &mut World, birthday: u32, how: How, torn: &mut bool) -> Res {
    if std::mem::take(torn) {
        let _ = std::fs::remove_file(FILE);
    }
    let kill = (how == How::Killed).then(|| u64::from(range(1, 60)));
    let control = Control::new(*pick_from(&[0, 1, 3, 5]), kill);
    let plan = (how == How::Killed && chance(1, 2)).then(|| (u64::from(range(1, 40)), DiskFault::Crash));
    let cut = u64::from(pick(1 << 16));
    seams::disk_start(plan, cut, chance(1, 3));
    // The database is opened by each process anew.
    let opened = guarded("opening the filter database", || Database::create(FILE));
    if seams::disk_dead() {
        seams::disk_stop();
        fault("crash while the filter database is opened");
        *torn = true;
        return Ok(());
    }
    let db = match opened? {
        Ok(db) => Arc::new(Mutex::new(db)),
        Err(e) => {
            seams::disk_stop();
            fail!("database", "the filter database of an earlier process cannot be opened: {e}");
        }
    };
    let log = Rc::new(RefCell::new(Log::default()));
    let verdict: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
    let stats = Rc::new(Cell::new((0u32, 0u32, 0u32)));
    let (event_tx, event_rx) = tokio::sync::mpsc::unbounded_channel::<Event>();
    let (tx, rx) = bip157::tokio::sync::mpsc::unbounded_channel::<FilterEvent>();
    let shared = Shared::new(rx);
    if how == How::Consumer && chance(1, 2) {
        shared.leave_at_send(pick(8));
    }
    let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db.clone()), event_rx, tx, birthday);
    let r = {
        let (log, verdict, stats, db) = (log.clone(), verdict.clone(), stats.clone(), db.clone());
        run_process(&control, None, Duration::from_secs(3600), async {
            let h = bip157::tokio::spawn(async move { sub.run().await });
            let producer = produce(w, event_tx, how, log.clone(), &control, stats.clone());
            let consumer = consume(shared, how, birthday, log, verdict.clone(), db, stats, &control);
            let (_, out) = tokio::join!(Jitter::new(producer), Jitter::new(consumer));
            let ended = h.await;
            (out, ended.map_err(|e| e.is_panic()))
        })
    };
    bip157::sim::on_send(None);
    let report = seams::disk_stop();
    let (batches, notices, reorgs) = stats.get();
    state(&(how as u8, batches.min(6), notices.min(6), reorgs.min(4), birthday.min(20), (log.borrow().emitted.len() / 50).min(40)));
    verdict.replace(Ok(()))?;
    match r {
        Err(Stop::Killed) => {
            if report.hit {
                probe("killed while writing");
                fault("crash during a write");
            } else {
                fault("process killed");
            }
            probe("process killed and restarted");
        }
        Err(s) => fail!("stuck", "the pipeline does not get anywhere any more: {s:?}"),
        Ok((done, ended)) => {
            let Ok(ended) = ended else {
                fail!("panic", "the filter pipeline panicked ({how:?})");
            };
            match (how, ended) {
                (How::Consumer, Err(UpdateError::ChannelClosed)) => {}
                // It may have left after the last message.
                (How::Consumer, Err(UpdateError::NodeStopped)) => {}
                (_, Err(UpdateError::NodeStopped)) => {}
                (h, e) => fail!("end", "the pipeline ended with {e:?} ({h:?})"),
            }
            if how != How::Consumer {
                ensure!(
                    done == log.borrow().notices.len(),
                    "notice-lost",
                    "{done} of {} sync notices were handed on",
                    log.borrow().notices.len()
                );
            }
        }
    }
    Ok(())
}

async fn nap() {
    if chance(1, 3) {
        tokio::time::sleep(Duration::from_millis(u64::from(pick(50)))).await;
    } else if chance(1, 2) {
        tokio::task::yield_now().await;
    }
}

async fn produce(w: &mut World, tx: tokio::sync::mpsc::UnboundedSender<Event>, how: How, log: Rc<RefCell<Log>>, c: &Control, stats: Rc<Cell<(u32, u32, u32)>>) {
    let mut view: Vec<BlockHash> = vec![w.chain[0].hash];
    let mut due = 1usize;
    let rounds = range(1, 6);
    // The node goes away in the middle of something, or after the last message.
    let leaves = if how == How::Node {
        probe("node goes away");
        fault("node goes away");
        u64::from(pick(80))
    } else {
        u64::MAX
    };
    let mut sent = 0u64;
    let mut send = |e: Event| -> bool {
        sent += 1;
        sent <= leaves && tx.send(e).is_ok()
    };
    for round in 0..rounds {
        // ---- the chain moves on
        if round > 0 {
            match weighted(&[3, 4, 1]) {
                0 => w.grow(range(1, 4)),
                1 => {
                    let k = range(1, (w.chain.len() as u32 - 1).clamp(1, 8)) as usize;
                    let k = k.min(w.chain.len() - 1);
                    let n = w.chain.len();
                    w.chain.truncate(n - k);
                    let more = range(1, 3);
                    w.grow(k as u32 + more);
                }
                _ => {}
            }
        }
        // ---- headers
        let best: Vec<BlockHash> = w.chain.iter().map(|b| b.hash).collect();
        let fork = view.iter().zip(&best).take_while(|(a, b)| a == b).count();
        if fork < view.len() {
            fault("reorganisation");
            let (b, n, r) = stats.get();
            stats.set((b, n, r + 1));
            if due > fork {
                probe("filter replaced while it waits in the queue");
            }
            let accepted = (fork..best.len()).map(|h| header_of(h, &w.chain[h])).collect();
            if !send(Event::ChainUpdate(BlockHeaderChanges::Reorganized { accepted, reorganized: vec![] })) {
                return;
            }
            due = due.min(fork);
        } else if chance(1, 2) {
            for h in view.len()..best.len() {
                if !send(Event::ChainUpdate(BlockHeaderChanges::Connected(header_of(h, &w.chain[h])))) {
                    return;
                }
            }
        }
        view = best;
        // ---- filters; the chain may move on before all of them are there
        let stop = if round + 1 < rounds && chance(1, 3) { due + pick((view.len() - due.min(view.len())) as u32 + 1) as usize } else { view.len() };
        let naps = stop.saturating_sub(due) <= 60;
        while due < stop.min(view.len()) {
            let b = &w.chain[due];
            {
                let mut l = log.borrow_mut();
                l.emitted.push((due as u32, b.hash));
                l.contents.insert(b.hash, b.filter.clone());
            }
            if !send(Event::IndexedFilter(IndexedFilter::sim_from_parts(due as u32, b.hash, b.filter.clone()))) {
                return;
            }
            due += 1;
            c.progress();
            if naps && chance(1, 8) || due % 400 == 0 {
                nap().await;
            }
            if naps && chance(1, 40) {
                let g = bitcoin::constants::genesis_block(bitcoin::Network::Regtest);
                let _ = send(Event::Block(IndexedBlock { height: 0, block: g }));
            }
        }
        if due == view.len() {
            let tip = w.chain.last().expect("genesis");
            log.borrow_mut().notices.push((view.len() as u32 - 1, tip.hash, view.clone()));
            let e = Event::FiltersSynced(SyncUpdate {
                tip: HeaderCheckpoint::new(view.len() as u32 - 1, tip.hash),
                recent_history: BTreeMap::new(),
            });
            if !send(e) {
                log.borrow_mut().notices.pop();
                return;
            }
            note!("in sync at {}", view.len() - 1);
        }
        nap().await;
    }
}

/// Returns how many notices arrived.
#[allow(clippy::too_many_arguments)]
async fn consume(
    rx: Shared<FilterEvent>,
    how: How,
    birthday: u32,
    log: Rc<RefCell<Log>>,
    verdict: Rc<RefCell<Res>>,
    db: Arc<Mutex<Database>>,
    stats: Rc<Cell<(u32, u32, u32)>>,
    c: &Control,
) -> usize {
    let mut k = Consumer { birthday, handed: BTreeMap::new(), high: 0, batches: 0, notices: 0 };
    let leaves = if how == How::Consumer {
        probe("consumer goes away");
        fault("consumer goes away");
        pick(8)
    } else {
        u32::MAX
    };
    let slow = chance(1, 3);
    if slow {
        probe("consumer is slow");
        fault("slow consumer");
    }
    let mut n = 0;
    while n < leaves {
        let Some(e) = rx.recv().await else { break };
        n += 1;
        c.progress();
        let r = match e {
            FilterEvent::Changes(w) => k.batch(&log.borrow(), &db, &w),
            FilterEvent::Tip(t) => k.notice(&log.borrow(), &db, t.height, t.hash),
        };
        let (_, _, r0) = stats.get();
        stats.set((k.batches, k.notices as u32, r0));
        if r.is_err() {
            *verdict.borrow_mut() = r;
            c.stop(Stop::Killed);
            return k.notices;
        }
        if slow {
            tokio::time::sleep(Duration::from_millis(u64::from(pick(3000)))).await;
        }
    }
    rx.close();
    k.notices
}

