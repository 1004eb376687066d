//! A simulated peer-to-peer light client node, its tweak server, and the runtime that decides the
//! interleaving of the tasks around them.
use crate::{core::*, note, wsim::Universe};
use bip157::{
    chain::{BlockHeaderChanges, IndexedHeader},
    error::FetchBlockError,
    sim::{Jitter, SimNode, SimRequest},
    Event, HeaderCheckpoint, IndexedBlock, IndexedFilter, Info, NodeError, SyncUpdate, Warning,
};
use bitcoin::{Block, BlockHash};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, VecDeque},
    future::Future,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, Waker},
    time::Duration,
};
use tokio::sync::oneshot;

// ---------------------------------------------------------------------------------------------
// Runtime

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The process was killed.
    Killed,
    /// Tasks keep running without anything getting anywhere.
    Spinning,
    /// Nothing happened for longer than allowed.
    Stuck,
}

#[derive(Clone)]
pub struct Control {
    inner: Rc<Inner>,
}

struct Inner {
    /// A task waits for others with probability `jitter`/8 when it could run.
    jitter: u32,
    kill_at: Cell<u64>,
    polls: Cell<u64>,
    since_progress: Cell<u64>,
    stop: Cell<Option<Stop>>,
    waker: RefCell<Option<Waker>>,
}

/// Runs of tasks, with simulated time standing still, that count as going nowhere.
const SPIN: u64 = 50_000;

impl Control {
    pub fn new(jitter: u32, kill_at: Option<u64>) -> Self {
        Self {
            inner: Rc::new(Inner {
                jitter,
                kill_at: Cell::new(kill_at.unwrap_or(u64::MAX)),
                polls: Cell::new(0),
                since_progress: Cell::new(0),
                stop: Cell::new(None),
                waker: RefCell::new(None),
            }),
        }
    }

    pub fn stop(&self, s: Stop) {
        if self.inner.stop.get().is_none() {
            self.inner.stop.set(Some(s));
            if s == Stop::Killed {
                crate::seams::disk_kill();
            }
        }
        if let Some(w) = self.inner.waker.borrow_mut().take() {
            w.wake();
        }
    }

    pub fn progress(&self) {
        self.inner.since_progress.set(0);
    }

    /// Whether a task has to wait.
    fn held(&self) -> bool {
        let i = &self.inner;
        if i.stop.get().is_some() {
            return true;
        }
        i.polls.set(i.polls.get() + 1);
        i.since_progress.set(i.since_progress.get() + 1);
        if i.since_progress.get() > SPIN {
            self.stop(Stop::Spinning);
            return true;
        }
        if i.polls.get() >= i.kill_at.get() || crate::seams::disk_dead() {
            self.stop(Stop::Killed);
            return true;
        }
        // A spinning task must not eat the choices of the run.
        i.jitter > 0 && i.since_progress.get() < 5_000 && chance(i.jitter, 8)
    }

    pub fn polls(&self) -> u64 {
        self.inner.polls.get()
    }
}

struct Watch<F> {
    c: Control,
    f: Pin<Box<F>>,
}

impl<F: Future> Future for Watch<F> {
    type Output = Result<F::Output, Stop>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(s) = self.c.inner.stop.get() {
            return Poll::Ready(Err(s));
        }
        *self.c.inner.waker.borrow_mut() = Some(cx.waker().clone());
        match self.f.as_mut().poll(cx) {
            Poll::Ready(o) => Poll::Ready(Ok(o)),
            Poll::Pending => match self.c.inner.stop.get() {
                Some(s) => Poll::Ready(Err(s)),
                None => Poll::Pending,
            },
        }
    }
}

/// Run a process made of tasks to its end, or until it is stopped. Its tasks die with it.
pub fn run_process<F: Future>(c: &Control, node: Option<Rc<P2p>>, limit: Duration, f: F) -> Result<F::Output, Stop> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&fresh32()))
        .build()
        .expect("runtime");
    let hook = c.clone();
    let runner = node.map(|n| {
        let c = c.clone();
        Rc::new(move |s: SimNode| {
            let (n, c) = (n.clone(), c.clone());
            Box::pin(async move { n.session(s, c).await }) as Pin<Box<dyn Future<Output = Result<(), NodeError>>>>
        }) as Rc<dyn Fn(SimNode) -> Pin<Box<dyn Future<Output = Result<(), NodeError>>>>>
    });
    bip157::sim::install(runner, Some(Rc::new(move || hook.held())));
    let r = rt.block_on(async {
        let start = tokio::time::Instant::now();
        let w = Watch { c: c.clone(), f: Box::pin(Jitter::new(f)) };
        let r = match tokio::time::timeout(limit, w).await {
            Ok(r) => r,
            Err(_) => Err(Stop::Stuck),
        };
        sim_time(start.elapsed().as_millis() as u64);
        r
    });
    bip157::sim::install(None, None);
    // What is left of the process must not run on while it is taken down.
    drop(rt);
    assert!(!exhausted(), "harness: run exceeded its choice limit");
    r
}

// ---------------------------------------------------------------------------------------------
// A consumer that can go away while another thread is about to send

pub struct Shared<T> {
    inner: Rc<RefCell<(Option<tokio::sync::mpsc::UnboundedReceiver<T>>, Option<Waker>)>>,
}

impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Self { inner: self.inner.clone() }
    }
}

impl<T: 'static> Shared<T> {
    pub fn new(rx: tokio::sync::mpsc::UnboundedReceiver<T>) -> Self {
        Self { inner: Rc::new(RefCell::new((Some(rx), None))) }
    }

    pub async fn recv(&self) -> Option<T> {
        std::future::poll_fn(|cx| {
            let mut i = self.inner.borrow_mut();
            i.1 = Some(cx.waker().clone());
            match i.0.as_mut() {
                Some(rx) => rx.poll_recv(cx),
                None => Poll::Ready(None),
            }
        })
        .await
    }

    pub fn close(&self) {
        let rx = self.inner.borrow_mut().0.take();
        drop(rx);
        if let Some(w) = self.inner.borrow_mut().1.take() {
            w.wake();
        }
    }

    /// The receiver is dropped right before the message with this number is sent.
    pub fn leave_at_send(&self, n: u32) {
        let me = self.clone();
        let left = Cell::new(n);
        bip157::sim::on_send(Some(Rc::new(move || {
            if left.get() == 0 {
                probe("consumer goes away between two messages");
                me.close();
            }
            left.set(left.get().wrapping_sub(1));
        })));
    }
}

// ---------------------------------------------------------------------------------------------
// The node

pub struct P2p {
    pub u: Rc<RefCell<Universe>>,
    /// The chain stands still, nothing fails.
    pub calm: Cell<bool>,
    /// Changes of the world per 100 steps of the node.
    pub change_rate: Cell<u32>,
    /// How many more changes this session may see.
    pub changes_left: Cell<u32>,
    /// The node gives up after this many steps.
    pub dies_at: Cell<Option<u32>>,
    /// Largest pause between two steps.
    pub pause_ms: Cell<u32>,
    /// Filters handed out per step.
    pub chunk: Cell<u32>,
    pub served: RefCell<BTreeSet<BlockHash>>,
    pub filters: RefCell<BTreeMap<BlockHash, Vec<u8>>>,
    pub synced: Cell<u32>,
    pub shut_down: Cell<bool>,
    pub reorgs: Cell<u32>,
    /// Blocks it reported being in sync with.
    pub notices: RefCell<BTreeSet<BlockHash>>,
}

impl P2p {
    pub fn new(u: Rc<RefCell<Universe>>) -> Rc<Self> {
        Rc::new(Self {
            u,
            calm: Cell::new(true),
            change_rate: Cell::new(0),
            changes_left: Cell::new(0),
            dies_at: Cell::new(None),
            pause_ms: Cell::new(1),
            chunk: Cell::new(100),
            served: RefCell::default(),
            filters: RefCell::default(),
            synced: Cell::new(0),
            shut_down: Cell::new(false),
            reorgs: Cell::new(0),
            notices: RefCell::default(),
        })
    }

    /// Something happens in the world.
    pub fn event(&self) {
        let mut u = self.u.borrow_mut();
        match weighted(&[3, 3, 4, 2, 1, 1]) {
            0 => {
                u.pay();
            }
            1 => {
                u.spend();
            }
            2 => {
                u.mine(2);
            }
            3 => {
                u.reorg();
            }
            4 => {
                u.replace();
            }
            _ => {
                u.noise();
            }
        }
    }

    pub fn filter(&self, b: &Block) -> Vec<u8> {
        let hash = b.block_hash();
        if let Some(f) = self.filters.borrow().get(&hash) {
            return f.clone();
        }
        let f = self.u.borrow().chain.filter(b);
        self.filters.borrow_mut().insert(hash, f.clone());
        f
    }

    fn indexed(&self, h: usize) -> IndexedHeader {
        IndexedHeader { height: h as u32, header: self.u.borrow().chain.blocks[h].header }
    }

    /// What the node does from its start to its end.
    pub async fn session(self: Rc<Self>, mut n: SimNode, c: Control) -> Result<(), NodeError> {
        self.shut_down.set(false);
        let first = n.info_tx.send(Info::SuccessfulHandshake).await;
        let _ = first;
        if self.pause_ms.get() > 2 && chance(1, 4) {
            let _ = n.warn_tx.send(Warning::NeedConnections { connected: 0, required: 1 });
        }
        let genesis = self.u.borrow().chain.blocks[0].block_hash();
        // What was announced, and from where on filters are due.
        let mut view: Vec<BlockHash> = vec![genesis];
        let mut due = 1usize;
        let mut told: Option<BlockHash> = None;
        let mut waiting: VecDeque<(BlockHash, oneshot::Sender<Result<IndexedBlock, FetchBlockError>>)> = VecDeque::new();
        let mut idle = 0u32;
        let mut steps = 0u32;
        let mut client_gone = false;
        loop {
            steps += 1;
            if self.dies_at.get().is_some_and(|d| steps >= d) {
                fault("the node gives up");
                self.dies_at.set(None);
                return Err(NodeError::NoReachablePeers);
            }
            if !self.calm.get() && self.changes_left.get() > 0 && (idle > 8 || chance(self.change_rate.get(), 100)) {
                fault("chain changes during a session");
                self.changes_left.set(self.changes_left.get() - 1);
                self.event();
                if self.changes_left.get() == 0 {
                    // The world comes to rest with a new block.
                    self.u.borrow_mut().mine(2);
                }
            }
            // ---- headers
            let best: Vec<BlockHash> = self.u.borrow().chain.blocks.iter().map(|b| b.block_hash()).collect();
            let fork = view.iter().zip(&best).take_while(|(a, b)| a == b).count();
            if fork < view.len() {
                // More work than what was announced.
                let accepted: Vec<IndexedHeader> = (fork..best.len()).map(|h| self.indexed(h)).collect();
                let reorganized: Vec<IndexedHeader> = view[fork..]
                    .iter()
                    .enumerate()
                    .map(|(i, hash)| IndexedHeader {
                        height: (fork + i) as u32,
                        header: self.u.borrow().chain.by_hash[hash].1.header,
                    })
                    .collect();
                let gone: BTreeSet<BlockHash> = view[fork..].iter().copied().collect();
                probe("reorganisation during a session");
                self.reorgs.set(self.reorgs.get() + 1);
                if gone.len() >= due.saturating_sub(fork) && due > fork {
                    probe("filters already handed out are replaced");
                }
                note!("node: reorganisation above {} to {}", fork - 1, best.len() - 1);
                let before = waiting.len();
                waiting.retain(|(h, _)| !gone.contains(h));
                if waiting.len() != before {
                    fault("block request dropped by a reorganisation");
                    probe("block request dropped");
                }
                view = best;
                due = due.min(fork);
                let _ = n.event_tx.send(Event::ChainUpdate(BlockHeaderChanges::Reorganized { accepted, reorganized }));
            } else if view.len() < best.len() {
                for h in view.len()..best.len() {
                    let _ = n.event_tx.send(Event::ChainUpdate(BlockHeaderChanges::Connected(self.indexed(h))));
                }
                view = best;
            }
            // ---- filters
            let mut sent = 0;
            while due < view.len() && sent < self.chunk.get() {
                let (hash, f) = {
                    let b = self.u.borrow().chain.blocks[due].clone();
                    (b.block_hash(), self.filter(&b))
                };
                let _ = n.event_tx.send(Event::IndexedFilter(IndexedFilter::sim_from_parts(due as u32, hash, f)));
                due += 1;
                sent += 1;
            }
            if sent > 0 {
                c.progress();
                idle = 0;
                let _ = n.info_tx.try_send(Info::ConnectionsMet);
            }
            let tip = *view.last().expect("genesis");
            if due == view.len() && told != Some(tip) {
                told = Some(tip);
                self.notices.borrow_mut().insert(tip);
                idle = 0;
                let recent: BTreeMap<u32, bitcoin::block::Header> = (0..view.len())
                    .rev()
                    .take(10)
                    .map(|h| (h as u32, self.u.borrow().chain.by_hash[&view[h]].1.header))
                    .collect();
                note!("node: in sync at {}", view.len() - 1);
                self.synced.set(self.synced.get() + 1);
                let _ = n.event_tx.send(Event::FiltersSynced(SyncUpdate {
                    tip: HeaderCheckpoint::new(view.len() as u32 - 1, tip),
                    recent_history: recent,
                }));
            }
            // ---- blocks, one at a time
            if !waiting.is_empty() && (self.calm.get() || !chance(1, 3)) {
                let (hash, tx) = waiting.pop_front().expect("not empty");
                let (height, block) = self.u.borrow().chain.by_hash[&hash].clone();
                self.served.borrow_mut().insert(hash);
                let _ = n.info_tx.try_send(Info::BlockReceived(hash));
                note!("node: block {height} handed out");
                let _ = tx.send(Ok(IndexedBlock { height, block }));
                idle = 0;
                c.progress();
            }
            // ---- requests, and time passing
            let pause = self.pause_ms.get().max(1);
            let busy = due < view.len() || !waiting.is_empty();
            let ms = if busy { u64::from(pick(pause)) + 1 } else { (u64::from(pause) << idle.min(10)).min(60_000) };
            idle += 1;
            let deadline = tokio::time::Instant::now() + Duration::from_millis(ms);
            loop {
                if client_gone {
                    tokio::time::sleep_until(deadline).await;
                    break;
                }
                let req = tokio::time::timeout_at(deadline, n.requests.recv()).await;
                match req {
                    Err(_) => break,
                    Ok(None) => client_gone = true,
                    Ok(Some(SimRequest::Shutdown)) => {
                        note!("node: told to shut down");
                        self.shut_down.set(true);
                        return Ok(());
                    }
                    Ok(Some(SimRequest::Other)) => {}
                    Ok(Some(SimRequest::GetBlock(hash, tx))) => {
                        let known = self.u.borrow().chain.by_hash.contains_key(&hash);
                        if view.contains(&hash) || (known && chance(1, 2)) {
                            waiting.push_back((hash, tx));
                        } else {
                            fault("request for a block the node does not know");
                            let _ = tx.send(Err(FetchBlockError::UnknownHash));
                        }
                        break;
                    }
                }
            }
            c.progress();
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The tweak server

pub struct TweakServer {
    pub u: Rc<RefCell<Universe>>,
    /// Faults per 100 requests.
    pub fault_rate: Cell<u32>,
    /// Faults still to come.
    pub faults_left: Cell<u32>,
    /// Largest delay of a good answer.
    pub delay_ms: Cell<u32>,
    /// Blocks it has not indexed yet, and how many more requests notice.
    pub lag: Cell<u32>,
    pub lag_left: Cell<u32>,
    pub asked: Cell<u64>,
    pub bad: RefCell<Option<String>>,
}

impl TweakServer {
    pub fn new(u: Rc<RefCell<Universe>>) -> Rc<Self> {
        Rc::new(Self {
            u,
            fault_rate: Cell::new(0),
            faults_left: Cell::new(0),
            delay_ms: Cell::new(0),
            lag: Cell::new(0),
            lag_left: Cell::new(0),
            asked: Cell::new(0),
            bad: RefCell::default(),
        })
    }

    pub fn install(self: &Rc<Self>) {
        let me = self.clone();
        reqwest::sim_install(Some(Rc::new(move |url| me.answer(url))));
    }

    pub fn uninstall() {
        reqwest::sim_install(None);
    }

    /// What it has to say about a block.
    pub fn tweaks(u: &Universe, b: &Block) -> Vec<bitcoin::secp256k1::PublicKey> {
        b.txdata
            .iter()
            .filter_map(|t| {
                let r = u.txs.get(&t.compute_txid())?;
                let paid = t.output.iter().any(|o| o.script_pubkey.is_p2tr() && o.value.to_sat() >= 1000);
                if paid {
                    r.tweak
                } else {
                    None
                }
            })
            .collect()
    }

    fn answer(&self, url: &reqwest::Url) -> reqwest::SimReply {
        use reqwest::{SimBody, SimReply};
        step();
        self.asked.set(self.asked.get() + 1);
        let u = self.u.borrow();
        let height = url
            .path()
            .strip_prefix("/tweaks/")
            .and_then(|h| h.parse::<u32>().ok());
        let Some(height) = height else {
            *self.bad.borrow_mut() = Some(url.to_string());
            return SimReply::Response { delay_ms: 0, body_delay_ms: 0, status: 404, body: SimBody::Full(b"404".to_vec()) };
        };
        let dust: Option<u64> = url.query_pairs().find(|(k, _)| k == "dustLimit").and_then(|(_, v)| v.parse().ok());
        if dust.is_some_and(|d| d > 1000) {
            *self.bad.borrow_mut() = Some(url.to_string());
        }
        let delay = |max: u32| if max == 0 { 0 } else { u64::from(pick(max)) };
        let good = |body: Vec<u8>, status: u16, slow: u64| SimReply::Response { delay_ms: slow, body_delay_ms: 0, status, body: SimBody::Full(body) };
        let indexed = u.chain.height().saturating_sub(if self.lag_left.get() > 0 { self.lag.get() } else { 0 });
        if height > indexed {
            if height <= u.chain.height() {
                fault("tweak server lags behind");
                self.lag_left.set(self.lag_left.get() - 1);
            }
            return good(b"{\"error\":\"block not found\"}".to_vec(), 404, 1);
        }
        let b = &u.chain.blocks[height as usize];
        let list: Vec<String> = Self::tweaks(&u, b).iter().map(|t| t.to_string()).collect();
        let body = serde_json::to_vec(&list).expect("json");
        if self.faults_left.get() > 0 && chance(self.fault_rate.get(), 100) {
            self.faults_left.set(self.faults_left.get() - 1);
            return match pick(7) {
                0 => {
                    fault("tweak server unreachable");
                    SimReply::ConnectError { delay_ms: delay(2000) }
                }
                1 => {
                    fault("tweak server status 503");
                    good(b"busy".to_vec(), 503, delay(500))
                }
                2 => {
                    fault("tweak server error with an empty list");
                    good(b"[]".to_vec(), 500, delay(500))
                }
                3 => {
                    fault("tweak server never answers");
                    SimReply::Hang
                }
                4 => {
                    fault("tweak reply truncated");
                    good(body[..pick(body.len() as u32) as usize].to_vec(), 200, delay(500))
                }
                5 => {
                    fault("tweak reply breaks off");
                    SimReply::Response { delay_ms: delay(500), body_delay_ms: 10, status: 200, body: SimBody::BodyError }
                }
                _ => {
                    fault("tweak reply too late");
                    good(body, 200, 30_001 + delay(20_000))
                }
            };
        }
        good(body, 200, delay(self.delay_ms.get()))
    }
}
