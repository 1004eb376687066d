//! The deterministic core: one choice sequence decides a whole run.
//!
//! Every decision of a run (which operation, which fault, how long a delay, which task runs next)
//! is drawn through [`pick`]/[`chance`]; the drawn values are recorded, so a run is a pure
//! function of (code, entropy, choice sequence) and can be replayed, shrunk and stored.
//! Value 0 is always the simplest alternative, which is what shrinking works towards.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    fmt,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicU64, Ordering},
};

/// A property violation found in a run.
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    /// Stable class, used for shrinking and for matching known findings.
    pub class: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Violation>;

impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Self {
        Self {
            class: class.into(),
            detail: detail.into(),
        }
    }
}

impl fmt::Display for Violation {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "[{}] {}", self.class, self.detail)
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)+) => {
        if !$cond {
            return Err($crate::core::Violation::new($class, format!($($arg)+)));
        }
    };
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)+) => {
        return Err($crate::core::Violation::new($class, format!($($arg)+)))
    };
}

#[macro_export]
macro_rules! note {
    ($($arg:tt)+) => {
        if $crate::core::tracing_on() {
            $crate::core::push_trace(format!($($arg)+));
        }
    };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

enum Source {
    Generate(Rng),
    Replay(Vec<u32>),
}

struct Sim {
    source: Source,
    choices: Vec<u32>,
    entropy: u64,
    fresh: u64,
    trace: Option<Vec<String>>,
    stats: Stats,
    limit: usize,
}

#[derive(Debug, Default, Clone, serde::Serialize, serde::Deserialize)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub sim_ms: u64,
    pub steps: u64,
}

thread_local! {
    static SIM: RefCell<Option<Sim>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static GUARD: RefCell<u32> = const { RefCell::new(0) };
}

fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("no simulation on this thread")))
}

/// A choice in `0..n`; 0 is the simplest.
pub fn pick(n: u32) -> u32 {
    assert!(n > 0);
    with(|s| {
        let i = s.choices.len();
        let v = match &mut s.source {
            Source::Generate(r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
            Source::Replay(c) => c.get(i).copied().unwrap_or(0).min(n - 1),
        };
        s.choices.push(v);
        if s.choices.len() > s.limit {
            panic!("harness: run exceeded its choice limit");
        }
        v
    })
}

/// The run made too many choices; a task that noticed may have been the only one to notice.
pub fn exhausted() -> bool {
    with(|s| s.choices.len() > s.limit)
}

/// True with probability num/den; false is the simplest.
pub fn chance(num: u32, den: u32) -> bool {
    with(|s| {
        let i = s.choices.len();
        let v = match &mut s.source {
            Source::Generate(r) => (((r.next() >> 32) * den as u64 >> 32) as u32) < num,
            Source::Replay(c) => c.get(i).copied().unwrap_or(0) != 0,
        };
        s.choices.push(v as u32);
        v
    })
}

/// Inclusive range, low end simplest.
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + pick(hi - lo + 1)
}

pub fn pick_from<T>(items: &[T]) -> &T {
    &items[pick(items.len() as u32) as usize]
}

/// Weighted choice: index into `weights`.
pub fn weighted(weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    let (i, v) = with(|s| {
        let i = s.choices.len();
        match &mut s.source {
            Source::Generate(r) => {
                let mut x = ((r.next() >> 32) * total as u64 >> 32) as u32;
                let mut k = 0;
                while x >= weights[k] {
                    x -= weights[k];
                    k += 1;
                }
                (i, k as u32)
            }
            Source::Replay(c) => {
                let k = c.get(i).copied().unwrap_or(0).min(weights.len() as u32 - 1);
                (i, k)
            }
        }
    });
    let _ = i;
    // A replayed value may point at a disabled alternative: fall back to the first enabled one.
    let v = if weights[v as usize] == 0 {
        weights.iter().position(|w| *w > 0).unwrap_or(0) as u32
    } else {
        v
    };
    with(|s| s.choices.push(v));
    v as usize
}

/// A permutation of `0..n` (identity is simplest).
pub fn permutation(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    while !left.is_empty() {
        let i = pick(left.len() as u32) as usize;
        out.push(left.remove(i));
    }
    out
}

pub fn shuffle<T>(v: &mut Vec<T>) {
    let p = permutation(v.len());
    let mut slots: Vec<Option<T>> = v.drain(..).map(Some).collect();
    *v = p.into_iter().map(|i| slots[i].take().expect("once")).collect();
}

/// 32 fresh pseudo-random bytes that do not consume choices (key material, salts).
pub fn fresh32() -> [u8; 32] {
    let (e, n) = with(|s| {
        s.fresh += 1;
        (s.entropy, s.fresh)
    });
    let mut out = [0u8; 32];
    for k in 0..4u64 {
        let v = mix(mix(e ^ mix(n)).wrapping_add(mix(k + 0x51)));
        out[(k as usize) * 8..][..8].copy_from_slice(&v.to_be_bytes());
    }
    out
}

pub fn fresh_u64() -> u64 {
    u64::from_be_bytes(fresh32()[..8].try_into().expect("8 bytes"))
}

pub fn fault(name: &str) {
    with(|s| *s.stats.faults.entry(name.to_string()).or_default() += 1);
}

/// Changes whenever a fault is injected.
pub fn fault_stamp() -> u64 {
    with(|s| s.stats.faults.values().sum())
}

pub fn probe(name: &str) {
    with(|s| *s.stats.probes.entry(name.to_string()).or_default() += 1);
}

pub fn step() {
    with(|s| s.stats.steps += 1);
}

pub fn sim_time(ms: u64) {
    with(|s| s.stats.sim_ms += ms);
}

/// Record an abstract state reached by this run.
pub fn state<T: Hash>(t: &T) {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    let v = mix(h.finish());
    with(|s| {
        s.stats.states.insert(v);
    });
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}

pub fn tracing_on() -> bool {
    SIM.with(|s| {
        s.borrow()
            .as_ref()
            .map(|s| s.trace.is_some())
            .unwrap_or(false)
    })
}

pub fn push_trace(line: String) {
    with(|s| {
        if let Some(t) = s.trace.as_mut() {
            if t.len() < 4000 {
                t.push(line)
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Randomness seam: everything in the process that asks the kernel for random bytes (HashMap
// seeds, rand::thread_rng, OsRng) gets a stream derived from the run's entropy.

static OS_ENTROPY: AtomicU64 = AtomicU64::new(0x5eed);
static OS_COUNTER: AtomicU64 = AtomicU64::new(0);

fn reset_os_entropy(entropy: u64) {
    OS_ENTROPY.store(entropy, Ordering::SeqCst);
    OS_COUNTER.store(0, Ordering::SeqCst);
}

/// # Safety
/// Called by libc users with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    _flags: libc::c_uint,
) -> libc::ssize_t {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for chunk in out.chunks_mut(8) {
        let n = OS_COUNTER.fetch_add(1, Ordering::SeqCst);
        let v = mix(OS_ENTROPY.load(Ordering::SeqCst) ^ mix(n)).to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    len as libc::ssize_t
}

// ---------------------------------------------------------------------------------------------
// Panics

/// Where the last panic happened and what it said.
pub fn last_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn take_panic() -> (String, String) {
    PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| ("?".into(), "panic on another thread".into()))
}

fn panic_class(loc: &str, msg: &str) -> String {
    // No line numbers: the class must survive unrelated edits of the file.
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let short: String = file.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
    let msg: String = msg
        .chars()
        .map(|c| if c.is_ascii_digit() { '#' } else { c })
        .take(48)
        .collect();
    format!("panic:{short}:{msg}")
}

/// Run a call into the code under test: a panic in it is a violation, not a harness failure.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    GUARD.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| {
        let (loc, msg) = take_panic();
        if msg.starts_with("harness:") || loc.starts_with("src/") {
            panic!("harness: {loc}: {msg}");
        }
        Violation::new(panic_class(&loc, &msg), format!("{what} panicked at {loc}: {msg}"))
    })
}

// ---------------------------------------------------------------------------------------------
// Running

#[derive(Debug, Clone)]
pub enum Outcome {
    Ok,
    Violated(Violation),
    /// The harness itself failed: never reported as a violation.
    Harness(String),
}

pub struct RunResult {
    pub outcome: Outcome,
    pub choices: Vec<u32>,
    pub trace: Vec<String>,
    pub stats: Stats,
}

pub enum RunMode {
    Generate(u64),
    Replay(Vec<u32>),
}

pub type PropFn = fn() -> Res;

/// Execute one run on a thread of its own.
pub fn execute(f: PropFn, entropy: u64, mode: RunMode, trace: bool) -> RunResult {
    reset_os_entropy(entropy);
    let source = match mode {
        RunMode::Generate(seed) => Source::Generate(Rng(seed)),
        RunMode::Replay(c) => Source::Replay(c),
    };
    let waiter = std::thread::current();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            struct Wake(std::thread::Thread);
            impl Drop for Wake {
                fn drop(&mut self) {
                    self.0.unpark();
                }
            }
            let _wake = Wake(waiter);
            SIM.with(|s| {
                *s.borrow_mut() = Some(Sim {
                    source,
                    choices: vec![],
                    entropy,
                    fresh: 0,
                    trace: trace.then(Vec::new),
                    stats: Stats::default(),
                    limit: 200_000,
                })
            });
            let r = catch_unwind(AssertUnwindSafe(f));
            let outcome = match r {
                Ok(Ok(())) => Outcome::Ok,
                Ok(Err(v)) => Outcome::Violated(v),
                Err(_) => {
                    let (loc, msg) = take_panic();
                    if loc.starts_with("src/") || msg.starts_with("harness:") {
                        Outcome::Harness(format!("{loc}: {msg}"))
                    } else {
                        Outcome::Violated(Violation::new(
                            panic_class(&loc, &msg),
                            format!("panicked at {loc}: {msg}"),
                        ))
                    }
                }
            };
            let sim = SIM.with(|s| s.borrow_mut().take()).expect("sim");
            RunResult {
                outcome,
                choices: sim.choices,
                trace: sim.trace.unwrap_or_default(),
                stats: sim.stats,
            }
        })
        .expect("spawn");
    // A machine that was stopped for a while is no evidence: long gaps count little.
    let mut watched = std::time::Duration::ZERO;
    let mut last = std::time::Instant::now();
    while !h.is_finished() {
        let now = std::time::Instant::now();
        watched += (now - last).min(std::time::Duration::from_millis(100));
        last = now;
        if watched > HANG {
            // The run thread is stuck in a call that neither returns nor yields; it is abandoned.
            return RunResult {
                outcome: Outcome::Violated(Violation::new(
                    "hang",
                    "a call neither returned nor yielded to the simulated scheduler",
                )),
                choices: vec![],
                trace: vec![],
                stats: Stats::default(),
            };
        }
        std::thread::park_timeout(std::time::Duration::from_millis(2));
    }
    h.join().expect("run thread")
}

/// Real time after which a run (normally milliseconds) counts as stuck.
pub const HANG: std::time::Duration = std::time::Duration::from_secs(60);

/// Shrink a failing choice sequence while the violation class stays the same.
pub fn shrink(
    f: PropFn,
    entropy: u64,
    choices: Vec<u32>,
    class: &str,
    budget: std::time::Duration,
) -> (Vec<u32>, u64) {
    let start = std::time::Instant::now();
    let mut tried = 0u64;
    let mut best = choices;
    let mut attempt = |cand: &[u32], best: &mut Vec<u32>| -> bool {
        tried += 1;
        let r = execute(f, entropy, RunMode::Replay(cand.to_vec()), false);
        match r.outcome {
            Outcome::Violated(v) if v.class == class => {
                // keep only what was consumed
                let mut used = r.choices;
                while used.last() == Some(&0) {
                    used.pop();
                }
                if (used.len(), used.iter().map(|x| *x as u64).sum::<u64>())
                    < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>())
                {
                    *best = used;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed() > budget {
                    return (best, tried);
                }
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                if !attempt(&cand, &mut best) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        let mut size = (best.len() / 4).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed() > budget {
                    return (best, tried);
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt(&cand, &mut best);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if start.elapsed() > budget {
                return (best, tried);
            }
            if i < best.len() && best[i] > 1 {
                for c in [1, best[i] / 2, best[i] - 1] {
                    if i < best.len() && c < best[i] {
                        let mut cand = best.clone();
                        cand[i] = c;
                        if attempt(&cand, &mut best) {
                            break;
                        }
                    }
                }
            }
        }
        if best == before {
            return (best, tried);
        }
    }
}
