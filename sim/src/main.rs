mod bech;
mod cli1;
mod cli2;
mod core;
mod keys;
mod p2psim;
mod props;
mod refmodel;
mod rpcsim;
mod seams;
mod world;
mod wsim;

use crate::core::{execute, mix, shrink, Outcome, RunMode, Stats, Violation};
use props::Property;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::{
    collections::BTreeMap,
    io::{Seek, Write},
    path::{Path, PathBuf},
    process::Command,
    time::{Duration, Instant},
};

#[derive(Serialize, Deserialize)]
struct Failure {
    index: u64,
    violation: Violation,
    choices: Vec<u32>,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerReport {
    runs: u64,
    faulty_runs: u64,
    completed: bool,
    stats: Stats,
    failure: Option<Failure>,
    harness: Option<String>,
    samples: Vec<String>,
    log_hash: u64,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    verif_seed: u64,
    run_index: u64,
    entropy: u64,
    /// None: generate from the run seed (used when a stuck run could not be recorded).
    choices: Option<Vec<u32>>,
    probe: Option<String>,
    class: String,
    detail: String,
    trace: Vec<String>,
    shrink_runs: u64,
}

fn prop_key(id: &str) -> u64 {
    id.bytes().fold(7u64, |h, b| mix(h ^ b as u64))
}

fn run_seed(verif_seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(verif_seed ^ prop_key(id)) ^ mix(index.wrapping_add(0xabcdef)))
}

fn entropy_of(verif_seed: u64, id: &str, index: u64) -> u64 {
    mix(run_seed(verif_seed, id, index) ^ 0xe17_2091)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}

fn verif_dir() -> PathBuf {
    std::env::var_os("SPSIM_VERIF")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn scratch(tag: &str) -> PathBuf {
    let base = if std::fs::create_dir_all("/dev/shm/spsim-probe").is_ok() {
        let _ = std::fs::remove_dir("/dev/shm/spsim-probe");
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    let d = base.join(format!("spsim-{tag}-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

fn main() {
    // One thread in the pool: its interleaving must not be the kernel's choice.
    std::env::set_var("RAYON_NUM_THREADS", "1");
    core::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("worker") => worker(&args),
        Some("replay") => replay(&args),
        Some("probe") => probe_cmd(&args),
        Some("determinism") => determinism(&args),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: spsim check|worker|replay|probe|determinism|list ...");
            2
        }
    };
    std::process::exit(code);
}

fn find(args: &[String]) -> Property {
    let id = arg(args, "--property").unwrap_or_default();
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
}

/// Run indices from, from+stride, ... below count.
fn worker(args: &[String]) -> i32 {
    let p = find(args);
    let from: u64 = arg(args, "--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let stride: u64 = arg(args, "--stride").and_then(|s| s.parse().ok()).unwrap_or(1);
    let count: u64 = arg(args, "--count").and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(600);
    let out = arg(args, "--out").expect("--out");
    let dir = PathBuf::from(arg(args, "--dir").expect("--dir"));
    std::fs::create_dir_all(&dir).expect("worker dir");
    std::env::set_current_dir(&dir).expect("chdir");
    limit_memory();
    // Tells the parent which run was under way, should the process die.
    let mut current = std::fs::File::create(dir.with_extension("at")).expect("progress file");
    let start = Instant::now();
    let mut rep = WorkerReport {
        completed: true,
        ..Default::default()
    };
    let mut i = from;
    while i < count {
        if start.elapsed() > Duration::from_secs(secs) {
            rep.completed = false;
            break;
        }
        let _ = current.rewind().and_then(|_| current.write_all(&i.to_le_bytes()));
        let want_trace = rep.samples.len() < 1;
        let r = execute(
            p.run,
            entropy_of(seed, p.id, i),
            RunMode::Generate(run_seed(seed, p.id, i)),
            want_trace,
        );
        rep.runs += 1;
        if !r.stats.faults.is_empty() {
            rep.faulty_runs += 1;
        }
        let mut h = mix(i ^ r.stats.steps);
        for c in &r.choices {
            h = mix(h ^ *c as u64);
        }
        for (k, v) in r.stats.probes.iter().chain(r.stats.faults.iter()) {
            h = mix(h ^ prop_key(k) ^ *v);
        }
        for s in &r.stats.states {
            h = mix(h ^ *s);
        }
        rep.log_hash ^= h;
        for (k, v) in r.stats.faults {
            *rep.stats.faults.entry(k).or_default() += v;
        }
        for (k, v) in r.stats.probes {
            *rep.stats.probes.entry(k).or_default() += v;
        }
        rep.stats.states.extend(r.stats.states);
        rep.stats.sim_ms += r.stats.sim_ms;
        rep.stats.steps += r.stats.steps;
        if want_trace {
            let t: Vec<_> = r.trace.into_iter().take(14).collect();
            rep.samples.push(format!("run {i}: {}", t.join(" | ")));
        }
        match r.outcome {
            Outcome::Ok => {}
            Outcome::Violated(v) => {
                rep.failure = Some(Failure {
                    index: i,
                    violation: v,
                    choices: r.choices,
                });
                break;
            }
            Outcome::Harness(m) => {
                rep.harness = Some(format!("run {i}: {m}"));
                break;
            }
        }
        i += stride;
    }
    std::fs::write(out, serde_json::to_vec(&rep).expect("json")).expect("report");
    // A stuck run may have left its thread behind.
    std::process::exit(0)
}

/// A run that eats all memory ends itself, not its neighbours.
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

const ABORT: &str = "the process was aborted (stack overflow, out of memory or a panic while panicking)";

/// Whether this run alone ends its process, in a process of its own.
fn aborts(p: &Property, seed: u64, i: u64) -> bool {
    let dir = scratch("abort");
    let status = std::env::current_exe().ok().and_then(|e| {
        Command::new(e)
            .args(["worker", "--property", p.id, "--stride", "1"])
            .args(["--from", &i.to_string(), "--count", &(i + 1).to_string(), "--seed", &seed.to_string()])
            .arg("--out")
            .arg(dir.join("w.json"))
            .arg("--dir")
            .arg(dir.join("w"))
            .status()
            .ok()
    });
    let died = status.is_some_and(|s| !s.success()) && !dir.join("w.json").exists();
    let _ = std::fs::remove_dir_all(&dir);
    died
}

struct Batch {
    rep: WorkerReport,
    wall: f64,
}

fn run_batch(p: &Property, count: u64, secs: u64, seed: u64, workers: u64) -> Result<Batch, String> {
    let start = Instant::now();
    let dir = scratch(p.id);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut kids = vec![];
    for w in 0..workers {
        let out = dir.join(format!("w{w}.json"));
        let kid = Command::new(&exe)
            .args(["worker", "--property", p.id])
            .args(["--from", &w.to_string(), "--stride", &workers.to_string()])
            .args(["--count", &count.to_string(), "--seed", &seed.to_string()])
            .args(["--secs", &secs.to_string()])
            .arg("--out")
            .arg(&out)
            .arg("--dir")
            .arg(dir.join(format!("w{w}")))
            .spawn()
            .map_err(|e| e.to_string())?;
        kids.push((kid, out));
    }
    let mut total = WorkerReport {
        completed: true,
        ..Default::default()
    };
    let mut err = None;
    for (mut kid, out) in kids {
        let status = kid.wait().map_err(|e| e.to_string())?;
        let rep: Option<WorkerReport> = std::fs::read(&out)
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok());
        let Some(rep) = rep else {
            let at = std::fs::read(out.with_extension("at")).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
            match at {
                Some(i) if total.failure.as_ref().map_or(true, |t| i < t.index) && aborts(p, seed, i) => {
                    let violation = Violation::new("abort", ABORT);
                    total.failure = Some(Failure { index: i, violation, choices: vec![] });
                }
                _ => err = Some(format!("worker ended with {status} and no report")),
            }
            continue;
        };
        total.runs += rep.runs;
        total.faulty_runs += rep.faulty_runs;
        total.completed &= rep.completed;
        total.log_hash ^= rep.log_hash;
        for (k, v) in rep.stats.faults {
            *total.stats.faults.entry(k).or_default() += v;
        }
        for (k, v) in rep.stats.probes {
            *total.stats.probes.entry(k).or_default() += v;
        }
        total.stats.states.extend(rep.stats.states);
        total.stats.sim_ms += rep.stats.sim_ms;
        total.stats.steps += rep.stats.steps;
        total.samples.extend(rep.samples);
        if rep.harness.is_some() {
            total.harness = rep.harness;
        }
        if let Some(f) = rep.failure {
            if total.failure.as_ref().map_or(true, |t| f.index < t.index) {
                total.failure = Some(f);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // A violation found is a result even if another worker broke down.
    if let (Some(e), None) = (err, &total.failure) {
        return Err(e);
    }
    Ok(Batch {
        rep: total,
        wall: start.elapsed().as_secs_f64(),
    })
}

struct Finding {
    property: String,
    probe: String,
    class: String,
    text: String,
}

fn known_findings() -> Vec<Finding> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            // finding: property=C13 probe=<name> class=<class> -- text
            let rest = l.strip_prefix("finding: ")?;
            let (head, text) = rest.split_once(" -- ")?;
            let mut f = Finding {
                property: String::new(),
                probe: String::new(),
                class: String::new(),
                text: text.to_string(),
            };
            for kv in head.split_whitespace() {
                if let Some((k, v)) = kv.split_once('=') {
                    match k {
                        "property" => f.property = v.into(),
                        "probe" => f.probe = v.into(),
                        "class" => f.class = v.into(),
                        _ => {}
                    }
                }
            }
            Some(f)
        })
        .collect()
}

fn write_replay(r: &Replay) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let tag = r.probe.clone().unwrap_or_else(|| r.run_index.to_string());
    let path = dir.join(format!("{}-s{}-{}.json", r.property, r.verif_seed, tag));
    std::fs::write(&path, serde_json::to_vec_pretty(r).expect("json")).expect("replay file");
    path
}

fn in_scratch<T>(tag: &str, f: impl FnOnce() -> T) -> T {
    let dir = scratch(tag);
    let old = std::env::current_dir().ok();
    std::env::set_current_dir(&dir).expect("chdir");
    let r = f();
    if let Some(o) = old {
        let _ = std::env::set_current_dir(o);
    }
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn check(args: &[String]) -> i32 {
    let p = find(args);
    let tier = arg(args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = tier == "thorough";
    let workers: u64 = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let count = arg(args, "--runs")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough } else { p.quick });
    let secs = if thorough { 780 } else { 300 };
    println!("property {} tier {tier} VERIF_SEED={seed} runs {count}", p.id);
    let start = Instant::now();

    let mut violated: Option<PathBuf> = None;
    // 1. Fixed scenarios: known findings and their neighbours.
    let findings = known_findings();
    let mut finding_lines = vec![];
    for (name, f) in p.probes {
        let r = in_scratch(&format!("{}-probe", p.id), || {
            execute(*f, mix(prop_key(name)), RunMode::Replay(vec![]), true)
        });
        match r.outcome {
            Outcome::Ok => println!("probe {name}: holds"),
            Outcome::Harness(m) => {
                eprintln!("harness error in probe {name}: {m}");
                return 2;
            }
            Outcome::Violated(v) => {
                if let Some(k) = findings
                    .iter()
                    .find(|k| k.property == p.id && k.probe == *name && k.class == v.class)
                {
                    finding_lines.push(format!("KNOWN-FINDING: property={} {} [{name}]", p.id, k.text));
                } else {
                    println!("probe {name}: {v}");
                    let path = write_replay(&Replay {
                        property: p.id.into(),
                        verif_seed: seed,
                        run_index: 0,
                        entropy: mix(prop_key(name)),
                        choices: Some(vec![]),
                        probe: Some(name.to_string()),
                        class: v.class,
                        detail: v.detail,
                        trace: r.trace,
                        shrink_runs: 0,
                    });
                    violated.get_or_insert(path);
                }
            }
        }
    }
    for l in &finding_lines {
        println!("{l}");
    }

    // 2. Seeded search.
    let batch = match run_batch(&p, count, secs, seed, workers) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    let rep = &batch.rep;
    let mut vio_json = vec![];
    if let Some(f) = &rep.failure {
        let entropy = entropy_of(seed, p.id, f.index);
        println!("run {} violated: {}", f.index, f.violation);
        let replay = if f.violation.class == "hang" || f.violation.class == "abort" {
            Replay {
                property: p.id.into(),
                verif_seed: seed,
                run_index: f.index,
                entropy,
                choices: None,
                probe: None,
                class: f.violation.class.clone(),
                detail: f.violation.detail.clone(),
                trace: vec![],
                shrink_runs: 0,
            }
        } else {
            in_scratch(&format!("{}-shrink", p.id), || {
                let (best, tried) = shrink(
                    p.run,
                    entropy,
                    f.choices.clone(),
                    &f.violation.class,
                    Duration::from_secs(25),
                );
                let r = execute(p.run, entropy, RunMode::Replay(best.clone()), true);
                let v = match r.outcome {
                    Outcome::Violated(v) => v,
                    _ => f.violation.clone(),
                };
                Replay {
                    property: p.id.into(),
                    verif_seed: seed,
                    run_index: f.index,
                    entropy,
                    choices: Some(best),
                    probe: None,
                    class: v.class,
                    detail: v.detail,
                    trace: r.trace,
                    shrink_runs: tried,
                }
            })
        };
        println!(
            "minimised to {} choices in {} runs: [{}] {}",
            replay.choices.as_ref().map_or(0, |c| c.len()),
            replay.shrink_runs,
            replay.class,
            replay.detail
        );
        // The replay must fail the same way in a fresh process, if need be as it was first found.
        let mut replay = replay;
        let mut again = None;
        let mut path = PathBuf::new();
        for choices in [replay.choices.clone(), Some(f.choices.clone()), None] {
            replay.choices = choices;
            path = write_replay(&replay);
            again = std::env::current_exe()
                .ok()
                .and_then(|e| Command::new(e).args(["replay", "--quiet", "--file"]).arg(&path).status().ok())
                .and_then(|s| s.code());
            if again == Some(1) {
                break;
            }
        }
        if again != Some(1) {
            eprintln!("harness error: the replay file did not reproduce the violation ({again:?})");
            return 2;
        }
        vio_json.push(json!({"class": replay.class, "detail": replay.detail, "replay": path}));
        violated.get_or_insert(path);
    } else if let Some(m) = &rep.harness {
        eprintln!("harness error: {m}");
        return 2;
    }

    let wall = start.elapsed().as_secs_f64();
    evidence(&p, &tier, seed, &batch, count, wall, &vio_json, &finding_lines);
    println!(
        "{} runs ({} with faults), {} distinct states, {:.1}s of wall clock, {:.1} simulated hours, log hash {:016x}",
        rep.runs,
        rep.faulty_runs,
        rep.stats.states.len(),
        wall,
        rep.stats.sim_ms as f64 / 3.6e6,
        rep.log_hash
    );
    for (k, v) in &rep.stats.faults {
        println!("  fault {k}: {v}");
    }
    for (k, v) in &rep.stats.probes {
        println!("  reached {k}: {v}");
    }
    if let Some(path) = violated {
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !rep.completed {
        println!("note: the wall-clock cap ended the batch early");
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Property,
    tier: &str,
    seed: u64,
    b: &Batch,
    count: u64,
    wall: f64,
    violations: &[serde_json::Value],
    findings: &[String],
) {
    let rep = &b.rep;
    let stuck: Vec<&str> = p
        .must_reach
        .iter()
        .copied()
        .filter(|m| !rep.stats.probes.contains_key(*m) && !rep.stats.faults.contains_key(*m))
        .collect();
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.runs,
            "distinct_nontrivial": rep.stats.states.len(),
            "rule": p.state_rule,
            "samples": rep.samples.iter().take(8).collect::<Vec<_>>(),
            "planned_runs": count,
            "completed": rep.completed,
            "runs_with_faults": rep.faulty_runs,
            "runs_per_hour": (rep.runs as f64 / b.wall.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (rep.runs as f64 / b.wall.max(0.001) * 3600.0) as u64,
            "simulated_hours": rep.stats.sim_ms as f64 / 3.6e6,
            "simulated_steps": rep.stats.steps,
            "faults_injected": rep.stats.faults,
            "rare_conditions_reached": rep.stats.probes,
            "expected_but_not_reached": stuck,
            "event_log_hash": format!("{:016x}", rep.log_hash),
            "real_components": p.real,
            "stubbed_components": p.stub,
            "known_findings": findings,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_vec_pretty(&ev).expect("json"),
    );
}

fn replay(args: &[String]) -> i32 {
    let file = arg(args, "--file")
        .or_else(|| args.get(2).cloned())
        .expect("--file");
    let quiet = args.iter().any(|a| a == "--quiet");
    let r: Replay = serde_json::from_slice(&std::fs::read(&file).expect("replay file")).expect("replay json");
    let p = props::all()
        .into_iter()
        .find(|p| p.id == r.property)
        .expect("property of the replay file");
    let f = match &r.probe {
        Some(name) => p.probes.iter().find(|(n, _)| n == name).expect("probe").1,
        None => p.run,
    };
    if r.class == "abort" {
        let died = aborts(&p, r.verif_seed, r.run_index);
        if !quiet {
            if died {
                println!("[abort] {ABORT}\nVIOLATION property={} replay={}", p.id, file);
            } else {
                println!("the property holds on this replay");
            }
        }
        return i32::from(died);
    }
    let mode = match &r.choices {
        Some(c) => RunMode::Replay(c.clone()),
        None => RunMode::Generate(run_seed(r.verif_seed, p.id, r.run_index)),
    };
    let out = in_scratch("replay", || execute(f, r.entropy, mode, true));
    if !quiet {
        for l in &out.trace {
            println!("{l}");
        }
    }
    match out.outcome {
        Outcome::Violated(v) => {
            if !quiet {
                println!("{v}");
                println!("VIOLATION property={} replay={}", p.id, file);
            }
            if v.class == r.class {
                1
            } else {
                3
            }
        }
        Outcome::Ok => {
            if !quiet {
                println!("the property holds on this replay");
            }
            0
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

/// Run one index with a trace, for development.
fn probe_cmd(args: &[String]) -> i32 {
    let p = find(args);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let i: u64 = arg(args, "--index").and_then(|s| s.parse().ok()).unwrap_or(0);
    let out = in_scratch("one", || {
        execute(
            p.run,
            entropy_of(seed, p.id, i),
            RunMode::Generate(run_seed(seed, p.id, i)),
            true,
        )
    });
    for l in &out.trace {
        println!("{l}");
    }
    println!("{:?}\n{:?}", out.outcome, out.stats.probes);
    0
}

/// Run the same seeds twice with different worker counts and compare the event-log hashes.
fn determinism(args: &[String]) -> i32 {
    let count: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(400);
    let only = arg(args, "--property");
    let mut bad = 0;
    let mut table: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    for p in props::all() {
        if only.as_ref().is_some_and(|o| o != p.id) {
            continue;
        }
        for seed in 1..=4u64 {
            let mut hashes = vec![];
            for workers in [8u64, 3, 1] {
                let n = if workers == 1 { count / 4 } else { count };
                let _ = n;
                match run_batch(&p, count, 600, seed, workers) {
                    Ok(b) => hashes.push(b.rep.log_hash),
                    Err(e) => {
                        eprintln!("{}: {e}", p.id);
                        return 2;
                    }
                }
            }
            if hashes.windows(2).any(|w| w[0] != w[1]) {
                bad += 1;
                println!("{} seed {seed}: DIVERGED {hashes:x?}", p.id);
            }
            table.entry(p.id.to_string()).or_default().extend(hashes);
        }
        println!("{}: {:x?}", p.id, table[p.id]);
    }
    i32::from(bad > 0)
}

#[allow(dead_code)]
fn unused(_: &Path) {}
