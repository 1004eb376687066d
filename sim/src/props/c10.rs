//! C10: every request to a tweak server returns exactly what the server sent for that request, or
//! an error, in time.
use super::Property;
use crate::{core::*, ensure, fail, note, world::secp};
use bdk_sp_oracles::tweaks::blindbit::BlindbitClient;
use bitcoin::{
    secp256k1::{PublicKey, SecretKey},
    Amount, Network,
};
use futures::{stream::FuturesUnordered, FutureExt, StreamExt};
use reqwest::{SimBody, SimReply, Url};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    future::Future,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll},
    time::Duration,
};

pub const PROPERTY: Property = Property {
    id: "C10",
    run,
    quick: 12_000,
    thorough: 250_000,
    probes: &[],
    state_rule: "distinct (endpoint, reply kind, result, requests in flight at the time, status class, reply earlier or later than the deadline) tuples",
    must_reach: &[
        "good reply",
        "error status with a plausible body",
        "truncated reply",
        "invalid point",
        "reply for another endpoint",
        "hanging server",
        "late reply",
        "late body",
        "body breaks off",
        "connection refused",
        "many requests in flight",
        "large reply",
        "bad host url",
        "host url with a path",
        "request abandoned",
        "deeply nested reply",
        "impossible height",
    ],
    real: &["bdk_sp_oracles::tweaks::blindbit::BlindbitClient", "serde_json, url, tokio timers"],
    stub: &["reqwest: stand-in with the same interface, replies decided by the simulator on the simulated clock; no redirects, no character set detection"],
    assumptions: &["promised time: 5 s for the height and the server information, 30 s for the tweaks of a block"],
};

const HEIGHT_LIMIT: u64 = 5_000;
const INFO_LIMIT: u64 = 5_000;
const TWEAKS_LIMIT: u64 = 30_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Ask {
    Height,
    Info,
    Tweaks(u32, u64),
}

impl Ask {
    fn kind(&self) -> u8 {
        match self {
            Ask::Height => 0,
            Ask::Info => 1,
            Ask::Tweaks(..) => 2,
        }
    }
    fn limit(&self) -> u64 {
        match self {
            Ask::Height => HEIGHT_LIMIT,
            Ask::Info => INFO_LIMIT,
            Ask::Tweaks(..) => TWEAKS_LIMIT,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Info {
    network: Network,
    height: u32,
    flags: [bool; 4],
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Answer {
    Height(u32),
    Info(Info),
    Tweaks(Vec<PublicKey>),
}

/// What the client may make of one reply.
#[derive(Clone, Debug)]
enum Expect {
    /// Timely and well formed: exactly this.
    Value(Answer),
    /// A value or an error: the reply has no single reading.
    OneOf(Vec<Answer>),
    Error,
}

struct Sent {
    kind: &'static str,
    expect: Expect,
    timely: bool,
}

#[derive(Default)]
struct Server {
    /// Replies sent, by request.
    sent: BTreeMap<usize, Vec<Sent>>,
    /// What each request was for.
    asked: BTreeMap<usize, Ask>,
    prefix: String,
    host: String,
    problem: Option<Violation>,
    keys: Vec<PublicKey>,
    only_good: bool,
}

thread_local! {
    static CURRENT: RefCell<Option<usize>> = const { RefCell::new(None) };
}

/// Tells the server which request is being made while the request's future runs.
struct Tagged<F>(usize, F);

impl<F: Future + Unpin> Future for Tagged<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        CURRENT.with(|c| *c.borrow_mut() = Some(self.0));
        let r = Pin::new(&mut self.1).poll(cx);
        CURRENT.with(|c| *c.borrow_mut() = None);
        r
    }
}

fn network_name(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "bitcoin",
        Network::Testnet => "testnet",
        Network::Testnet4 => "testnet4",
        Network::Signet => "signet",
        _ => "regtest",
    }
}

impl Server {
    fn answer(&self, ask: Ask) -> Answer {
        match ask {
            Ask::Height => Answer::Height(*pick_from(&[0, 1, 255, 840_000, 499_999_999]) ^ pick(2)),
            Ask::Info => Answer::Info(Info {
                network: *pick_from(&[Network::Regtest, Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet]),
                height: pick(499_999_999),
                flags: [chance(1, 2), chance(1, 2), chance(1, 2), chance(1, 2)],
            }),
            Ask::Tweaks(..) => {
                let n = match weighted(&[6, 2, 1]) {
                    0 => pick(6),
                    1 => range(6, 40),
                    _ => {
                        probe("large reply");
                        range(200, 1500)
                    }
                };
                let start = pick(self.keys.len() as u32) as usize;
                Answer::Tweaks((0..n as usize).map(|i| self.keys[(start + i * 7) % self.keys.len()]).collect())
            }
        }
    }

    fn text(&self, a: &Answer) -> String {
        let sp = *pick_from(&["", " ", "\n  "]);
        match a {
            Answer::Height(h) => {
                let extra = *pick_from(&["", "\"unknown\":{\"height\":7},"]);
                format!("{{{sp}{extra}\"height\":{sp}{h}}}")
            }
            Answer::Info(i) => {
                let mut f = vec![
                    format!("\"network\":{sp}\"{}\"", network_name(i.network)),
                    format!("\"height\":{}", i.height),
                    format!("\"tweaks_only\":{}", i.flags[0]),
                    format!("\"tweaks_full_basic\":{}", i.flags[1]),
                    format!("\"tweaks_full_with_dust_filter\":{}", i.flags[2]),
                    format!("\"tweaks_cut_through_with_dust_filter\":{}", i.flags[3]),
                ];
                if chance(1, 3) {
                    f.push("\"version\":\"2\"".into());
                }
                shuffle(&mut f);
                format!("{{{}}}", f.join(","))
            }
            Answer::Tweaks(t) => {
                let items: Vec<String> = t.iter().map(|k| format!("\"{k}\"")).collect();
                format!("[{sp}{}{sp}]", items.join(&format!(",{sp}")))
            }
        }
    }

    /// A malformed reply and what may become of it.
    fn malformed(&self, ask: Ask) -> (&'static str, Vec<u8>, Expect) {
        let good = self.answer(ask);
        let text = self.text(&good);
        match pick(9) {
            0 => {
                probe("truncated reply");
                let cut = pick(text.len() as u32) as usize;
                ("truncated", text.as_bytes()[..cut].to_vec(), Expect::Error)
            }
            1 => {
                let tail = *pick_from(&["x", "]", "}", " {}", ",", "[]"]);
                ("trailing data", format!("{text}{tail}").into_bytes(), Expect::Error)
            }
            2 => {
                let t = *pick_from(&["null", "true", "17", "\"17\"", "\"height\"", "<html>busy</html>", "NaN", " "]);
                ("wrong type", t.as_bytes().to_vec(), Expect::Error)
            }
            3 => {
                probe("reply for another endpoint");
                let other = match ask {
                    Ask::Height => "[]".to_string(),
                    Ask::Info => self.text(&Answer::Height(12)),
                    Ask::Tweaks(..) => self.text(&self.answer(if chance(1, 2) { Ask::Info } else { Ask::Height })),
                };
                let expect = if ask == Ask::Height && other == "[]" { Expect::Error } else { Expect::Error };
                ("another endpoint's reply", other.into_bytes(), expect)
            }
            4 => {
                probe("deeply nested reply");
                let n = range(200, 20_000) as usize;
                let open = match ask {
                    Ask::Tweaks(..) => "[".repeat(n),
                    _ => "{\"height\":".repeat(n),
                };
                ("deeply nested", open.into_bytes(), Expect::Error)
            }
            5 => {
                let mut b = text.into_bytes();
                let i = pick(b.len() as u32) as usize;
                b.insert(i, *pick_from(&[0xff, 0xc0, 0x80]));
                // Where the bytes end up inside a text nobody reads, the reply still means the same.
                ("not utf-8", b, if matches!(ask, Ask::Tweaks(..)) { Expect::Error } else { Expect::OneOf(vec![good]) })
            }
            _ => match (ask, good) {
                (Ask::Tweaks(..), Answer::Tweaks(t)) => {
                    probe("invalid point");
                    let mut items: Vec<String> = t.iter().map(|k| format!("\"{k}\"")).collect();
                    let k = self.keys[0];
                    let x = &k.to_string()[2..];
                    let mut either = None;
                    let bad = match pick(11) {
                        0 => format!("\"05{x}\""),
                        1 => format!("\"{x}\""),
                        2 => format!("\"02{}\"", "f".repeat(64)),
                        3 => format!("\"02{}\"", "0".repeat(64)),
                        4 => format!("\"02{x}00\""),
                        5 => format!("\"02{}\"", &x[..63]),
                        6 => format!("\"02{}g\"", &x[..63]),
                        7 => "null".into(),
                        8 => "2".into(),
                        9 => "\"\"".into(),
                        _ => {
                            either = Some(k);
                            let s: String = k.serialize_uncompressed().iter().map(|b| format!("{b:02x}")).collect();
                            format!("\"{s}\"")
                        }
                    };
                    let at = pick(items.len() as u32 + 1) as usize;
                    items.insert(at, bad);
                    let expect = match either {
                        Some(k) => {
                            let mut v = t.clone();
                            v.insert(at, k);
                            Expect::OneOf(vec![Answer::Tweaks(v)])
                        }
                        None => Expect::Error,
                    };
                    ("invalid point", format!("[{}]", items.join(",")).into_bytes(), expect)
                }
                (_, good) => {
                    probe("impossible height");
                    let (bad, reading) = match pick(8) {
                        0 => ("500000000", None),
                        1 => ("4294967295", None),
                        2 => ("4294967296", None),
                        3 => ("-1", None),
                        4 => ("\"5\"", Some(5)),
                        5 => ("12.0", Some(12)),
                        6 => ("18446744073709551616", None),
                        _ => ("null", None),
                    };
                    let (text, expect) = match good {
                        Answer::Height(h) => {
                            if chance(1, 4) {
                                let t = format!("{{\"height\":{h},\"height\":3}}");
                                (t, Expect::OneOf(vec![Answer::Height(h), Answer::Height(3)]))
                            } else {
                                let e = match reading {
                                    Some(r) => Expect::OneOf(vec![Answer::Height(r)]),
                                    None => Expect::Error,
                                };
                                (format!("{{\"height\":{bad}}}"), e)
                            }
                        }
                        Answer::Info(i) => {
                            let t = self.text(&Answer::Info(i.clone()));
                            match pick(3) {
                                0 => {
                                    let t = t.replace(&format!("\"height\":{}", i.height), &format!("\"height\":{bad}"));
                                    let e = match reading {
                                        Some(r) => Expect::OneOf(vec![Answer::Info(Info { height: r, ..i })]),
                                        None => Expect::Error,
                                    };
                                    (t, e)
                                }
                                1 => (t.replace(&format!("\"{}\"", network_name(i.network)), "\"litecoin\""), Expect::Error),
                                _ => (t.replace("\"tweaks_full_basic\"", "\"tweaks_full\""), Expect::Error),
                            }
                        }
                        Answer::Tweaks(_) => unreachable!("handled above"),
                    };
                    ("impossible value", text.into_bytes(), expect)
                }
            },
        }
    }

    fn handle(&mut self, id: usize, url: &Url) -> SimReply {
        let ask = self.asked[&id];
        let want_path = match ask {
            Ask::Height => format!("{}block-height", self.prefix),
            Ask::Info => format!("{}info", self.prefix),
            Ask::Tweaks(h, _) => format!("{}tweaks/{h}", self.prefix),
        };
        let query: Vec<(String, String)> = url.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect();
        let want_query = match ask {
            Ask::Tweaks(_, d) => vec![("dustLimit".to_string(), d.to_string())],
            _ => vec![],
        };
        if url.path() != want_path || url.host_str() != Some(self.host.as_str()) || query != want_query {
            self.problem.get_or_insert(Violation::new("request", format!("{ask:?} asked the server for {url}, not {want_path} {want_query:?}")));
        }
        let faulty = !self.only_good && chance(1, 2);
        let delay = |lim: u64| -> u64 {
            match pick(5) {
                0 => 0,
                1 => u64::from(pick(900)),
                2 => u64::from(range(1, lim as u32 / 2 - 100)),
                3 => lim / 2 - 100,
                _ => 1,
            }
        };
        let lim = ask.limit();
        if !faulty {
            let a = self.answer(ask);
            probe("good reply");
            let body = self.text(&a).into_bytes();
            let status = *pick_from(&[200u16, 200, 200, 203]);
            self.log(id, "good", Expect::Value(a), true);
            return SimReply::Response { delay_ms: delay(lim), body_delay_ms: delay(lim), status, body: SimBody::Full(body) };
        }
        let late = || lim + 1_000 + u64::from(pick(200_000));
        match weighted(&[6, 4, 2, 2, 2, 2, 2]) {
            0 => {
                fault("malformed reply");
                let (kind, body, expect) = self.malformed(ask);
                self.log(id, kind, expect, true);
                SimReply::Response { delay_ms: delay(lim), body_delay_ms: delay(lim), status: 200, body: SimBody::Full(body) }
            }
            1 => {
                fault("error status");
                let status = *pick_from(&[404u16, 500, 503, 429, 400, 401, 403, 410, 502, 504, 599]);
                let body = match pick(3) {
                    0 => {
                        let a = self.answer(ask);
                        probe("error status with a plausible body");
                        self.text(&a).into_bytes()
                    }
                    1 => b"[]".to_vec(),
                    _ => b"{\"error\":\"busy\"}".to_vec(),
                };
                self.log(id, "error status", Expect::Error, true);
                SimReply::Response { delay_ms: delay(lim), body_delay_ms: delay(lim), status, body: SimBody::Full(body) }
            }
            2 => {
                fault("connection refused");
                probe("connection refused");
                self.log(id, "connection refused", Expect::Error, true);
                SimReply::ConnectError { delay_ms: delay(lim) }
            }
            3 => {
                fault("hanging server");
                probe("hanging server");
                self.log(id, "hang", Expect::Error, false);
                SimReply::Hang
            }
            4 => {
                fault("body breaks off");
                probe("body breaks off");
                self.log(id, "body breaks off", Expect::Error, true);
                SimReply::Response { delay_ms: delay(lim), body_delay_ms: delay(lim), status: 200, body: SimBody::BodyError }
            }
            5 => {
                fault("late reply");
                probe("late reply");
                let a = self.answer(ask);
                let body = self.text(&a).into_bytes();
                self.log(id, "late", Expect::Value(a), false);
                SimReply::Response { delay_ms: late(), body_delay_ms: 0, status: 200, body: SimBody::Full(body) }
            }
            _ => {
                fault("late body");
                probe("late body");
                let a = self.answer(ask);
                let body = self.text(&a).into_bytes();
                self.log(id, "late body", Expect::Value(a), false);
                SimReply::Response { delay_ms: delay(lim), body_delay_ms: late(), status: 200, body: SimBody::Full(body) }
            }
        }
    }

    fn log(&mut self, id: usize, kind: &'static str, expect: Expect, timely: bool) {
        note!("request {id} {:?}: reply {kind}, expecting {expect:?}", self.asked[&id]);
        self.sent.entry(id).or_default().push(Sent { kind, expect, timely });
    }
}

/// None: an error.
async fn ask(client: &BlindbitClient, a: Ask) -> Option<Answer> {
    match a {
        Ask::Height => client.block_height().await.ok().map(|h| Answer::Height(h.to_consensus_u32())),
        Ask::Info => client.info().await.ok().map(|i| {
            Answer::Info(Info {
                network: i.network,
                height: i.height.to_consensus_u32(),
                flags: [i.tweaks_only, i.tweaks_full_basic, i.tweaks_full_with_dust_filter, i.tweaks_cut_through_with_dust_filter],
            })
        }),
        Ask::Tweaks(h, d) => client.tweaks(h, Amount::from_sat(d)).await.ok().map(Answer::Tweaks),
    }
}

fn bad_hosts() -> Res {
    let junk = ["", "blindbit", "//host/", "http://", "http://[::1", "http://a b/", ":8000", "http://h:99999/", "mailto:x", "data:,x"];
    let h = *pick_from(&junk);
    probe("bad host url");
    fault("bad host url");
    // Either refused outright or every request is an error; in no case an abort.
    if let Ok(c) = guarded("BlindbitClient::new", || BlindbitClient::new(h.to_string()))? {
        let rt = runtime();
        let r = guarded("block_height", || rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), c.block_height()).await }))?;
        ensure!(!matches!(r, Ok(Ok(_))), "made-up", "a height out of the server {h:?}");
    }
    Ok(())
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime")
}

fn run() -> Res {
    reqwest::sim_install(None);
    if chance(1, 12) {
        return bad_hosts();
    }
    let host = "tweaks.example".to_string();
    let (base, prefix) = *pick_from(&[
        ("http://tweaks.example", "/"),
        ("http://tweaks.example/", "/"),
        ("https://tweaks.example:8000/api", "/api/"),
        ("https://tweaks.example/api/v1/", "/api/v1/"),
        ("http://tweaks.example/a%20b", "/a%20b/"),
    ]);
    if prefix != "/" {
        probe("host url with a path");
    }
    let keys: Vec<PublicKey> = (0..range(1, 12))
        .map(|_| SecretKey::from_slice(&fresh32()).expect("key").public_key(secp()))
        .collect();
    let server = Rc::new(RefCell::new(Server {
        prefix: prefix.into(),
        host,
        keys,
        only_good: chance(1, 8),
        ..Default::default()
    }));
    {
        let server = server.clone();
        reqwest::sim_install(Some(Rc::new(move |url: &Url| {
            let id = CURRENT.with(|c| *c.borrow()).expect("harness: a request outside any task");
            server.borrow_mut().handle(id, url)
        })));
    }
    let client = match guarded("BlindbitClient::new", || BlindbitClient::new(base.to_string()))? {
        Ok(c) => c,
        Err(e) => fail!("host", "the server address {base} is refused: {e:?}"),
    };
    let n = if chance(1, 10) {
        probe("many requests in flight");
        range(50, 220)
    } else {
        range(1, 12)
    };
    let heights: Vec<u32> = (0..3).map(|_| *pick_from(&[0, 1, 840_000, u32::MAX, 7])).collect();
    let mut plan: Vec<(usize, Ask, u64, Option<u64>)> = vec![];
    for id in 0..n as usize {
        let a = match weighted(&[3, 2, 1]) {
            0 => Ask::Tweaks(*pick_from(&heights), *pick_from(&[1000, 0, 1, u64::MAX, 21_000_000_0000_0000])),
            1 => Ask::Height,
            _ => Ask::Info,
        };
        let start = u64::from(pick(3) * pick(4000));
        let abandon = chance(1, 15).then(|| u64::from(pick(6000)));
        server.borrow_mut().asked.insert(id, a);
        plan.push((id, a, start, abandon));
    }
    let patience = Duration::from_secs(3600);
    let rt = runtime();
    // (id, result, start ms, end ms); None: did not end.
    type Done = (usize, Ask, Option<Option<Answer>>, u64, bool);
    let results: Vec<Done> = guarded("client request", || {
        rt.block_on(async {
            let mut all = FuturesUnordered::new();
            for (id, a, start, abandon) in plan {
                let client = if id % 2 == 0 { client.clone() } else { client.clone().clone() };
                all.push(async move {
                    tokio::time::sleep(Duration::from_millis(start)).await;
                    let t0 = tokio::time::Instant::now();
                    let req = Tagged(id, ask(&client, a).boxed_local());
                    let (limit, abandoned) = match abandon {
                        Some(ms) => (Duration::from_millis(ms), true),
                        None => (patience, false),
                    };
                    let r = tokio::time::timeout(limit, req).await.ok();
                    (id, a, r, t0.elapsed().as_millis() as u64, abandoned)
                });
            }
            let mut out = vec![];
            while let Some(r) = all.next().await {
                step();
                out.push(r);
            }
            sim_time(tokio::time::Instant::now().elapsed().as_millis() as u64);
            out
        })
    })?;
    reqwest::sim_install(None);
    let s = server.borrow();
    if let Some(p) = &s.problem {
        return Err(p.clone());
    }
    for (id, a, r, took, abandoned) in results {
        sim_time(took);
        let none = vec![];
        let sent = s.sent.get(&id).unwrap_or(&none);
        let kind = sent.last().map(|x| x.kind).unwrap_or("none");
        state(&(a.kind(), kind, r.as_ref().map(|x| x.is_some()), n.min(3), took / 1000 > a.limit() / 2000));
        let Some(got) = r else {
            if abandoned {
                probe("request abandoned");
                continue;
            }
            fail!("never ends", "{a:?} still waits after an hour; the reply was: {kind}");
        };
        ensure!(
            took <= a.limit() + 50,
            "late",
            "{a:?} took {took} ms where {} ms are promised; the reply was: {kind}",
            a.limit()
        );
        ensure!(!sent.is_empty() || got.is_none(), "made-up", "{a:?} returned {got:?} without asking the server");
        match &got {
            Some(v) => {
                let ok = sent.iter().any(|x| match &x.expect {
                    Expect::Value(w) => w == v,
                    Expect::OneOf(ws) => ws.contains(v),
                    Expect::Error => false,
                });
                ensure!(ok, "wrong answer", "{a:?} returned {v:?}, which the server did not send for it; the reply was: {kind}");
            }
            None => {
                let refused = sent.iter().all(|x| x.timely && matches!(x.expect, Expect::Value(_)));
                ensure!(!refused || sent.is_empty(), "refused", "{a:?} is an error although the server answered it in time");
            }
        }
    }
    Ok(())
}
