//! A simulated full node behind its JSON-RPC interface: the chain moves on, reorganises and the
//! node fails between any two calls.
use crate::{core::*, seams, wsim::Universe};
use bitcoin::{consensus::encode::serialize_hex, BlockHash, Transaction, Txid};
use jsonrpc::sim::Reply;
use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeSet,
    rc::Rc,
    str::FromStr,
};

pub struct Node {
    pub u: Rc<RefCell<Universe>>,
    /// No faults, the chain stands still.
    pub calm: Cell<bool>,
    /// Faults per 200 calls.
    pub fault_rate: Cell<u32>,
    /// Changes of the world per 200 calls.
    pub change_rate: Cell<u32>,
    pub served: RefCell<BTreeSet<BlockHash>>,
    pub calls: Cell<u64>,
    /// Largest time one call takes.
    pub slow_ms: Cell<u32>,
    /// Where the node forgot a transaction it should know.
    pub misses: Cell<u64>,
    /// The process asking is killed at this call.
    pub kill_at: Cell<Option<u64>>,
    /// The last whole block handed out.
    pub last_block: Cell<Option<BlockHash>>,
}

impl Node {
    pub fn new(u: Rc<RefCell<Universe>>) -> Rc<Self> {
        Rc::new(Self {
            u,
            calm: Cell::new(false),
            fault_rate: Cell::new(0),
            change_rate: Cell::new(0),
            served: RefCell::default(),
            calls: Cell::new(0),
            slow_ms: Cell::new(0),
            misses: Cell::new(0),
            kill_at: Cell::new(None),
            last_block: Cell::new(None),
        })
    }

    pub fn install(self: &Rc<Self>) {
        let me = self.clone();
        jsonrpc::sim::install(Some(Rc::new(move |body: &[u8]| me.reply(body))));
    }

    pub fn uninstall() {
        jsonrpc::sim::install(None);
    }

    /// Something happens in the world.
    pub fn event(&self) {
        let mut u = self.u.borrow_mut();
        match weighted(&[3, 3, 4, 2, 1]) {
            0 => {
                u.pay();
            }
            1 => {
                u.spend();
            }
            2 => {
                u.mine(2);
            }
            3 => {
                u.reorg();
            }
            _ => {
                u.replace();
            }
        }
    }

    fn reply(&self, body: &[u8]) -> Reply {
        step();
        self.calls.set(self.calls.get() + 1);
        if self.kill_at.get().is_some_and(|n| self.calls.get() >= n) {
            if !seams::disk_dead() {
                fault("killed between two requests");
            }
            seams::disk_kill();
            return Reply::Socket(std::io::ErrorKind::ConnectionReset);
        }
        if self.calls.get() > 60_000 {
            panic!("harness: the scan does not end");
        }
        let req: Value = serde_json::from_slice(body).expect("harness: request");
        let id = req["id"].clone();
        let method = req["method"].as_str().unwrap_or_default().to_string();
        let params: Vec<Value> = req["params"].as_array().cloned().unwrap_or_default();
        let slow = self.slow_ms.get();
        if slow > 0 {
            seams::clock_advance(u64::from(pick(slow)));
        }
        if !self.calm.get() {
            if chance(self.change_rate.get(), 200) {
                fault("chain changes during a scan");
                self.event();
            }
            if chance(self.fault_rate.get(), 200) {
                return self.broken(&id, &method);
            }
        }
        let r = self.answer(&method, &params);
        let body = match r {
            Ok(v) => json!({"result": v, "error": null, "id": id}),
            Err((code, msg)) => json!({"result": null, "error": {"code": code, "message": msg}, "id": id}),
        };
        Reply::Body(body.to_string().into_bytes())
    }

    fn broken(&self, id: &Value, method: &str) -> Reply {
        let kinds = [
            std::io::ErrorKind::ConnectionReset,
            std::io::ErrorKind::TimedOut,
            std::io::ErrorKind::ConnectionRefused,
            std::io::ErrorKind::UnexpectedEof,
        ];
        match pick(6) {
            0 => {
                fault("rpc socket error");
                Reply::Socket(*pick_from(&kinds))
            }
            1 => {
                fault("rpc http status");
                Reply::Status(*pick_from(&[500, 503, 401, 404]))
            }
            2 => {
                fault("rpc error reply");
                let code = *pick_from(&[-28, -1, -32603, -8]);
                Reply::Body(json!({"result": null, "error": {"code": code, "message": "Loading block index"}, "id": id}).to_string().into_bytes())
            }
            3 if method == "getrawtransaction" => {
                fault("rpc transaction not found");
                self.misses.set(self.misses.get() + 1);
                Reply::Body(json!({"result": null, "error": {"code": -5, "message": "No such mempool or blockchain transaction"}, "id": id}).to_string().into_bytes())
            }
            4 => {
                fault("rpc truncated reply");
                Reply::Body(b"{\"result\":{\"hash\":\"00".to_vec())
            }
            _ => {
                fault("rpc null result");
                Reply::Body(json!({"result": null, "error": null, "id": id}).to_string().into_bytes())
            }
        }
    }

    fn answer(&self, method: &str, p: &[Value]) -> Result<Value, (i64, String)> {
        let u = self.u.borrow();
        let not_found = |what: &str| (-5i64, format!("{what} not found"));
        let hash = |i: usize| -> Result<BlockHash, (i64, String)> {
            p.get(i)
                .and_then(|v| v.as_str())
                .and_then(|s| BlockHash::from_str(s).ok())
                .ok_or((-8, "block hash expected".into()))
        };
        match method {
            "getblockcount" => Ok(json!(u.chain.height())),
            "getbestblockhash" => Ok(json!(u.chain.tip())),
            "getblockhash" => {
                let h = p.first().and_then(|v| v.as_u64()).ok_or((-8, "height expected".to_string()))?;
                u.chain
                    .hash_at(h as u32)
                    .map(|h| json!(h))
                    .ok_or((-8, "Block height out of range".into()))
            }
            "getblock" | "getblockheader" => {
                let h = hash(0)?;
                let (height, b) = u.chain.by_hash.get(&h).ok_or(not_found("Block"))?;
                let active = u.chain.hash_at(*height) == Some(h);
                let verbose = match p.get(1) {
                    None => 1,
                    Some(Value::Bool(b)) => u64::from(*b),
                    Some(v) => v.as_u64().unwrap_or(1),
                };
                if verbose == 0 {
                    if method == "getblockheader" {
                        return Ok(json!(serialize_hex(&b.header)));
                    }
                    self.served.borrow_mut().insert(h);
                    self.last_block.set(Some(h));
                    return Ok(json!(serialize_hex(b)));
                }
                let mut o = json!({
                    "hash": h,
                    "confirmations": if active { i64::from(u.chain.height() - height) + 1 } else { -1 },
                    "size": b.total_size(),
                    "strippedsize": b.total_size(),
                    "weight": b.weight().to_wu(),
                    "height": height,
                    "version": b.header.version.to_consensus(),
                    "versionHex": "00000002",
                    "merkleroot": b.header.merkle_root,
                    "time": b.header.time,
                    "mediantime": b.header.time,
                    "nonce": b.header.nonce,
                    "bits": "207fffff",
                    "difficulty": 4.656542373906925e-10,
                    "chainwork": format!("{:064x}", 2 * (height + 1)),
                    "nTx": b.txdata.len(),
                });
                if *height > 0 {
                    o["previousblockhash"] = json!(b.header.prev_blockhash);
                }
                if active {
                    if let Some(n) = u.chain.hash_at(height + 1) {
                        o["nextblockhash"] = json!(n);
                    }
                }
                if method == "getblock" {
                    o["tx"] = json!(b.txdata.iter().map(|t| t.compute_txid()).collect::<Vec<_>>());
                }
                Ok(o)
            }
            "getrawtransaction" => {
                let id = p
                    .first()
                    .and_then(|v| v.as_str())
                    .and_then(|s| Txid::from_str(s).ok())
                    .ok_or((-8, "txid expected".to_string()))?;
                let verbose = match p.get(1) {
                    Some(Value::Bool(b)) => *b,
                    Some(v) => v.as_u64().unwrap_or(0) > 0,
                    None => false,
                };
                let place = u.chain.blocks.iter().enumerate().find(|(_, b)| b.txdata.iter().any(|t| t.compute_txid() == id));
                let known = place.is_some() || u.funding.contains(&id) || u.mempool().contains(&id);
                if !known {
                    probe("node does not know the transaction any more");
                    self.misses.set(self.misses.get() + 1);
                    return Err((-5, "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.".into()));
                }
                let tx = u.chain.txs.get(&id).expect("harness: a known transaction");
                if !verbose {
                    return Ok(json!(serialize_hex(tx)));
                }
                let mut o = tx_json(tx);
                if let Some((h, b)) = place {
                    o["blockhash"] = json!(b.block_hash());
                    o["confirmations"] = json!(u.chain.height() - h as u32 + 1);
                    o["time"] = json!(b.header.time);
                    o["blocktime"] = json!(b.header.time);
                }
                Ok(o)
            }
            "getrawmempool" => {
                let ids = u.mempool();
                if p.first() != Some(&Value::Bool(true)) {
                    return Ok(json!(ids));
                }
                let mut o = serde_json::Map::new();
                for id in ids {
                    let t = &u.txs[&id].tx;
                    let at = 1_750_000_000u64 + u.order.iter().position(|x| *x == id).unwrap_or(0) as u64;
                    o.insert(
                        id.to_string(),
                        json!({
                            "vsize": t.vsize(), "weight": t.weight().to_wu(), "time": at, "height": u.chain.height(),
                            "descendantcount": 1, "descendantsize": t.vsize(), "ancestorcount": 1, "ancestorsize": t.vsize(),
                            "wtxid": t.compute_wtxid().to_string(),
                            "fees": {"base": 0.00001, "modified": 0.00001, "ancestor": 0.00001, "descendant": 0.00001},
                            "depends": [], "spentby": [], "bip125-replaceable": true, "unbroadcast": false,
                        }),
                    );
                }
                Ok(Value::Object(o))
            }
            "getnetworkinfo" => Ok(json!({"version": 270000})),
            _ => Err((-32601, "Method not found".into())),
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn tx_json(tx: &Transaction) -> Value {
    let vin: Vec<Value> = tx
        .input
        .iter()
        .map(|i| {
            if tx.is_coinbase() {
                return json!({"coinbase": hex(i.script_sig.as_bytes()), "sequence": i.sequence.0});
            }
            let mut v = json!({
                "txid": i.previous_output.txid,
                "vout": i.previous_output.vout,
                "scriptSig": {"asm": "", "hex": hex(i.script_sig.as_bytes())},
                "sequence": i.sequence.0,
            });
            if !i.witness.is_empty() {
                v["txinwitness"] = json!(i.witness.iter().map(hex).collect::<Vec<_>>());
            }
            v
        })
        .collect();
    let vout: Vec<Value> = tx
        .output
        .iter()
        .enumerate()
        .map(|(n, o)| {
            json!({
                "value": o.value.to_btc(),
                "n": n,
                "scriptPubKey": {"asm": "", "hex": hex(o.script_pubkey.as_bytes())},
            })
        })
        .collect();
    json!({
        "hex": serialize_hex(tx),
        "txid": tx.compute_txid(),
        "hash": tx.compute_wtxid(),
        "size": tx.total_size(),
        "vsize": tx.vsize(),
        "weight": tx.weight().to_wu(),
        "version": tx.version.0,
        "locktime": tx.lock_time.to_consensus_u32(),
        "vin": vin,
        "vout": vout,
    })
}

