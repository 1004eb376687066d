//! Paying with the second command line wallet: what it puts together from its own coins is judged
//! by the network's rules, by the recipients and by the wallet's next synchronisation.
use super::{c08, c09};
use crate::{
    cli1::{self, Cli1, End},
    cli2::{self, Plan},
    core::*,
    ensure, fail,
    keys::realise,
    note,
    p2psim::{P2p, TweakServer},
    refmodel,
    rpcsim::Node,
    seams,
    world::*,
    wsim::*,
};
use bitcoin::{
    bip32::{DerivationPath, Fingerprint, KeySource, Xpriv},
    consensus::encode::{deserialize_hex, serialize_hex},
    psbt,
    secp256k1::{schnorr, Message},
    sighash::{Prevouts, SighashCache, TapSighashType},
    Address, Amount, Network, OutPoint, Psbt, ScriptBuf, Transaction, TxIn, TxOut, Witness,
    XOnlyPublicKey,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    str::FromStr,
};

pub fn run() -> Res {
    cli1::clean();
    seams::clock_start();
    let r = if chance(1, 2) { first() } else { inner() };
    seams::clock_stop();
    Node::uninstall();
    TweakServer::uninstall();
    cli1::clean();
    r
}

const SCAN: [&str; 3] = ["scan-rpc", "--url", "127.0.0.1:18443"];

fn inner() -> Res {
    let u = Rc::new(RefCell::new(c08::create()?));
    let node = Node::new(u.clone());
    node.calm.set(true);
    node.install();
    let p2p = P2p::new(u.clone());
    let server = TweakServer::new(u.clone());
    server.install();
    let mut others: Vec<Party> = (1..=range(1, 2) as usize).map(|i| Party::new(i, Network::Regtest)).collect();
    for o in &mut others {
        if chance(1, 2) {
            o.labels.push(*pick_from(&LABELS[1..]));
        }
    }
    let mut spent_any = false;
    for _ in 0..range(1, 4) {
        for _ in 0..range(1, 4) {
            u.borrow_mut().pay();
        }
        if chance(1, 5) {
            c08::label(&u, false)?;
        }
        u.borrow_mut().mine(3);
        if chance(1, 4) {
            u.borrow_mut().reorg();
        }
        sync(&u, &p2p)?;
        if chance(1, 3) {
            derive(&u)?;
        }
        for _ in 0..range(1, 2) {
            spent_any |= pay(&u, &others)?;
            if chance(1, 2) {
                u.borrow_mut().mine(3);
                sync(&u, &p2p)?;
            } else {
                break;
            }
        }
    }
    if spent_any && chance(1, 2) {
        u.borrow_mut().reorg();
    }
    u.borrow_mut().mine(3);
    sync(&u, &p2p)
}

/// The same with the first program, which leaves putting the signatures in place to others.
fn first() -> Res {
    let keys = wallet_keys(0, Network::Regtest);
    let mut u = Universe::new(keys.party.clone());
    u.funded = true;
    let u = Rc::new(RefCell::new(u));
    let cli = Cli1::new(&keys);
    let node = Node::new(u.clone());
    node.calm.set(true);
    node.install();
    let mut others = vec![Party::new(1, Network::Regtest)];
    if chance(1, 2) {
        others[0].labels.push(*pick_from(&LABELS[1..]));
    }
    cli.clean_call(&cli.init_args())?;
    for _ in 0..range(1, 4) {
        for _ in 0..range(1, 4) {
            u.borrow_mut().pay();
        }
        if chance(1, 5) {
            c09::label(&u, &cli)?;
        }
        u.borrow_mut().mine(3);
        if chance(1, 4) {
            u.borrow_mut().reorg();
        }
        scan(&u, &cli)?;
        for _ in 0..range(1, 2) {
            pay_first(&u, &cli, &others)?;
            if chance(1, 2) {
                u.borrow_mut().mine(3);
            }
            scan(&u, &cli)?;
        }
    }
    u.borrow_mut().mine(3);
    scan(&u, &cli)
}

fn scan(u: &Rc<RefCell<Universe>>, cli: &Cli1) -> Res {
    cli.clean_call(&cli.scan_args())?;
    let (coins, h, hash) = cli1::report(&u.borrow(), cli)?;
    cli1::check_synced(&u.borrow(), &coins, h, hash)
}

fn pay_first(u: &Rc<RefCell<Universe>>, cli: &Cli1, others: &[Party]) -> Res {
    let (coins, _, _) = cli1::report(&u.borrow(), cli)?;
    let (me, published) = (u.borrow().party.clone(), u.borrow().published.clone());
    let value_of: BTreeMap<OutPoint, TxOut> = u.borrow().owned().into_iter().map(|c| (c.outpoint, c.txout)).collect();
    let spent: BTreeSet<OutPoint> = {
        let u = u.borrow();
        coins.canonical.keys().flat_map(|id| u.txs[id].tx.input.iter().map(|i| i.previous_output)).collect()
    };
    let unspent: BTreeSet<OutPoint> = value_of
        .keys()
        .filter(|op| coins.canonical.contains_key(&op.txid) && !spent.contains(op))
        .copied()
        .collect();
    let total: u64 = unspent.iter().map(|op| value_of[op].value.to_sat()).sum();
    let sat = match weighted(&[2, 6, 2, 1]) {
        0 => 1000,
        1 => (total / 100 * u64::from(range(5, 90))).max(1000),
        2 => total.saturating_sub(u64::from(pick(2_000))).max(1000),
        _ => total + u64::from(pick(5000)),
    };
    let to = match weighted(&[2, 4, 2]) {
        0 => To::Plain(plain_script(), sat),
        1 => {
            let i = pick(others.len() as u32) as usize;
            To::Sp(i + 1, others[i].labels.last().copied().filter(|l| *l != 0 && chance(1, 2)), sat)
        }
        _ => {
            probe("payment to an address of its own");
            To::Sp(0, *pick_from(&published), sat)
        }
    };
    let how = *pick_from(&["bnb", "largest-first", "smallest-first", "oldest-first", "newest-first"]);
    let mut args: Vec<String> = vec!["new-psbt".into(), "--coin-select".into(), how.into(), "--spend".into(), cli.spend_desc.clone()];
    match &to {
        To::Plain(s, _) => {
            let a = Address::from_script(s, Network::Regtest).expect("address");
            args.extend([sat.to_string(), a.to_string()]);
        }
        To::Sp(i, l, _) => {
            let p = if *i == 0 { &me } else { &others[*i - 1] };
            args.extend(["--code".into(), p.ref_code(*l).to_string(), sat.to_string()]);
        }
    }
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = match cli.call(&args, cli1::DiskPlan::default())?.0 {
        End::Ok(o) => o,
        End::Err(e) => {
            let most = 60 + 70 * unspent.len() as u64 + 2 * 43;
            ensure!(
                total < sat + most,
                "cannot-pay",
                "{} coins of {total} in sum are not enough for {sat}: {e}",
                unspent.len()
            );
            probe("funds do not suffice");
            return Ok(());
        }
        End::Died => unreachable!("no crash was planned"),
    };
    let mut psbt = printed_psbt(&out)?;
    if chance(1, 4) {
        damaged(&psbt, cli)?;
    }
    if chance(1, 4) {
        // Somebody joins in with a coin of his own.
        let coin = Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), fresh_outpoint(&[]), Amount::from_sat(5000));
        let at = pick(psbt.inputs.len() as u32 + 1) as usize;
        psbt.unsigned_tx.input.insert(at, TxIn { previous_output: coin.outpoint, ..Default::default() });
        psbt.inputs.insert(at, psbt::Input { witness_utxo: Some(coin.txout.clone()), ..Default::default() });
        let signed = cli.clean_call(&["sign-psbt", "--psbt", &psbt.to_string(), "--spend", &cli.spend_desc])?;
        let mut signed = printed_psbt(&signed)?;
        let mut tx = signed.unsigned_tx.clone();
        ensure!(tx == psbt.unsigned_tx, "signing-changes", "signing changes the transaction");
        ensure!(signed.inputs[at].tap_key_sig.is_none(), "foreign-input", "it signs an input that is not the wallet's");
        let prev: Vec<TxOut> = signed.inputs.iter().filter_map(|i| i.witness_utxo.clone()).collect();
        for (i, inp) in signed.inputs.iter_mut().enumerate().filter(|(i, _)| *i != at) {
            match inp.tap_key_sig.take() {
                Some(s) => tx.input[i].witness = Witness::p2tr_key_spend(&s),
                None => fail!("not-signed", "input {i}, a coin of the wallet, is not signed"),
            }
            check_witness(&tx, i, &prev)?;
        }
        probe("signed along with somebody else");
        return Ok(());
    }
    let signed = cli.clean_call(&["sign-psbt", "--psbt", &psbt.to_string(), "--spend", &cli.spend_desc])?;
    let signed = printed_psbt(&signed)?;
    ensure!(signed.unsigned_tx == psbt.unsigned_tx, "signing-changes", "signing changes the transaction");
    let mut tx = signed.unsigned_tx.clone();
    for (i, inp) in signed.inputs.iter().enumerate() {
        match &inp.tap_key_sig {
            Some(s) => tx.input[i].witness = Witness::p2tr_key_spend(s),
            None => fail!("not-signed", "input {i}, a coin of the wallet, is not signed"),
        }
    }
    judge(&tx, &unspent, &value_of, &[to], &None, &me, others, 1, 1000)?;
    publish(u, tx, sat)
}

/// What is missing in it must not end in an abort.
fn damaged(psbt: &Psbt, cli: &Cli1) -> Res {
    let mut psbt = psbt.clone();
    let i = pick(psbt.inputs.len() as u32) as usize;
    psbt.inputs[i].witness_utxo = None;
    fault("spent output missing");
    let (end, _) = cli.call(&["sign-psbt", "--psbt", &psbt.to_string(), "--spend", &cli.spend_desc], cli1::DiskPlan::default())?;
    ensure!(matches!(end, End::Err(_)), "blind-signature", "it signs without knowing the coin spent");
    Ok(())
}

fn printed_psbt(out: &[String]) -> Res<Psbt> {
    let doc: serde_json::Value = serde_json::from_str(&out.join("\n")).unwrap_or_default();
    match doc.get("psbt").and_then(|p| p.as_str()).and_then(|p| Psbt::from_str(p).ok()) {
        Some(p) => Ok(p),
        None => fail!("no-transaction", "no transaction was printed: {out:?}"),
    }
}

fn sync(u: &Rc<RefCell<Universe>>, p2p: &Rc<P2p>) -> Res {
    // The tweak server is asked for payments of a thousand or more only.
    let small = u.borrow().owned().iter().any(|c| c.txout.value.to_sat() < 1000);
    let e = if !small && chance(1, 3) {
        cli2::call(&["scan-cbf", "http://tweaks.example"], Some(p2p.clone()), Plan::default())?
    } else {
        cli2::call(&SCAN, None, Plan::default())?
    };
    if let End::Err(e) = e.end {
        fail!("sync-fails", "synchronising fails without any fault: {e}");
    }
    let (v, h, hash) = cli2::report(&u.borrow())?;
    cli2::check_synced(&u.borrow(), &v, h, hash)
}

/// The script the wallet gives for a transaction is the one its output would have.
fn derive(u: &Rc<RefCell<Universe>>) -> Res {
    let u = u.borrow();
    let mined: Vec<_> = u.on_chain().into_keys().filter(|id| u.txs[id].tweak.is_some()).collect();
    if mined.is_empty() {
        return Ok(());
    }
    let id = *pick_from(&mined);
    let r = u.txs[&id].clone();
    let k = pick(4);
    let known: Vec<u32> = u.party.labels.clone();
    let label = if chance(1, 2) && !known.is_empty() { Some(*pick_from(&known)) } else { None };
    let mut args: Vec<String> = vec!["derive-sp-for-tx".into(), "--url".into(), "127.0.0.1:18443".into(), k.to_string()];
    if chance(1, 2) {
        args.extend(["--txid".into(), id.to_string()]);
    } else {
        args.extend(["--tx-hex".into(), serialize_hex(&r.tx)]);
    }
    if let Some(l) = label {
        args.extend(["--label".into(), l.to_string()]);
    }
    drop(u.chain.tip());
    let party = u.party.clone();
    drop(u);
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = cli2::clean_call(&args)?;
    let doc: serde_json::Value = serde_json::from_str(&out.join("\n")).unwrap_or_default();
    let want = shared_spk_for(&party, &r.tweak.expect("filtered"), k, label);
    let got = doc.get("script_pubkey_hex").and_then(|v| v.as_str()).unwrap_or_default();
    ensure!(
        got == want.to_hex_string(),
        "derived-script",
        "the script derived for output {k} (label {label:?}) of a transaction is not the one paid to"
    );
    probe("script derived for a transaction");
    Ok(())
}

enum To {
    /// Known script.
    Plain(ScriptBuf, u64),
    /// A party with the label of its address; the wallet itself has number zero.
    Sp(usize, Option<u32>, u64),
}

/// Returns whether a transaction was made.
fn pay(u: &Rc<RefCell<Universe>>, others: &[Party]) -> Res<bool> {
    let (v, _, _) = cli2::report(&u.borrow())?;
    let me = u.borrow().party.clone();
    let published = u.borrow().published.clone();
    let value_of: BTreeMap<OutPoint, TxOut> = u.borrow().owned().into_iter().map(|c| (c.outpoint, c.txout)).collect();
    let total: u64 = v.unspent.iter().map(|op| value_of[op].value.to_sat()).sum();
    let n = 1 + weighted(&[4, 3, 2, 1]) as u32;
    // From a crumb of what there is to more than that.
    let budget = match weighted(&[2, 6, 2, 1]) {
        0 => 1000 * u64::from(n),
        1 => (total / 100 * u64::from(range(5, 90))).max(1000),
        2 => total.saturating_sub(u64::from(pick(20_000))).max(1000),
        _ => total + u64::from(pick(5000)),
    };
    let mut to: Vec<To> = vec![];
    // The program takes either addresses or codes.
    let plain = chance(1, 4);
    for _ in 0..n {
        let sat = (budget / u64::from(n)).max(600);
        to.push(match if plain { 0 } else { 1 + weighted(&[4, 1]) } {
            0 => To::Plain(plain_script(), sat),
            1 => {
                let i = pick(others.len() as u32) as usize;
                let p = &others[i];
                let l = p.labels.last().copied().filter(|l| *l != 0 && chance(1, 2));
                To::Sp(i + 1, l, sat)
            }
            _ => {
                probe("payment to an address of its own");
                To::Sp(0, *pick_from(&published), sat)
            }
        });
    }
    let rate = *pick_from(&[1u64, 2, 10, 57, 300]);
    let data = chance(1, 4).then(|| "x".repeat(pick(60) as usize + 1));
    let mut args: Vec<String> = vec!["new-tx".into(), "--fee-rate".into(), rate.to_string()];
    for t in &to {
        match t {
            To::Plain(s, sat) => {
                let a = Address::from_script(s, Network::Regtest).expect("address");
                args.extend(["--to".into(), format!("{a}:{sat}")]);
            }
            To::Sp(i, l, sat) => {
                let p = if *i == 0 { &me } else { &others[*i - 1] };
                args.extend(["--to-sp".into(), format!("{}:{sat}", p.ref_code(*l))]);
            }
        }
    }
    if let Some(d) = &data {
        args.extend(["--data".into(), d.clone()]);
    }
    args.extend(["--".into(), cli2::descriptor()]);
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let e = cli2::call(&args, None, Plan::default())?;
    let sum: u64 = to.iter().map(|t| match t { To::Plain(_, s) | To::Sp(_, _, s) => *s }).sum();
    let out = match e.end {
        End::Ok(o) => o,
        End::Err(e) => {
            let most = rate * (60 + 70 * v.unspent.len() as u64 + 43 * (u64::from(n) + 1) + 80);
            ensure!(
                total < sum + most,
                "cannot-pay",
                "{} coins of {total} in sum are not enough for {sum} at {rate} per virtual byte: {e}",
                v.unspent.len()
            );
            probe("funds do not suffice");
            return Ok(false);
        }
        End::Died => unreachable!("no crash was planned"),
    };
    let doc: serde_json::Value = serde_json::from_str(&out.join("\n")).unwrap_or_default();
    let tx: Option<Transaction> = doc.get("tx").and_then(|t| t.as_str()).and_then(|t| deserialize_hex(t).ok());
    let Some(tx) = tx else {
        fail!("no-transaction", "no transaction was printed: {out:?}");
    };
    judge(&tx, &v.unspent, &value_of, &to, &data, &me, others, rate, 1000)?;
    // ---- the world
    publish(u, tx, sum)?;
    Ok(true)
}

/// To the network, if it is possible at all: what was seen as confirmed may not be any more.
fn publish(u: &Rc<RefCell<Universe>>, tx: Transaction, sum: u64) -> Res {
    let mut u = u.borrow_mut();
    let mut there: BTreeSet<_> = u.on_chain().into_keys().collect();
    let pool = u.mempool();
    let taken: BTreeSet<OutPoint> = pool
        .iter()
        .flat_map(|id| u.txs[id].tx.input.iter().map(|i| i.previous_output))
        .chain(u.spent_on_chain())
        .collect();
    there.extend(pool);
    let fits = tx.input.iter().all(|i| there.contains(&i.previous_output.txid) && !taken.contains(&i.previous_output));
    if fits {
        note!("payment of {sum} with {} inputs", tx.input.len());
        ensure!(u.adopt(tx).is_some(), "not-a-coin", "it spends a coin of somebody else");
    }
    Ok(())
}

/// Judges a finished transaction.
#[allow(clippy::too_many_arguments)]
fn judge(
    tx: &Transaction,
    unspent: &BTreeSet<OutPoint>,
    value_of: &BTreeMap<OutPoint, TxOut>,
    to: &[To],
    data: &Option<String>,
    me: &Party,
    others: &[Party],
    rate: u64,
    slack: u64,
) -> Res {
    // ---- the network's rules
    let mut seen = BTreeSet::new();
    let mut prev = vec![];
    for i in &tx.input {
        let op = i.previous_output;
        ensure!(unspent.contains(&op), "not-a-coin", "it spends {op}, which is no coin of the wallet");
        ensure!(seen.insert(op), "double-spend", "it spends {op} twice");
        prev.push(value_of[&op].clone());
    }
    for (i, txin) in tx.input.iter().enumerate() {
        check_witness(tx, i, &prev)?;
        ensure!(txin.script_sig.is_empty(), "invalid-signature", "a script signature on a taproot input");
    }
    let in_sum: u64 = prev.iter().map(|o| o.value.to_sat()).sum();
    let out_sum: u64 = tx.output.iter().map(|o| o.value.to_sat()).sum();
    ensure!(out_sum <= in_sum, "too-much", "it pays out {out_sum} of {in_sum}");
    let fee = in_sum - out_sum;
    let vsize = tx.vsize() as u64;
    ensure!(fee + 1 >= rate * vsize, "fee-rate", "a fee of {fee} for {vsize} virtual bytes at a rate of {rate}");
    let dear = rate * (vsize + 50 + 3 * prev.len() as u64) + slack;
    ensure!(fee <= dear, "fee-rate", "a fee of {fee} for {vsize} virtual bytes at a rate of {rate}");
    // ---- the recipients
    let Some(tweak) = refmodel::tweak_data(secp(), tx, &prev) else {
        fail!("unfindable", "the transaction has no input that counts for silent payments");
    };
    let mut left: Vec<(ScriptBuf, u64)> = tx.output.iter().map(|o| (o.script_pubkey.clone(), o.value.to_sat())).collect();
    let mut remove = |s: &ScriptBuf, sat: u64| match left.iter().position(|(a, b)| a == s && *b == sat) {
        Some(i) => {
            left.remove(i);
            true
        }
        None => false,
    };
    for t in to {
        if let To::Plain(s, sat) = t {
            ensure!(remove(s, *sat), "recipient", "an address is not paid {sat}");
        }
    }
    if let Some(d) = data {
        let push = bitcoin::script::PushBytesBuf::try_from(d.as_bytes().to_vec()).expect("short");
        ensure!(remove(&ScriptBuf::new_op_return(push), 0), "recipient", "the data is not there");
    }
    let mut change = 0;
    for i in 0..=others.len() {
        let p = if i == 0 { me } else { &others[i - 1] };
        let mut p: Party = p.clone();
        if i == 0 && !p.labels.contains(&0) {
            p.labels.push(0);
        }
        let mut got: Vec<(Option<u32>, u64)> = vec![];
        for f in p.ref_scan(tx, &tweak) {
            let o = &tx.output[f.vout as usize];
            ensure!(remove(&o.script_pubkey, o.value.to_sat()), "recipient", "an output belongs to two recipients");
            got.push((f.label, o.value.to_sat()));
        }
        got.sort();
        for t in to {
            let To::Sp(w, l, sat) = t else { continue };
            if *w != i {
                continue;
            }
            match got.iter().position(|g| *g == (*l, *sat)) {
                Some(k) => {
                    got.remove(k);
                }
                None => fail!("recipient", "recipient {i} (label {l:?}) does not find its payment of {sat}"),
            }
        }
        if i == 0 {
            ensure!(got.len() <= 1 && got.iter().all(|(l, _)| *l == Some(0)), "change", "unexpected outputs to the wallet: {got:?}");
            change = got.len();
        } else {
            ensure!(got.is_empty(), "recipient", "recipient {i} finds payments nobody asked for: {got:?}");
        }
    }
    ensure!(left.is_empty(), "lost-output", "outputs nobody can find: {left:?}");
    probe(if change == 1 { "payment with change" } else { "payment without change" });
    if prev.len() > 1 {
        probe("payment from several coins");
    }
    state(&(9u8, prev.len().min(5), to.len(), change, rate, data.is_some()));
    Ok(())
}

fn plain_script() -> ScriptBuf {
    loop {
        let s = unrelated_spk();
        if Address::from_script(&s, Network::Regtest).is_ok() && !s.is_op_return() {
            return s;
        }
    }
}

fn check_witness(tx: &Transaction, i: usize, prev: &[TxOut]) -> Res {
    let w = &tx.input[i].witness;
    ensure!(w.len() == 1, "invalid-signature", "input {i} has a witness of {} items", w.len());
    let sig = w.nth(0).expect("one");
    let (sig, ty) = match sig.len() {
        64 => (sig, TapSighashType::Default),
        65 => match TapSighashType::from_consensus_u8(sig[64]) {
            Ok(t) => (&sig[..64], t),
            Err(e) => fail!("invalid-signature", "input {i}: {e}"),
        },
        n => fail!("invalid-signature", "input {i} has a signature of {n} bytes"),
    };
    ensure!(matches!(ty, TapSighashType::Default | TapSighashType::All), "weak-signature", "input {i} signed with {ty:?}");
    let hash = SighashCache::new(tx)
        .taproot_key_spend_signature_hash(i, &Prevouts::All(prev), ty)
        .expect("hash");
    let x = XOnlyPublicKey::from_slice(&prev[i].script_pubkey.as_bytes()[2..]).expect("taproot");
    let sig = schnorr::Signature::from_slice(sig).expect("64 bytes");
    ensure!(
        secp().verify_schnorr(&sig, &Message::from(hash), &x).is_ok(),
        "invalid-signature",
        "input {i}: the signature does not spend the coin"
    );
    let _ = Amount::ZERO;
    Ok(())
}

/// Replacing an output of a transaction made elsewhere: the first program's `to-silent-payment`.
pub fn replace() -> Res {
    cli1::clean();
    seams::clock_start();
    let r = replace_inner();
    seams::clock_stop();
    cli1::clean();
    r
}

fn replace_inner() -> Res {
    let wallet = wallet_keys(0, Network::Regtest);
    let cli = Cli1::new(&wallet);
    cli.clean_call(&cli.init_args())?;
    let xpriv = Xpriv::new_master(Network::Regtest, &fresh32()).expect("seed");
    let ours = xpriv.fingerprint(secp());
    let mut to = Party::new(1, Network::Regtest);
    to.labels = vec![*pick_from(&LABELS)];
    let label = chance(1, 2).then(|| to.labels[0]);
    // ---- inputs
    let mut reason: Option<&str> = None;
    let mut coins: Vec<Coin> = vec![];
    let mut origin = vec![];
    for _ in 0..range(1, 4) {
        let op = fresh_outpoint(&coins);
        let foreign = chance(1, 10);
        if foreign {
            let kind = *pick_from(&[Kind::TrKey, Kind::Wpkh, Kind::Wsh, Kind::TrNums]);
            coins.push(Coin::new(kind, fresh_sk(), op, Amount::from_sat(30_000)));
            origin.push(None);
            fault("input of somebody else");
            reason = Some("input of somebody else");
        } else {
            let kind = *pick_from(&[Kind::TrKey, Kind::TrKey, Kind::Wpkh, Kind::Pkh, Kind::ShWpkh, Kind::TrTreeKey]);
            let path = DerivationPath::from_str(&format!("m/86'/1'/0'/{}/{}", pick(2), pick(50))).expect("path");
            let sk = xpriv.derive_priv(secp(), &path).expect("derive").private_key;
            coins.push(Coin::new(kind, sk, op, Amount::from_sat(30_000)));
            origin.push(Some(path));
            if kind == Kind::TrTreeKey {
                fault("output key commits to a script tree");
                reason = reason.or(Some("script tree"));
            }
        }
    }
    let prev_txs = realise(&mut coins);
    // ---- outputs
    let amount = 1000 + u64::from(pick(5));
    let target = ScriptBuf::new_p2tr(secp(), fresh_sk().x_only_public_key(secp()).0, None);
    let mut outputs = vec![TxOut { value: Amount::from_sat(amount), script_pubkey: target.clone() }];
    for _ in 0..pick(3) {
        // The same address may be paid twice.
        let script_pubkey = if chance(1, 4) { target.clone() } else { unrelated_spk() };
        outputs.push(TxOut { value: Amount::from_sat(2000 + u64::from(pick(5))), script_pubkey });
    }
    shuffle(&mut outputs);
    let tx = Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input: coins.iter().map(|c| TxIn { previous_output: c.outpoint, ..Default::default() }).collect(),
        output: outputs.clone(),
    };
    let mut psbt = Psbt::from_unsigned_tx(tx).expect("unsigned");
    for (i, c) in coins.iter().enumerate() {
        let inp = &mut psbt.inputs[i];
        inp.tap_merkle_root = c.merkle_root;
        match prev_txs.get(&c.outpoint) {
            Some(t) if chance(1, 2) => inp.non_witness_utxo = Some(t.clone()),
            _ => inp.witness_utxo = Some(c.txout.clone()),
        }
        let pk = c.key.public_key(secp());
        let src: KeySource = match &origin[i] {
            Some(path) => (ours, path.clone()),
            None => (Fingerprint::from(<[u8; 4]>::try_from(&fresh32()[..4]).expect("four")), DerivationPath::default()),
        };
        if c.txout.script_pubkey.is_p2tr() {
            inp.tap_key_origins.insert(pk.x_only_public_key().0, (vec![], src));
        } else {
            inp.bip32_derivation.insert(pk, src);
        }
        if chance(1, 12) && origin[i].is_some() {
            fault("spent output missing");
            inp.witness_utxo = None;
            inp.non_witness_utxo = None;
            // Or there is a transaction that does not have that many outputs.
            inp.non_witness_utxo = prev_txs.get(&c.outpoint).filter(|_| chance(1, 2)).cloned().map(|mut t| {
                t.output.clear();
                t
            });
            reason = Some("spent output missing");
        }
    }
    let mut wanted = amount;
    if chance(1, 12) {
        wanted = 777;
        fault("no output of the amount");
        reason = Some("no output of the amount");
    }
    let mut args: Vec<String> = ["to-silent-payment", "--code"].map(String::from).to_vec();
    args.push(to.ref_code(label).to_string());
    args.extend(["--amount".into(), wanted.to_string(), "--psbt".into(), psbt.to_string()]);
    args.extend(["--descriptor".into(), format!("tr({xpriv}/86'/1'/0'/0/*)")]);
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let (end, _) = cli.call(&args, cli1::DiskPlan::default())?;
    state(&(8u8, coins.iter().map(|c| c.kind).collect::<Vec<_>>(), outputs.len(), reason));
    let out = match end {
        End::Ok(o) => o,
        End::Err(e) => {
            ensure!(reason.is_some(), "send-refused", "to-silent-payment refuses a payable transaction: {e}");
            probe("replacing an output refused");
            return Ok(());
        }
        End::Died => unreachable!("no crash was planned"),
    };
    ensure!(
        !matches!(reason, Some("spent output missing" | "no output of the amount")),
        "half-done",
        "to-silent-payment succeeds although: {reason:?}"
    );
    let done = printed_psbt(&out)?;
    let want = ref_send(&coins, &[to.ref_keys(label)]);
    let mut replaced = 0;
    ensure!(done.unsigned_tx.output.len() == outputs.len(), "psbt-outputs", "the number of outputs changes");
    for (old, new) in outputs.iter().zip(&done.unsigned_tx.output) {
        ensure!(old.value == new.value, "psbt-amount", "an output changes its amount from {} to {}", old.value, new.value);
        if old != new {
            ensure!(old.script_pubkey == target, "psbt-unrelated-output", "another output is rewritten");
            if want.as_ref() != Some(&vec![new.script_pubkey.clone()]) {
                fail!("unfindable", "the recipient cannot find the output ({reason:?})");
            }
            replaced += 1;
        }
    }
    ensure!(replaced == 1, "output-count", "{replaced} outputs are replaced");
    probe("output replaced by command line");
    ensure!(done.inputs == psbt.inputs && done.unsigned_tx.input == psbt.unsigned_tx.input, "psbt-inputs", "the inputs change");
    Ok(())
}
