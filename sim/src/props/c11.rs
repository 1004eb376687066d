//! C11: an address damaged in transit is never mistaken for another one. Several people publish
//! addresses; the text travels through relays (that read and reprint it, or pass it on) and a
//! channel that damages it; a payer reads what arrives and, if it is accepted, pays.
use super::Property;
use crate::{bech, core::*, ensure, fail, note, refmodel, world::*};
use bdk_sp::{
    encoding::SilentPaymentCode,
    hashes::get_label_tweak,
    receive::scan::Scanner,
    send::{create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys},
};
use bitcoin::{
    hashes::{sha256, Hash},
    secp256k1::{PublicKey, Scalar, SecretKey},
    Amount, Network, TxOut,
};
use std::collections::BTreeMap;

pub const PROPERTY: Property = Property {
    id: "C11",
    run,
    quick: 25_000,
    thorough: 800_000,
    probes: &[],
    state_rule: "distinct (network, label kind, sequence of damages and relays, verdict) combinations",
    must_reach: &[
        "undamaged accepted",
        "one substitution",
        "two substitutions",
        "three substitutions",
        "upper case accepted",
        "later version accepted",
        "crafted text refused",
        "crafted text accepted",
        "paid through a damaged route",
        "empty payload",
        "hostile keys",
        "reprinted by a relay",
    ],
    real: &["bdk_sp: address reading, printing, labels, placeholder scripts, derivation, scanner"],
    stub: &["the channel, the relays and the payer's coins"],
    assumptions: &["damage beyond three substitutions is caught by the checksum except with probability 2^-30 per text, which the reference reading accounts for"],
};

const NETWORKS: [Network; 5] =
    [Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest];


fn hrp_of(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "sp",
        Network::Regtest => "sprt",
        _ => "tsp",
    }
}

struct Published {
    party: usize,
    label: Option<u32>,
    text: String,
    code: SilentPaymentCode,
}

fn run() -> Res {
    let parties: Vec<Party> = (0..2).map(|i| Party::new(i, *pick_from(&NETWORKS))).collect();
    let mut published = vec![];
    for _ in 0..range(1, 3) {
        let party = pick(2) as usize;
        let p = &parties[party];
        let label = chance(1, 2).then(|| *pick_from(&LABELS[1..]));
        let plain = SilentPaymentCode::new_v0(p.scan_pk(), p.spend_pk(), p.network);
        let code = match label {
            None => plain,
            Some(m) => {
                let t = guarded("get_label", || SilentPaymentCode::get_label(p.scan_sk, m))?;
                ensure!(t == get_label_tweak(p.scan_sk, m), "label", "two label derivations differ");
                match guarded("add_label", || plain.add_label(t))? {
                    Ok(c) => c,
                    Err(e) => fail!("label", "label {m} refused: {e}"),
                }
            }
        };
        ensure!(code == p.ref_code(label), "address", "the address for {label:?} is not the prescribed one");
        let text = guarded("to_string", || code.to_string())?;
        let (scan, spend) = p.ref_keys(label);
        let payload: Vec<u8> = [scan.serialize(), spend.serialize()].concat();
        let mut want = vec![0u8];
        want.extend(bech::symbols(&payload, 0));
        ensure!(
            text == bech::write(hrp_of(p.network), &want, bech::BECH32M),
            "print",
            "printed as {text}, which is not the text for these keys and network"
        );
        published.push(Published { party, label, text, code });
    }
    for _ in 0..range(1, 4) {
        step();
        letter(&parties, &published)?;
    }
    Ok(())
}

/// One text travels from its publisher (or an attacker) to a payer.
fn letter(parties: &[Party], published: &[Published]) -> Res {
    let from = pick_from(published);
    let mut text = from.text.clone();
    // Sure to be noticed, whatever the text: at most three replaced characters, nothing else.
    let mut only_subst = true;
    let mut crafted = false;
    let mut hops = vec![];
    for _ in 0..weighted(&[1, 6, 3, 1]) {
        let kind = weighted(&[8, 3, 2, 2, 2, 3, 2, 3, 2, 8, 2, 2]);
        hops.push(kind);
        if kind != 0 {
            only_subst = false;
        }
        let chars: Vec<char> = text.chars().collect();
        let n = chars.len() as u32;
        text = match kind {
            0 => {
                fault("replaced characters");
                let mut b = chars;
                for _ in 0..range(1, 3) {
                    if b.is_empty() {
                        break;
                    }
                    let i = pick(b.len() as u32) as usize;
                    b[i] = match weighted(&[8, 1]) {
                        0 => {
                            let c = bech::ALPHABET[pick(32) as usize] as char;
                            if b[i].is_ascii_uppercase() { c.to_ascii_uppercase() } else { c }
                        }
                        _ => *pick_from(&['b', '1', 'o', ' ', 'O', '\u{e9}', '\u{1F980}', '\0']),
                    };
                }
                b.into_iter().collect()
            }
            1 => {
                fault("truncated");
                let k = pick(n + 1) as usize;
                if chance(1, 2) { chars[..k].iter().collect() } else { chars[k..].iter().collect() }
            }
            2 => {
                fault("extended");
                let extra: String =
                    (0..range(1, 8)).map(|_| bech::ALPHABET[pick(32) as usize] as char).collect();
                let at = if chance(1, 2) { chars.len() } else { pick(n + 1) as usize };
                let mut s: String = chars[..at].iter().collect();
                s.push_str(&extra);
                s.extend(&chars[at..]);
                s
            }
            3 => {
                fault("swapped characters");
                let mut b = chars;
                if n > 1 {
                    let i = pick(n - 1) as usize;
                    b.swap(i, i + 1);
                }
                b.into_iter().collect()
            }
            4 => {
                fault("mixed case");
                chars
                    .into_iter()
                    .map(|c| if chance(1, 3) { c.to_ascii_uppercase() } else { c })
                    .collect()
            }
            5 => text.to_ascii_uppercase(),
            6 => {
                fault("spliced from two addresses");
                let other: Vec<char> = pick_from(published).text.chars().collect();
                let k = pick(n + 1) as usize;
                chars[..k].iter().chain(other.iter().skip(k)).collect()
            }
            7 => {
                fault("moved to another network");
                let data = text.rfind('1').map(|i| text[i..].to_string()).unwrap_or_default();
                format!("{}{data}", pick_from(&["sp", "tsp", "sprt", "bc", "tb", "SP", "s", ""]))
            }
            8 => {
                fault("blanks");
                if chance(1, 2) { format!("{text}\n") } else { format!(" {text}") }
            }
            9 => {
                crafted = true;
                craft(from)
            }
            10 => {
                // A relay that reads and reprints.
                match guarded("SilentPaymentCode::try_from", || SilentPaymentCode::try_from(text.as_str()))? {
                    Ok(c) => {
                        probe("reprinted by a relay");
                        guarded("to_string", || c.to_string())?
                    }
                    Err(_) => text,
                }
            }
            _ => {
                crafted = true;
                fault("hostile text");
                match pick(6) {
                    0 => String::new(),
                    1 => "1".into(),
                    2 => format!("sp1{}", "q".repeat(pick(1200) as usize)),
                    3 => bech::write("sp", &vec![0; pick(900) as usize], bech::BECH32M),
                    4 => bech::write(&"s".repeat(1 + pick(90) as usize), &[0, 1, 2], bech::BECH32M),
                    _ => (0..pick(60)).map(|_| char::from(range(1, 126) as u8)).collect(),
                }
            }
        };
    }
    arrive(parties, published, from, &text, only_subst, crafted, &hops)
}

/// An attacker's text: valid checksum over anything.
fn craft(from: &Published) -> String {
    fault("crafted text");
    let version = match weighted(&[3, 4, 2]) {
        0 => 0,
        1 => range(1, 30) as u8,
        _ => 31,
    };
    let mut keys: Vec<u8> = [from.code.scan.serialize(), from.code.spend.serialize()].concat();
    match weighted(&[4, 2, 2, 2, 2, 1]) {
        0 => {}
        1 => {
            // Damaged keys.
            for _ in 0..range(1, 3) {
                let i = pick(66) as usize;
                keys[i] = keys[i].wrapping_add(range(1, 255) as u8);
            }
        }
        2 => keys.truncate(pick(66) as usize),
        3 => keys.extend((0..range(1, 80)).map(|_| pick(256) as u8)),
        4 => {
            probe("hostile keys");
            // Keys related to each other so that sums of them vanish.
            let spend = fresh_sk();
            let h = sha256::Hash::hash(&spend.public_key(secp()).serialize()).to_byte_array();
            let other = match pick(3) {
                0 => SecretKey::from_slice(&h).expect("hash").negate(),
                1 => spend.negate(),
                _ => spend,
            };
            keys = [other.public_key(secp()).serialize(), spend.public_key(secp()).serialize()].concat();
        }
        _ => keys.clear(),
    }
    if keys.is_empty() && chance(1, 2) {
        probe("empty payload");
        return bech::write(pick_from(&["sp", "tsp", "sprt", "x"]), &[], bech::BECH32M);
    }
    let mut s = vec![version];
    s.extend(bech::symbols(&keys, if chance(1, 4) { 31 } else { 0 }));
    if chance(1, 6) {
        s.push(pick(32) as u8);
    }
    let hrp = if chance(1, 6) { *pick_from(&["bc", "tb", "xsp", "spx", "sptr"]) } else { *pick_from(&["sp", "tsp", "sprt"]) };
    let sum = if chance(1, 6) { bech::BECH32 } else { bech::BECH32M };
    let t = bech::write(hrp, &s, sum);
    if chance(1, 8) { t.to_ascii_uppercase() } else { t }
}

fn arrive(
    parties: &[Party],
    published: &[Published],
    from: &Published,
    text: &str,
    only_subst: bool,
    crafted: bool,
    hops: &[usize],
) -> Res {
    let got = guarded("SilentPaymentCode::try_from", || SilentPaymentCode::try_from(text))?;
    let want = bech::read(text);
    let accepted = got.is_ok();
    note!("{hops:?}: {text:?} -> {}", if accepted { "accepted" } else { "refused" });
    state(&(hrp_of(parties[from.party].network), from.label.is_some(), hops, accepted, want.as_ref().map(|w| w.version)));
    let distance = text.chars().zip(from.text.chars()).filter(|(a, b)| a != b).count();
    if only_subst && text.chars().count() == from.text.len() && (1..=3).contains(&distance) {
        probe(["one substitution", "two substitutions", "three substitutions"][distance - 1]);
        ensure!(!accepted, "damage-accepted", "{distance} replaced characters and {text:?} is accepted");
    }
    let code = match (got, want) {
        (Err(e), want) => {
            // The reason given can always be printed.
            guarded("error text", || (e.to_string(), format!("{e:?}")))?;
            if crafted {
                probe("crafted text refused");
            }
            match want {
                Some(w) => ensure!(w.slack, "refused", "{text:?} names valid keys ({w:?}) and is refused: {e}"),
                None => {}
            }
            return Ok(());
        }
        (Ok(c), None) => fail!("damage-accepted", "{text:?} is accepted as {c:?}, and is no address"),
        (Ok(c), Some(w)) => {
            ensure!(
                c.scan == w.scan && c.spend == w.spend,
                "other-recipient",
                "{text:?} names {w:?} and is read as {c:?}"
            );
            ensure!(c.network == w.network, "other-network", "{text:?} is for {:?} and is read as {:?}", w.network, c.network);
            ensure!(c.version() == w.version, "other-version", "{text:?} has version {} and is read as {}", w.version, c.version());
            let printed = guarded("to_string", || c.to_string())?;
            let again = guarded("SilentPaymentCode::try_from", || SilentPaymentCode::try_from(printed.as_str()))?;
            ensure!(again.as_ref().ok() == Some(&c), "print", "{text:?} is printed as {printed:?}, which reads differently");
            if w.version == 0 && !w.slack {
                ensure!(printed == text.to_ascii_lowercase(), "print", "{text:?} is printed as {printed:?}");
            }
            if w.version > 0 {
                probe("later version accepted");
            }
            c
        }
    };
    if crafted {
        probe("crafted text accepted");
    } else if text == from.text {
        probe("undamaged accepted");
    } else if text == from.text.to_ascii_uppercase() {
        probe("upper case accepted");
    }
    // ---- whoever is named can be paid, and only they find it
    guarded("get_placeholder_p2tr_spk", || code.get_placeholder_p2tr_spk())?;
    guarded("add_label", || code.add_label(Scalar::ONE).is_ok())?;
    let coin = Coin::new(*pick_from(&ELIGIBLE), fresh_sk(), fresh_outpoint(&[]), Amount::from_sat(50_000));
    let ins = std::slice::from_ref(&coin);
    let mut lex = [0u8; 36];
    lex.copy_from_slice(&refmodel::outpoint_bytes(&coin.outpoint));
    let spks = [(coin.txout.script_pubkey.clone(), coin.input_secret())];
    let made: BTreeMap<_, _> = guarded("sending", || {
        create_silentpayment_partial_secret(&lex, &spks)
            .map(|p| create_silentpayment_scriptpubkeys(p, std::slice::from_ref(&code)).into_iter().collect())
            .unwrap_or_default()
    })?;
    let Some(prescribed) = ref_send(ins, &[(code.scan, code.spend)]) else { return Ok(()) };
    let outs: Vec<_> = made.into_values().flatten().collect();
    ensure!(outs.len() == 1, "unpayable", "{} outputs for an accepted address", outs.len());
    let spk = refmodel::p2tr_spk(&outs[0]);
    ensure!(spk == prescribed[0], "other-recipient", "the payment goes to another script");
    let tx = assemble(ins, vec![TxOut { value: Amount::from_sat(1_000), script_pubkey: spk }]);
    for (i, p) in parties.iter().enumerate() {
        let mut labels: Vec<u32> = published.iter().filter(|x| x.party == i).filter_map(|x| x.label).collect();
        labels.sort();
        labels.dedup();
        let map: BTreeMap<PublicKey, (Scalar, u32)> = labels
            .iter()
            .map(|l| {
                let t = refmodel::label_tweak(&p.scan_sk, *l);
                let pk = SecretKey::from_slice(&t.to_be_bytes()).expect("label").public_key(secp());
                (pk, (t, *l))
            })
            .collect();
        let scanner = Scanner::new(p.scan_sk, p.spend_pk(), map);
        let found = guarded("scan_tx", || scanner.scan_tx(&tx, &prevouts(ins)).map(|v| v.len()).unwrap_or(0))?;
        let named = published.iter().any(|x| x.party == i && x.code.scan == code.scan && x.code.spend == code.spend);
        let direct = code.scan == p.scan_pk() && (code.spend == p.spend_pk() || named);
        ensure!(
            (found > 0) == direct,
            "paid-wrong",
            "person {i} {} the payment to {text:?}",
            if direct { "does not find" } else { "finds" }
        );
        if direct && !hops.is_empty() {
            probe("paid through a damaged route");
        }
    }
    Ok(())
}
