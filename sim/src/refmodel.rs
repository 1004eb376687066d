//! Independent, executable reading of BIP352: uses only the bitcoin/secp256k1 crates, none of the
//! code under test. This is the oracle for who is paid by which output.
use bitcoin::{
    hashes::{hash160, sha256, Hash, HashEngine},
    key::Secp256k1,
    secp256k1::{All, PublicKey, Scalar, SecretKey, XOnlyPublicKey},
    OutPoint, Script, ScriptBuf, Transaction, TxIn, TxOut,
};
use std::collections::BTreeMap;

pub const NUMS: &str = "50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0";

pub fn nums_bytes() -> [u8; 32] {
    bitcoin::hex::FromHex::from_hex(NUMS).expect("constant")
}

fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes());
    let mut e = sha256::Hash::engine();
    e.input(t.as_byte_array());
    e.input(t.as_byte_array());
    for p in parts {
        e.input(p);
    }
    sha256::Hash::from_engine(e).to_byte_array()
}

pub fn is_p2tr(spk: &Script) -> bool {
    let b = spk.as_bytes();
    b.len() == 34 && b[0] == 0x51 && b[1] == 0x20
}
fn is_p2wpkh(spk: &[u8]) -> bool {
    spk.len() == 22 && spk[0] == 0 && spk[1] == 0x14
}
fn is_p2sh(spk: &[u8]) -> bool {
    spk.len() == 23 && spk[0] == 0xa9 && spk[1] == 0x14 && spk[22] == 0x87
}
fn is_p2pkh(spk: &[u8]) -> bool {
    spk.len() == 25 && spk[..3] == [0x76, 0xa9, 0x14] && spk[23..] == [0x88, 0xac]
}

fn compressed(b: &[u8]) -> Option<PublicKey> {
    if b.len() == 33 && (b[0] == 2 || b[0] == 3) {
        PublicKey::from_slice(b).ok()
    } else {
        None
    }
}

/// The public key this input contributes to the shared secret, if any.
pub fn eligible_pubkey(txin: &TxIn, prevout: &Script) -> Option<PublicKey> {
    let spk = prevout.as_bytes();
    let wit: Vec<&[u8]> = txin.witness.iter().collect();
    let sig = txin.script_sig.as_bytes();
    if is_p2tr(prevout) {
        let mut stack = wit.as_slice();
        if stack.is_empty() {
            return None;
        }
        if stack.len() > 1 && stack[stack.len() - 1].first() == Some(&0x50) {
            stack = &stack[..stack.len() - 1];
        }
        if stack.len() > 1 {
            let cb = stack[stack.len() - 1];
            if cb.len() >= 33 && cb[1..33] == nums_bytes() {
                return None;
            }
        }
        let mut full = [2u8; 33];
        full[1..].copy_from_slice(&spk[2..34]);
        return PublicKey::from_slice(&full).ok();
    }
    if is_p2wpkh(spk) {
        return if sig.is_empty() {
            wit.last().and_then(|p| compressed(p))
        } else {
            None
        };
    }
    if is_p2sh(spk) {
        if sig.len() == 23 && sig[0] == 0x16 && is_p2wpkh(&sig[1..]) {
            return wit.last().and_then(|p| compressed(p));
        }
        return None;
    }
    if is_p2pkh(spk) {
        for end in (33..=sig.len()).rev() {
            let cand = &sig[end - 33..end];
            if hash160::Hash::hash(cand).as_byte_array() == &spk[3..23] {
                if let Some(pk) = compressed(cand) {
                    return Some(pk);
                }
            }
        }
    }
    None
}

pub fn outpoint_bytes(op: &OutPoint) -> [u8; 36] {
    let mut b = [0u8; 36];
    b[..32].copy_from_slice(op.txid.as_raw_hash().as_byte_array());
    b[32..].copy_from_slice(&op.vout.to_le_bytes());
    b
}

/// input_hash * A, the public tweak data of a transaction; None if it has no eligible input or
/// the keys cancel out.
pub fn tweak_data(secp: &Secp256k1<All>, tx: &Transaction, prevouts: &[TxOut]) -> Option<PublicKey> {
    let keys: Vec<PublicKey> = tx
        .input
        .iter()
        .zip(prevouts)
        .filter_map(|(i, p)| eligible_pubkey(i, &p.script_pubkey))
        .collect();
    if keys.is_empty() {
        return None;
    }
    let refs: Vec<&PublicKey> = keys.iter().collect();
    let a = PublicKey::combine_keys(&refs).ok()?;
    let min = tx.input.iter().map(|i| outpoint_bytes(&i.previous_output)).min()?;
    let h = tagged("BIP0352/Inputs", &[&min, &a.serialize()]);
    a.mul_tweak(secp, &Scalar::from_be_bytes(h).ok()?).ok()
}

pub fn label_tweak(scan_sk: &SecretKey, m: u32) -> Scalar {
    Scalar::from_be_bytes(tagged("BIP0352/Label", &[&scan_sk.secret_bytes(), &m.to_be_bytes()]))
        .expect("label")
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Found {
    pub vout: u32,
    pub label: Option<u32>,
    pub tweak: [u8; 32],
}

/// Everything in `tx` that belongs to (scan, spend) with the given labels.
pub fn scan(
    secp: &Secp256k1<All>,
    scan_sk: &SecretKey,
    spend_pk: &PublicKey,
    labels: &[u32],
    tx: &Transaction,
    tweak: &PublicKey,
) -> Vec<Found> {
    let shared = tweak
        .mul_tweak(secp, &Scalar::from(*scan_sk))
        .expect("scan key is valid");
    let mut table: BTreeMap<[u8; 33], (u32, Scalar)> = BTreeMap::new();
    for m in labels {
        let t = label_tweak(scan_sk, *m);
        let p = SecretKey::from_slice(&t.to_be_bytes())
            .expect("label")
            .public_key(secp);
        table.insert(p.serialize(), (*m, t));
    }
    let mut outs: Vec<(u32, XOnlyPublicKey)> = tx
        .output
        .iter()
        .enumerate()
        .filter(|(_, o)| is_p2tr(&o.script_pubkey))
        .filter_map(|(i, o)| {
            XOnlyPublicKey::from_slice(&o.script_pubkey.as_bytes()[2..])
                .ok()
                .map(|x| (i as u32, x))
        })
        .collect();
    let mut found = vec![];
    for k in 0u32.. {
        let t = SecretKey::from_slice(&tagged(
            "BIP0352/SharedSecret",
            &[&shared.serialize(), &k.to_be_bytes()],
        ))
        .expect("t_k");
        let p = spend_pk.combine(&t.public_key(secp)).expect("P_k");
        let mut hit = None;
        'outs: for (pos, (vout, x)) in outs.iter().enumerate() {
            if p.x_only_public_key().0 == *x {
                hit = Some((pos, Found { vout: *vout, label: None, tweak: t.secret_bytes() }));
                break;
            }
            if table.is_empty() {
                continue;
            }
            for par in [bitcoin::secp256k1::Parity::Even, bitcoin::secp256k1::Parity::Odd] {
                let o = x.public_key(par);
                if let Ok(diff) = o.combine(&p.negate(secp)) {
                    if let Some((m, lt)) = table.get(&diff.serialize()) {
                        let tw = t.add_tweak(lt).expect("label sum");
                        hit = Some((pos, Found { vout: *vout, label: Some(*m), tweak: tw.secret_bytes() }));
                        break 'outs;
                    }
                }
            }
        }
        match hit {
            Some((pos, f)) => {
                outs.remove(pos);
                found.push(f);
            }
            None => break,
        }
    }
    found.sort();
    found
}

/// The x-only key an owner of `spend_sk` opens with `tweak`.
pub fn opened_spk(secp: &Secp256k1<All>, spend_sk: &SecretKey, tweak: &SecretKey) -> Option<ScriptBuf> {
    let sk = spend_sk.add_tweak(&Scalar::from(*tweak)).ok()?;
    Some(p2tr_spk(&sk.public_key(secp).x_only_public_key().0))
}

pub fn p2tr_spk(x: &XOnlyPublicKey) -> ScriptBuf {
    let mut b = vec![0x51, 0x20];
    b.extend_from_slice(&x.serialize());
    ScriptBuf::from_bytes(b)
}
