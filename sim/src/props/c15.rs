//! C15: proofs exchanged between signers. Several signers, some with a broken source of
//! randomness, prove for several bases and messages that they used the secret behind their key; a
//! transport flips, swaps, mixes and replays what they send; every verifier decides on what it gets.
use super::Property;
use crate::{core::*, ensure, fail, note, world::*};
use bitcoin::{
    hashes::{sha256, Hash, HashEngine},
    secp256k1::{constants::CURVE_ORDER, PublicKey, Scalar, SecretKey},
};
use std::collections::BTreeMap;

pub const PROPERTY: Property = Property {
    id: "C15",
    run,
    quick: 5_000,
    thorough: 120_000,
    probes: &[],
    state_rule: "distinct (number of signers, bases and messages, randomness kind, transport faults on one letter, verdict) combinations",
    must_reach: &[
        "honest proof accepted",
        "tampered proof refused",
        "delivered to another session",
        "own statement turned around",
        "forged without the secret",
        "stuck randomness",
        "two proofs with the same randomness",
        "base is the generator",
        "negated point",
        "proof part out of range",
        "all shares of a session accepted",
    ],
    real: &["dleq: proof generation and verification"],
    stub: &["transport, signers' randomness"],
    assumptions: &["discrete logarithms are hard, hashing is random: a forgery is only looked for with the listed strategies"],
};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Letter {
    a: PublicKey,
    b: PublicKey,
    c: PublicKey,
    g: PublicKey,
    m: Option<[u8; 32]>,
    proof: [u8; 64],
}

struct Signer {
    sk: SecretKey,
    randomness: usize,
    last: [u8; 32],
    count: u8,
}

impl Signer {
    fn random(&mut self) -> [u8; 32] {
        self.count += 1;
        match self.randomness {
            0 => fresh32(),
            1 => [0; 32],
            2 => [0xff; 32],
            3 => self.last,
            // Repeats with a short period.
            4 => {
                if self.count % 2 == 0 { fresh32().map(|_| 7) } else { self.last }
            }
            // Equal to the secret or to something public.
            5 => self.sk.secret_bytes(),
            _ => sha256::Hash::hash(&self.sk.public_key(secp()).serialize()).to_byte_array(),
        }
    }
}

fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes());
    let mut e = sha256::Hash::engine();
    e.input(t.as_byte_array());
    e.input(t.as_byte_array());
    for p in parts {
        e.input(p);
    }
    sha256::Hash::from_engine(e).to_byte_array()
}

/// (R1, R2) a proof commits to, if it is well formed.
fn commitments(l: &Letter) -> Option<(PublicKey, PublicKey, Scalar, Scalar)> {
    let e = Scalar::from_be_bytes(l.proof[..32].try_into().expect("32")).ok()?;
    let s = Scalar::from_be_bytes(l.proof[32..].try_into().expect("32")).ok()?;
    let r = |base: &PublicKey, point: &PublicKey| -> Option<PublicKey> {
        base.mul_tweak(secp(), &s).ok()?.combine(&point.mul_tweak(secp(), &e).ok()?.negate(secp())).ok()
    };
    Some((r(&l.g, &l.a)?, r(&l.b, &l.c)?, e, s))
}

fn challenge(l: &Letter, r1: &PublicKey, r2: &PublicKey) -> [u8; 32] {
    let m: &[u8] = l.m.as_ref().map(|m| &m[..]).unwrap_or(&[]);
    tagged(
        "BIP0374/challenge",
        &[
            &l.a.serialize(),
            &l.b.serialize(),
            &l.c.serialize(),
            &l.g.serialize(),
            &r1.serialize(),
            &r2.serialize(),
            m,
        ],
    )
}

fn reference_accepts(l: &Letter) -> bool {
    match commitments(l) {
        Some((r1, r2, e, _)) => challenge(l, &r1, &r2) == e.to_be_bytes(),
        None => false,
    }
}

fn verify(l: &Letter) -> Res<bool> {
    guarded("dleq_verify_proof", || {
        dleq::dleq_verify_proof(l.a, l.b, l.c, &l.proof, l.g, l.m.as_ref()).unwrap_or(false)
    })
}

fn generator() -> PublicKey {
    SecretKey::from_slice(&Scalar::ONE.to_be_bytes()).expect("one").public_key(secp())
}

fn run() -> Res {
    let mut signers: Vec<Signer> = (0..range(1, 3))
        .map(|_| Signer {
            sk: fresh_sk(),
            randomness: weighted(&[3, 2, 1, 2, 2, 1, 1]),
            last: fresh32(),
            count: 0,
        })
        .collect();
    let mut bases = vec![generator()];
    if chance(1, 2) {
        bases.push(fresh_pk());
    }
    let mut points: Vec<PublicKey> = (0..range(1, 2)).map(|_| fresh_pk()).collect();
    if chance(1, 4) {
        probe("base is the generator");
        points.push(*pick_from(&[generator(), generator().negate(secp()), signers[0].sk.public_key(secp())]));
    }
    let mut messages: Vec<Option<[u8; 32]>> = vec![None];
    for _ in 0..pick(3) {
        messages.push(Some(match pick(3) {
            0 => fresh32(),
            1 => [0; 32],
            _ => [0xff; 32],
        }));
    }
    // ---- every signer proves everything, possibly several times
    let mut sent: Vec<(usize, Letter)> = vec![];
    let mut used: Vec<[u8; 32]> = vec![];
    for (i, s) in signers.iter_mut().enumerate() {
        if s.randomness != 0 {
            fault("broken randomness");
            probe("stuck randomness");
        }
        for g in &bases {
            for b in &points {
                for m in &messages {
                    for _ in 0..1 + weighted(&[4, 1]) {
                        step();
                        let r = s.random();
                        if used.contains(&r) {
                            probe("two proofs with the same randomness");
                        }
                        used.push(r);
                        let (sk, g, b) = (s.sk, *g, *b);
                        let made = guarded("dleq_generate_proof", || dleq::dleq_generate_proof(sk, b, &r, g, m.as_ref()))?;
                        let Ok(proof) = made else { fail!("no-proof", "an honest signer gets no proof: {:?}", made.err()) };
                        let k = Scalar::from(sk);
                        let l = Letter {
                            a: g.mul_tweak(secp(), &k).expect("point"),
                            b,
                            c: b.mul_tweak(secp(), &k).expect("point"),
                            g,
                            m: *m,
                            proof,
                        };
                        ensure!(reference_accepts(&l), "invalid-proof", "the proof of an honest signer does not verify");
                        sent.push((i, l));
                    }
                }
            }
        }
    }
    leaks(&signers, &sent, &used)?;
    // ---- exchange
    let mut faults = vec![];
    let mut good: BTreeMap<usize, usize> = BTreeMap::new();
    for _ in 0..range(2, 10) {
        step();
        let at = pick(sent.len() as u32) as usize;
        let (_, honest) = sent[at].clone();
        let mut l = honest.clone();
        let mut how = vec![];
        for _ in 0..weighted(&[2, 5, 2]) {
            let (_, other) = pick_from(&sent).clone();
            let k = weighted(&[6, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2]);
            how.push(k);
            match k {
                0 => {
                    fault("flipped bits");
                    for _ in 0..range(1, 3) {
                        l.proof[pick(64) as usize] ^= 1 << pick(8);
                    }
                }
                1 => {
                    fault("swapped proof");
                    l.proof = other.proof;
                }
                2 => {
                    fault("mixed proof");
                    if chance(1, 2) {
                        l.proof[..32].copy_from_slice(&other.proof[..32]);
                    } else {
                        l.proof[32..].copy_from_slice(&other.proof[32..]);
                    }
                }
                3 => {
                    fault("replayed");
                    probe("delivered to another session");
                    l = Letter { proof: l.proof, ..other };
                }
                4 => {
                    fault("other message");
                    l.m = match (l.m, pick(3)) {
                        (Some(_), 0) => None,
                        (None, 0) => Some([0; 32]),
                        (Some(mut m), 1) => {
                            m[pick(32) as usize] ^= 1 << pick(8);
                            Some(m)
                        }
                        _ => other.m,
                    };
                }
                5 => {
                    fault("other point");
                    match pick(4) {
                        0 => l.a = other.a,
                        1 => l.b = other.b,
                        2 => l.c = other.c,
                        _ => l.g = other.g,
                    }
                }
                6 => {
                    fault("negated point");
                    probe("negated point");
                    // One at a time, or pairs that leave the relation between the points intact.
                    match pick(6) {
                        0 => l.a = l.a.negate(secp()),
                        1 => l.b = l.b.negate(secp()),
                        2 => l.c = l.c.negate(secp()),
                        3 => l.g = l.g.negate(secp()),
                        4 => {
                            l.b = l.b.negate(secp());
                            l.c = l.c.negate(secp());
                        }
                        _ => {
                            l.a = l.a.negate(secp());
                            l.c = l.c.negate(secp());
                        }
                    }
                }
                7 => {
                    probe("own statement turned around");
                    std::mem::swap(&mut l.a, &mut l.c);
                    std::mem::swap(&mut l.b, &mut l.g);
                }
                8 => {
                    fault("extreme proof");
                    probe("proof part out of range");
                    let v = match pick(4) {
                        0 => [0; 32],
                        1 => [0xff; 32],
                        2 => CURVE_ORDER,
                        _ => Scalar::ONE.to_be_bytes(),
                    };
                    let i = 32 * pick(2) as usize;
                    l.proof[i..i + 32].copy_from_slice(&v);
                }
                9 => {
                    // Same statement, exchanged parts.
                    let p = l.proof;
                    l.proof[..32].copy_from_slice(&p[32..]);
                    l.proof[32..].copy_from_slice(&p[..32]);
                }
                _ => {
                    l = forge(&l);
                }
            }
        }
        // What some honest signer sent, whole, or not.
        let owner = sent.iter().find(|(_, h)| *h == l).map(|(i, _)| *i);
        let accepted = verify(&l)?;
        note!("letter {at} after {how:?}: {}", if accepted { "accepted" } else { "refused" });
        ensure!(
            accepted == owner.is_some(),
            if accepted { "forgery-accepted" } else { "honest-refused" },
            "after {how:?} a proof is {}",
            if accepted { "accepted though no signer made it for this statement" } else { "refused though it arrived as sent" }
        );
        match owner {
            Some(i) => {
                probe("honest proof accepted");
                *good.entry(i).or_default() += 1;
                let k = Scalar::from(signers[i].sk);
                ensure!(
                    l.c == l.b.mul_tweak(secp(), &k).expect("point"),
                    "wrong-share",
                    "an accepted share is not the signer's"
                );
            }
            None => probe("tampered proof refused"),
        }
        faults.push((how, accepted));
    }
    if good.len() == signers.len() {
        probe("all shares of a session accepted");
    }
    for f in &faults {
        state(&(signers[0].randomness, signers.len(), bases.len(), messages.len(), f));
    }
    Ok(())
}

/// Ways to a proof for a statement without knowing the secret, or for a false statement: each
/// works against a challenge that leaves something out.
fn forge(l: &Letter) -> Letter {
    fault("forgery");
    probe("forged without the secret");
    let mut l = l.clone();
    let (e, s) = (fresh_sk(), fresh_sk());
    let (es, ss) = (Scalar::from(e), Scalar::from(s));
    let point = |base: &PublicKey, p: &PublicKey| {
        base.mul_tweak(secp(), &ss)
            .and_then(|x| x.combine(&p.mul_tweak(secp(), &es).expect("point").negate(secp())))
            .expect("random")
    };
    match pick(5) {
        // Chosen challenge and response.
        0 => {
            l.proof[..32].copy_from_slice(&e.secret_bytes());
            l.proof[32..].copy_from_slice(&s.secret_bytes());
        }
        // Commit to R of a chosen answer, use the challenge it gives.
        1 => {
            let ch = challenge(&l, &point(&l.g, &l.a), &point(&l.b, &l.c));
            l.proof[..32].copy_from_slice(&ch);
            l.proof[32..].copy_from_slice(&s.secret_bytes());
        }
        // A secret of one's own for A, a false C fitted afterwards (works if C is not committed to).
        2 => {
            let a = fresh_sk();
            let k = fresh_sk();
            l.a = l.g.mul_tweak(secp(), &Scalar::from(a)).expect("point");
            let r1 = l.g.mul_tweak(secp(), &Scalar::from(k)).expect("point");
            let r2 = fresh_pk();
            let ch = challenge(&l, &r1, &r2);
            let Ok(e) = SecretKey::from_slice(&ch) else { return l };
            let s = k.add_tweak(&Scalar::from(a.mul_tweak(&Scalar::from(e)).expect("secret"))).expect("random");
            l.proof[..32].copy_from_slice(&ch);
            l.proof[32..].copy_from_slice(&s.secret_bytes());
            // C = (s B - R2) / e needs 1/e: take any C when that is not at hand.
            l.c = l.b.mul_tweak(secp(), &Scalar::from(s)).and_then(|x| x.combine(&r2.negate(secp()))).expect("random");
        }
        // A true proof for another secret.
        3 => {
            let a = fresh_sk();
            let k = Scalar::from(a);
            if let Ok(p) = dleq::dleq_generate_proof(a, l.b, &fresh32(), l.g, l.m.as_ref()) {
                l.proof = p;
                if chance(1, 2) {
                    l.c = l.b.mul_tweak(secp(), &k).expect("point");
                } else {
                    l.a = l.g.mul_tweak(secp(), &k).expect("point");
                }
            }
        }
        // Shift a proof along with its points: (s + d, A + d/e G) needs no secret if A is not committed to.
        _ => {
            let d = Scalar::from(s);
            if let Ok(x) = SecretKey::from_slice(&l.proof[32..]).and_then(|x| x.add_tweak(&d)) {
                l.proof[32..].copy_from_slice(&x.secret_bytes());
            }
            l.a = l.a.combine(&l.g.mul_tweak(secp(), &d).expect("point")).unwrap_or(l.a);
            l.c = l.c.combine(&l.b.mul_tweak(secp(), &d).expect("point")).unwrap_or(l.c);
        }
    }
    l
}

/// What a collector of proofs can learn.
fn leaks(signers: &[Signer], sent: &[(usize, Letter)], used: &[[u8; 32]]) -> Res {
    let mut seen: BTreeMap<[u8; 32], (usize, &Letter)> = BTreeMap::new();
    for (n, (i, l)) in sent.iter().enumerate() {
        let Some((r1, _, e, s)) = commitments(l) else { fail!("invalid-proof", "malformed proof") };
        let own = signers[*i].sk.secret_bytes();
        ensure!(
            s.to_be_bytes() != own && e.to_be_bytes() != own && s != e,
            "secret-revealed",
            "the proof contains the secret"
        );
        // The commitment without its sign: R and -R reveal as much as R twice.
        let key: [u8; 32] = r1.x_only_public_key().0.serialize();
        if let Some((j, o)) = seen.get(&key) {
            let same = o.a == l.a && o.b == l.b && o.c == l.c && o.g == l.g && o.m == l.m;
            ensure!(
                same && o.proof == l.proof,
                "secret-revealed",
                "two proofs for different statements (signers {i} and {j}) share their nonce: the secret can be computed from them"
            );
        }
        seen.insert(key, (*i, l));
        // Nonces anybody can compute.
        let m: &[u8] = l.m.as_ref().map(|m| &m[..]).unwrap_or(&[]);
        let (a, c) = (l.a.serialize(), l.c.serialize());
        // A broken source is as good as public, unless it happens to be the secret itself.
        let known = if signers[*i].randomness == 5 { [0; 32] } else { used[n] };
        let known = [known];
        for r in known {
            let aux = tagged("BIP0374/aux", &[&r]);
            for t in [&r[..], &aux[..], &[]] {
                for guess in [
                    tagged("BIP0374/nonce", &[t, &a, &c, m]),
                    tagged("BIP0374/nonce", &[t, &a, &c]),
                    tagged("BIP0374/nonce", &[t]),
                    r,
                    aux,
                ] {
                    let Ok(k) = SecretKey::from_slice(&guess) else { continue };
                    ensure!(
                        l.g.mul_tweak(secp(), &Scalar::from(k)).ok() != Some(r1),
                        "secret-revealed",
                        "the nonce of a proof can be computed from public data when the randomness is known: so can the secret"
                    );
                }
            }
        }
    }
    Ok(())
}
