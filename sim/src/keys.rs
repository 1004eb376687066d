//! A simulated signing device behind the `GetKey` seam: holds keys, and can be told to fail.
use crate::{core::*, world::*};
use bitcoin::{
    bip32::{DerivationPath, Fingerprint, KeySource},
    key::Secp256k1,
    psbt::{self, GetKey, KeyRequest},
    secp256k1::{PublicKey, Scalar, SecretKey, Signing},
    Network, NetworkKind, OutPoint, PrivateKey, Psbt, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness,
    XOnlyPublicKey,
};
use std::{cell::RefCell, collections::BTreeMap};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum KeyFault {
    /// The device answers every request correctly.
    None,
    /// Requests fail with an error.
    Error,
    /// The device says it does not hold the key.
    Absent,
    /// The device resolves the derivation path to a key of another wallet.
    WrongKey,
}

#[derive(Debug)]
pub struct DeviceError;

/// Keys by plain key, x-only key and derivation source, with a fault for chosen requests.
#[derive(Default)]
pub struct Device {
    pub by_pk: BTreeMap<PublicKey, SecretKey>,
    pub by_x: BTreeMap<XOnlyPublicKey, SecretKey>,
    pub by_source: BTreeMap<KeySource, SecretKey>,
    /// Fault for requests that concern the given public key (x-only form).
    pub faults: RefCell<BTreeMap<XOnlyPublicKey, KeyFault>>,
    pub sources: BTreeMap<KeySource, XOnlyPublicKey>,
    pub requests: RefCell<u64>,
}

impl Device {
    pub fn add(&mut self, sk: SecretKey, source: Option<KeySource>) {
        let pk = sk.public_key(secp());
        let x = pk.x_only_public_key().0;
        self.by_pk.insert(pk, sk);
        self.by_x.insert(x, sk);
        if let Some(s) = source {
            self.sources.insert(s.clone(), x);
            self.by_source.insert(s, sk);
        }
    }
    fn answer(&self, target: Option<XOnlyPublicKey>, sk: Option<SecretKey>) -> Result<Option<PrivateKey>, DeviceError> {
        *self.requests.borrow_mut() += 1;
        let f = target
            .and_then(|t| self.faults.borrow().get(&t).copied())
            .unwrap_or(KeyFault::None);
        match f {
            KeyFault::None => Ok(sk.map(|s| PrivateKey::new(s, Network::Regtest))),
            KeyFault::Error => {
                fault("signing device: request fails");
                Err(DeviceError)
            }
            KeyFault::Absent => {
                fault("signing device: key absent");
                Ok(None)
            }
            KeyFault::WrongKey => {
                fault("signing device: wrong key for the path");
                Ok(Some(PrivateKey::new(fresh_sk(), Network::Regtest)))
            }
        }
    }
}

impl GetKey for Device {
    type Error = DeviceError;
    fn get_key<C: Signing>(
        &self,
        req: KeyRequest,
        _: &Secp256k1<C>,
    ) -> Result<Option<PrivateKey>, DeviceError> {
        match req {
            KeyRequest::Pubkey(pk) => self.answer(
                Some(pk.inner.x_only_public_key().0),
                self.by_pk.get(&pk.inner).copied(),
            ),
            KeyRequest::XOnlyPubkey(x) => self.answer(Some(x), self.by_x.get(&x).copied()),
            KeyRequest::Bip32(s) => {
                let target = self.sources.get(&s).copied();
                self.answer(target, self.by_source.get(&s).copied())
            }
            _ => Ok(None),
        }
    }
}

pub fn fresh_source() -> KeySource {
    let b = fresh32();
    (
        Fingerprint::from(<[u8; 4]>::try_from(&b[..4]).expect("4")),
        DerivationPath::from(vec![
            bitcoin::bip32::ChildNumber::from_hardened_idx(u32::from(b[5])).expect("idx"),
            bitcoin::bip32::ChildNumber::from_normal_idx(u32::from(b[6])).expect("idx"),
        ]),
    )
}

/// Keys a device must hold for this coin: (secret, origin key in the PSBT).
pub struct InputKeys {
    /// x-only keys whose requests matter for this input.
    pub targets: Vec<XOnlyPublicKey>,
}

/// Build a finalised PSBT spending `inputs`, with origins for every input and the keys in `dev`.
pub fn make_psbt(
    inputs: &[Coin],
    outputs: Vec<TxOut>,
    prev_txs: &BTreeMap<OutPoint, Transaction>,
    spend_pk_of: &dyn Fn(usize) -> (SecretKey, PublicKey),
    dev: &mut Device,
    finalised: bool,
) -> (Psbt, Vec<InputKeys>) {
    let tx = Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input: inputs
            .iter()
            .map(|c| TxIn {
                previous_output: c.outpoint,
                script_sig: ScriptBuf::new(),
                sequence: Sequence::ENABLE_RBF_NO_LOCKTIME,
                witness: Witness::new(),
            })
            .collect(),
        output: outputs,
    };
    let mut p = Psbt::from_unsigned_tx(tx).expect("unsigned");
    let mut keys = vec![];
    for (i, c) in inputs.iter().enumerate() {
        let mut targets = vec![];
        let x = c.key.public_key(secp()).x_only_public_key().0;
        {
            let inp: &mut psbt::Input = &mut p.inputs[i];
            match prev_txs.get(&c.outpoint) {
                Some(prev) if c.kind != Kind::Sp => {
                    inp.non_witness_utxo = Some(prev.clone());
                    if chance(1, 2) {
                        inp.witness_utxo = Some(c.txout.clone());
                    }
                }
                _ => inp.witness_utxo = Some(c.txout.clone()),
            }
            inp.tap_merkle_root = c.merkle_root;
            if finalised {
                let (s, w) = c.satisfy(None);
                if !s.is_empty() {
                    inp.final_script_sig = Some(s);
                }
                if !w.is_empty() {
                    inp.final_script_witness = Some(w);
                }
            }
        }
        match c.kind {
            Kind::Sp => {
                let (party, tweak) = c.sp.expect("sp coin");
                let (spend_sk, spend_pk) = spend_pk_of(party);
                dev.add(spend_sk, None);
                targets.push(spend_pk.x_only_public_key().0);
                bdk_sp::send::psbt::sign::add_sp_data_to_input(&mut p, i, spend_pk, Scalar::from(tweak));
            }
            Kind::TrKey | Kind::TrTreeKey | Kind::TrScript => {
                let src = fresh_source();
                p.inputs[i].tap_key_origins.insert(x, (vec![], src.clone()));
                targets.push(x);
                if pick(3) == 0 {
                    dev.add(c.key, Some(src));
                } else {
                    dev.add(c.key, None);
                }
                if c.kind != Kind::TrKey && chance(1, 3) {
                    // A leaf key of the same wallet is listed too.
                    probe("psbt input lists several key origins");
                    let leaf = fresh_sk();
                    let s2 = fresh_source();
                    p.inputs[i].tap_key_origins.insert(
                        leaf.public_key(secp()).x_only_public_key().0,
                        (vec![], s2.clone()),
                    );
                    dev.add(leaf, Some(s2));
                }
            }
            Kind::TrNums => {
                let src = fresh_source();
                p.inputs[i].tap_key_origins.insert(x, (vec![], src));
            }
            _ => {
                let src = fresh_source();
                p.inputs[i]
                    .bip32_derivation
                    .insert(c.key.public_key(secp()), src.clone());
                targets.push(x);
                if pick(3) == 0 {
                    dev.add(c.key, Some(src));
                } else {
                    dev.add(c.key, None);
                }
                if chance(1, 8) {
                    probe("psbt input lists several key origins");
                    let other = fresh_sk();
                    let s2 = fresh_source();
                    p.inputs[i]
                        .bip32_derivation
                        .insert(other.public_key(secp()), s2.clone());
                    dev.add(other, Some(s2));
                }
            }
        }
        keys.push(InputKeys { targets });
    }
    (p, keys)
}

#[allow(dead_code)]
pub fn network_kind() -> NetworkKind {
    NetworkKind::Test
}

/// Give some legacy coins a real funding transaction, so that a PSBT can carry it.
pub fn realise(coins: &mut [Coin]) -> BTreeMap<OutPoint, Transaction> {
    let mut map = BTreeMap::new();
    for c in coins.iter_mut() {
        let legacy = matches!(c.kind, Kind::Pkh | Kind::ShWpkh | Kind::Pk | Kind::ShMs | Kind::PkhUncompressed);
        if c.outpoint.vout <= 3 && (legacy || chance(1, 4)) && c.kind != Kind::Sp {
            let mut output: Vec<TxOut> = (0..c.outpoint.vout)
                .map(|_| TxOut {
                    value: bitcoin::Amount::from_sat(330),
                    script_pubkey: p2wpkh_dummy(),
                })
                .collect();
            output.push(c.txout.clone());
            let tx = Transaction {
                version: bitcoin::transaction::Version::TWO,
                lock_time: bitcoin::absolute::LockTime::ZERO,
                input: vec![TxIn {
                    previous_output: OutPoint::new(
                        <bitcoin::Txid as bitcoin::hashes::Hash>::from_byte_array(fresh32()),
                        0,
                    ),
                    ..Default::default()
                }],
                output,
            };
            c.outpoint.txid = tx.compute_txid();
            map.insert(c.outpoint, tx);
        }
    }
    map
}

fn p2wpkh_dummy() -> ScriptBuf {
    let mut b = vec![0u8, 0x14];
    b.extend_from_slice(&fresh32()[..20]);
    ScriptBuf::from_bytes(b)
}
