//! The simulated world: people with silent payment keys, coins of every kind, transactions,
//! blocks and a block chain that can reorganise.
use crate::{
    core::*,
    refmodel::{self, p2tr_spk},
};
use bdk_sp::encoding::SilentPaymentCode;
use bitcoin::{
    absolute::LockTime,
    block::{Header, Version as BlockVersion},
    blockdata::opcodes::all as op,
    hashes::Hash,
    key::{Secp256k1, TapTweak},
    script::{Builder, PushBytesBuf},
    secp256k1::{All, Keypair, Parity, PublicKey, Scalar, SecretKey},
    taproot::{LeafVersion, TapNodeHash, TaprootBuilder},
    transaction::Version,
    Amount, Block, BlockHash, CompactTarget, Network, OutPoint, ScriptBuf, Sequence, TapTweakHash,
    Transaction, TxIn, TxMerkleNode, TxOut, Txid, Witness, XOnlyPublicKey,
};
use std::collections::BTreeMap;

thread_local! {
    static SECP: &'static Secp256k1<All> = {
        use std::sync::OnceLock;
        static CTX: OnceLock<Secp256k1<All>> = OnceLock::new();
        CTX.get_or_init(|| Secp256k1::new())
    };
}

pub fn secp() -> &'static Secp256k1<All> {
    SECP.with(|s| *s)
}

pub fn fresh_sk() -> SecretKey {
    SecretKey::from_slice(&fresh32()).expect("random key")
}

pub fn fresh_pk() -> PublicKey {
    fresh_sk().public_key(secp())
}

#[derive(Debug, Clone)]
pub struct Party {
    pub name: usize,
    pub scan_sk: SecretKey,
    pub spend_sk: SecretKey,
    pub labels: Vec<u32>,
    pub network: Network,
}

impl Party {
    pub fn new(name: usize, network: Network) -> Self {
        Self {
            name,
            scan_sk: fresh_sk(),
            spend_sk: fresh_sk(),
            labels: vec![],
            network,
        }
    }
    pub fn scan_pk(&self) -> PublicKey {
        self.scan_sk.public_key(secp())
    }
    pub fn spend_pk(&self) -> PublicKey {
        self.spend_sk.public_key(secp())
    }
    /// (scan, spend) keys of an address by the reference model.
    pub fn ref_keys(&self, label: Option<u32>) -> (PublicKey, PublicKey) {
        let spend = match label {
            None => self.spend_pk(),
            Some(m) => self
                .spend_pk()
                .add_exp_tweak(secp(), &refmodel::label_tweak(&self.scan_sk, m))
                .expect("label"),
        };
        (self.scan_pk(), spend)
    }
    pub fn ref_code(&self, label: Option<u32>) -> SilentPaymentCode {
        let (scan, spend) = self.ref_keys(label);
        SilentPaymentCode::new_v0(scan, spend, self.network)
    }
    pub fn ref_scan(&self, tx: &Transaction, tweak: &PublicKey) -> Vec<refmodel::Found> {
        refmodel::scan(secp(), &self.scan_sk, &self.spend_pk(), &self.labels, tx, tweak)
    }
}

pub const LABELS: [u32; 8] = [0, 1, 2, 7, 255, 256, 0x8000_0000, u32::MAX];

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Wpkh,
    TrKey,
    Pkh,
    ShWpkh,
    /// Taproot output with a script tree, spent through the key path.
    TrTreeKey,
    /// Taproot output with a script tree and a real internal key, spent through the script path.
    TrScript,
    /// A silent payment output owned by a party.
    Sp,
    // ---- not usable for shared secret derivation
    TrNums,
    Wsh,
    ShMs,
    Pk,
    PkhUncompressed,
}

pub const ELIGIBLE: [Kind; 6] = [
    Kind::Wpkh,
    Kind::TrKey,
    Kind::Pkh,
    Kind::ShWpkh,
    Kind::TrTreeKey,
    Kind::TrScript,
];
pub const INELIGIBLE: [Kind; 5] = [
    Kind::TrNums,
    Kind::Wsh,
    Kind::ShMs,
    Kind::Pk,
    Kind::PkhUncompressed,
];

#[derive(Debug, Clone)]
pub struct Coin {
    pub outpoint: OutPoint,
    pub txout: TxOut,
    pub kind: Kind,
    /// Internal key for taproot, plain key otherwise; the full output secret for `Sp`.
    pub key: SecretKey,
    pub merkle_root: Option<TapNodeHash>,
    pub leaf: Option<(ScriptBuf, Vec<u8>)>,
    /// (party, tweak) for `Sp`.
    pub sp: Option<(usize, SecretKey)>,
}

fn leaf_script(x: &XOnlyPublicKey) -> ScriptBuf {
    Builder::new().push_x_only_key(x).push_opcode(op::OP_CHECKSIG).into_script()
}

impl Coin {
    pub fn new(kind: Kind, key: SecretKey, outpoint: OutPoint, value: Amount) -> Self {
        let secp = secp();
        let pk = key.public_key(secp);
        let bpk = bitcoin::PublicKey::new(pk);
        let (x, _) = pk.x_only_public_key();
        let mut merkle_root = None;
        let mut leaf = None;
        let spk = match kind {
            Kind::Wpkh => ScriptBuf::new_p2wpkh(&bpk.wpubkey_hash().expect("compressed")),
            Kind::Pkh => ScriptBuf::new_p2pkh(&bpk.pubkey_hash()),
            Kind::PkhUncompressed => {
                ScriptBuf::new_p2pkh(&bitcoin::PublicKey::new_uncompressed(pk).pubkey_hash())
            }
            Kind::ShWpkh => ScriptBuf::new_p2sh(
                &ScriptBuf::new_p2wpkh(&bpk.wpubkey_hash().expect("compressed")).script_hash(),
            ),
            Kind::TrKey => ScriptBuf::new_p2tr(secp, x, None),
            Kind::TrTreeKey | Kind::TrScript | Kind::TrNums => {
                let internal = if kind == Kind::TrNums {
                    XOnlyPublicKey::from_slice(&refmodel::nums_bytes()).expect("nums")
                } else {
                    x
                };
                let s = leaf_script(&fresh_pk().x_only_public_key().0);
                let depth = if chance(1, 2) { 0 } else { *pick_from(&[1u8, 1, 2, 5]) };
                let mut tree = TaprootBuilder::new().add_leaf(depth, s.clone()).expect("leaf");
                for d in (1..=depth).rev() {
                    tree = tree.add_leaf(d, leaf_script(&fresh_pk().x_only_public_key().0)).expect("leaf");
                }
                if depth > 0 {
                    probe("script tree with several leaves");
                }
                let info = tree
                    .finalize(secp, internal)
                    .expect("tree");
                merkle_root = info.merkle_root();
                let cb = info
                    .control_block(&(s.clone(), LeafVersion::TapScript))
                    .expect("control block");
                leaf = Some((s, cb.serialize()));
                ScriptBuf::new_p2tr_tweaked(info.output_key())
            }
            Kind::Wsh => ScriptBuf::new_p2wsh(&multisig(&bpk).wscript_hash()),
            Kind::ShMs => ScriptBuf::new_p2sh(&multisig(&bpk).script_hash()),
            Kind::Pk => ScriptBuf::new_p2pk(&bpk),
            Kind::Sp => p2tr_spk(&x),
        };
        Self {
            outpoint,
            txout: TxOut {
                value,
                script_pubkey: spk,
            },
            kind,
            key,
            merkle_root,
            leaf,
            sp: None,
        }
    }

    pub fn eligible(&self) -> bool {
        !INELIGIBLE.contains(&self.kind)
    }

    /// Secret key of the public key the input contributes.
    pub fn input_secret(&self) -> SecretKey {
        match self.kind {
            Kind::TrKey | Kind::TrTreeKey | Kind::TrScript => {
                let (x, par) = self.key.x_only_public_key(secp());
                let k = if par == Parity::Odd { self.key.negate() } else { self.key };
                let t = TapTweakHash::from_key_and_tweak(x, self.merkle_root);
                k.add_tweak(&t.to_scalar()).expect("taptweak")
            }
            _ => self.key,
        }
    }

    /// Chain-shaped script_sig and witness spending this coin (signatures are dummies unless
    /// `sig` is given). Shape variants are drawn from the choice sequence.
    pub fn satisfy(&self, sig: Option<Vec<u8>>) -> (ScriptBuf, Witness) {
        let secp = secp();
        let pk = self.key.public_key(secp);
        let ecdsa = || -> Vec<u8> {
            let mut s = vec![0x30u8];
            s.extend_from_slice(&fresh32());
            s.extend_from_slice(&fresh32());
            s.extend_from_slice(&[7; 6]);
            s
        };
        let schnorr = || -> Vec<u8> {
            sig.clone().unwrap_or_else(|| {
                let mut s = fresh32().to_vec();
                s.extend_from_slice(&fresh32());
                s
            })
        };
        let annex = || -> Vec<u8> {
            probe("input with annex");
            let mut a = vec![0x50];
            a.extend_from_slice(&fresh32()[..8]);
            a
        };
        let push = |b: Vec<u8>| PushBytesBuf::try_from(b).expect("small push");
        match self.kind {
            Kind::Wpkh => (
                ScriptBuf::new(),
                Witness::from_slice(&[ecdsa(), pk.serialize().to_vec()]),
            ),
            Kind::ShWpkh => {
                let redeem = ScriptBuf::new_p2wpkh(
                    &bitcoin::PublicKey::new(pk).wpubkey_hash().expect("compressed"),
                );
                (
                    Builder::new().push_slice(push(redeem.into_bytes())).into_script(),
                    Witness::from_slice(&[ecdsa(), pk.serialize().to_vec()]),
                )
            }
            Kind::Pkh => {
                let b = Builder::new();
                let script = match pick(4) {
                    0 => b.push_slice(push(ecdsa())).push_slice(pk.serialize()),
                    1 => {
                        probe("malleated p2pkh: decoy key before");
                        b.push_slice(fresh_pk().serialize())
                            .push_opcode(op::OP_DROP)
                            .push_slice(push(ecdsa()))
                            .push_slice(pk.serialize())
                    }
                    2 => {
                        probe("malleated p2pkh: trailing opcode");
                        b.push_slice(push(ecdsa()))
                            .push_slice(pk.serialize())
                            .push_opcode(op::OP_NOP)
                    }
                    _ => {
                        probe("malleated p2pkh: decoy key after");
                        b.push_slice(push(ecdsa()))
                            .push_slice(pk.serialize())
                            .push_slice(fresh_pk().serialize())
                            .push_opcode(op::OP_DROP)
                    }
                };
                (script.into_script(), Witness::new())
            }
            Kind::PkhUncompressed => (
                Builder::new()
                    .push_slice(push(ecdsa()))
                    .push_slice(push(pk.serialize_uncompressed().to_vec()))
                    .into_script(),
                Witness::new(),
            ),
            Kind::TrKey | Kind::TrTreeKey | Kind::Sp => {
                let mut stack = vec![schnorr()];
                if sig.is_none() && chance(1, 4) {
                    stack.push(annex());
                }
                (ScriptBuf::new(), Witness::from_slice(&stack))
            }
            Kind::TrScript | Kind::TrNums => {
                let (s, cb) = self.leaf.clone().expect("leaf");
                let mut stack = match pick(5) {
                    0 => vec![],
                    1 => vec![schnorr(), fresh_pk().serialize().to_vec()],
                    2 => vec![vec![0x50; 5]],
                    _ => vec![schnorr()],
                };
                stack.extend([s.into_bytes(), cb]);
                if chance(1, 4) {
                    stack.push(annex());
                }
                (ScriptBuf::new(), Witness::from_slice(&stack))
            }
            Kind::Wsh => (
                ScriptBuf::new(),
                Witness::from_slice(&[
                    vec![],
                    ecdsa(),
                    multisig(&bitcoin::PublicKey::new(pk)).into_bytes(),
                ]),
            ),
            Kind::ShMs => (
                Builder::new()
                    .push_int(0)
                    .push_slice(push(ecdsa()))
                    .push_slice(push(multisig(&bitcoin::PublicKey::new(pk)).into_bytes()))
                    .into_script(),
                Witness::new(),
            ),
            Kind::Pk => (
                Builder::new().push_slice(push(ecdsa())).into_script(),
                Witness::new(),
            ),
        }
    }
}

fn multisig(pk: &bitcoin::PublicKey) -> ScriptBuf {
    Builder::new()
        .push_int(1)
        .push_key(pk)
        .push_int(1)
        .push_opcode(op::OP_CHECKMULTISIG)
        .into_script()
}

pub fn taproot_output_keypair(coin: &Coin) -> Keypair {
    let kp = Keypair::from_secret_key(secp(), &coin.key);
    match coin.kind {
        Kind::Sp => kp,
        _ => kp.tap_tweak(secp(), coin.merkle_root).to_inner(),
    }
}

/// An outpoint for a coin whose funding transaction is not simulated. Biased towards the cases
/// where ordering outpoints is delicate: same transaction, output indexes above one byte, and
/// transaction ids whose first and last bytes order differently.
pub fn fresh_outpoint(others: &[Coin]) -> OutPoint {
    let vouts = [0u32, 1, 2, 3, 255, 256, 257, 511, 512, 65_535, 65_536, 0x0100_0000];
    // Received coins belong to simulated transactions, which have outputs of their own.
    let invented: Vec<Txid> = others
        .iter()
        .filter(|c| c.kind != Kind::Sp)
        .map(|c| c.outpoint.txid)
        .collect();
    if !invented.is_empty() && chance(1, 3) {
        probe("inputs share a transaction");
        let txid = *pick_from(&invented);
        for _ in 0..20 {
            let cand = OutPoint::new(txid, *pick_from(&vouts));
            if others.iter().all(|c| c.outpoint != cand) {
                return cand;
            }
        }
        for v in 600.. {
            let cand = OutPoint::new(txid, v);
            if others.iter().all(|c| c.outpoint != cand) {
                return cand;
            }
        }
    }
    OutPoint::new(Txid::from_byte_array(fresh32()), *pick_from(&vouts))
}

pub fn unrelated_spk() -> ScriptBuf {
    match pick(6) {
        0 => p2tr_spk(&fresh_pk().x_only_public_key().0),
        1 => ScriptBuf::new_p2wpkh(
            &bitcoin::PublicKey::new(fresh_pk()).wpubkey_hash().expect("compressed"),
        ),
        2 => Builder::new()
            .push_opcode(op::OP_RETURN)
            .push_slice(fresh32())
            .into_script(),
        3 => {
            // A taproot output whose key is not on the curve.
            probe("off-curve taproot output");
            loop {
                let b = fresh32();
                if XOnlyPublicKey::from_slice(&b).is_err() {
                    let mut s = vec![0x51, 0x20];
                    s.extend_from_slice(&b);
                    break ScriptBuf::from_bytes(s);
                }
            }
        }
        4 => ScriptBuf::new_p2pkh(&bitcoin::PublicKey::new(fresh_pk()).pubkey_hash()),
        _ => {
            // Future witness version of the same length as taproot.
            let mut s = vec![0x52, 0x20];
            s.extend_from_slice(&fresh_pk().x_only_public_key().0.serialize());
            ScriptBuf::from_bytes(s)
        }
    }
}

/// Assemble a transaction whose inputs carry chain-shaped satisfactions.
pub fn assemble(inputs: &[Coin], outputs: Vec<TxOut>) -> Transaction {
    Transaction {
        version: Version::TWO,
        lock_time: LockTime::ZERO,
        input: inputs
            .iter()
            .map(|c| {
                let (script_sig, witness) = c.satisfy(None);
                TxIn {
                    previous_output: c.outpoint,
                    script_sig,
                    sequence: Sequence::ENABLE_RBF_NO_LOCKTIME,
                    witness,
                }
            })
            .collect(),
        output: outputs,
    }
}

pub fn prevouts(inputs: &[Coin]) -> Vec<TxOut> {
    inputs.iter().map(|c| c.txout.clone()).collect()
}

/// Reference sender: the outputs BIP352 prescribes for these inputs and recipients, in order.
pub fn ref_send(inputs: &[Coin], recipients: &[(PublicKey, PublicKey)]) -> Option<Vec<ScriptBuf>> {
    let secp = secp();
    let mut sum: Option<SecretKey> = None;
    for c in inputs.iter().filter(|c| c.eligible()) {
        let mut k = c.input_secret();
        if refmodel::is_p2tr(&c.txout.script_pubkey)
            && k.x_only_public_key(secp).1 == Parity::Odd
        {
            k = k.negate();
        }
        sum = Some(match sum {
            None => k,
            Some(s) => s.add_tweak(&Scalar::from(k)).ok()?,
        });
    }
    let a = sum?;
    let min = inputs.iter().map(|c| refmodel::outpoint_bytes(&c.outpoint)).min()?;
    let h = refmodel_input_hash(&min, &a.public_key(secp));
    let partial = a.mul_tweak(&h).ok()?;
    let mut ks: BTreeMap<[u8; 33], u32> = BTreeMap::new();
    let mut out = vec![];
    for (scan, spend) in recipients {
        let k = ks.entry(scan.serialize()).or_default();
        let shared = scan.mul_tweak(secp, &Scalar::from(partial)).ok()?;
        let t = refmodel_t_k(&shared, *k);
        *k += 1;
        let p = spend.combine(&t.public_key(secp)).ok()?;
        out.push(p2tr_spk(&p.x_only_public_key().0));
    }
    Some(out)
}

fn tag_engine(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    use bitcoin::hashes::{sha256, HashEngine};
    let t = sha256::Hash::hash(tag.as_bytes());
    let mut e = sha256::Hash::engine();
    e.input(t.as_byte_array());
    e.input(t.as_byte_array());
    for p in parts {
        e.input(p);
    }
    sha256::Hash::from_engine(e).to_byte_array()
}

fn refmodel_input_hash(min: &[u8; 36], a: &PublicKey) -> Scalar {
    Scalar::from_be_bytes(tag_engine("BIP0352/Inputs", &[min, &a.serialize()])).expect("hash")
}

fn refmodel_t_k(shared: &PublicKey, k: u32) -> SecretKey {
    SecretKey::from_slice(&tag_engine(
        "BIP0352/SharedSecret",
        &[&shared.serialize(), &k.to_be_bytes()],
    ))
    .expect("hash")
}

pub fn shared_spk_for(party: &Party, tweak: &PublicKey, k: u32, label: Option<u32>) -> ScriptBuf {
    let secp = secp();
    let shared = tweak.mul_tweak(secp, &Scalar::from(party.scan_sk)).expect("ecdh");
    let t = refmodel_t_k(&shared, k);
    let (_, spend) = party.ref_keys(label);
    p2tr_spk(
        &spend
            .combine(&t.public_key(secp))
            .expect("P")
            .x_only_public_key()
            .0,
    )
}

// ---------------------------------------------------------------------------------------------
// Block chain

pub fn coinbase(height: u32, extra: Vec<TxOut>) -> Transaction {
    let mut output = vec![TxOut {
        value: Amount::from_sat(50_0000_0000),
        script_pubkey: ScriptBuf::new_p2wpkh(
            &bitcoin::PublicKey::new(fresh_pk()).wpubkey_hash().expect("compressed"),
        ),
    }];
    output.extend(extra);
    Transaction {
        version: Version::TWO,
        lock_time: LockTime::ZERO,
        input: vec![TxIn {
            previous_output: OutPoint::null(),
            script_sig: Builder::new()
                .push_int(height as i64)
                .push_slice(fresh32())
                .into_script(),
            sequence: Sequence::MAX,
            witness: Witness::from_slice(&[[0u8; 32]]),
        }],
        output,
    }
}

pub fn make_block(prev: BlockHash, height: u32, txs: Vec<Transaction>) -> Block {
    let mut txdata = vec![coinbase(height, vec![])];
    txdata.extend(txs);
    let mut b = Block {
        header: Header {
            version: BlockVersion::TWO,
            prev_blockhash: prev,
            merkle_root: TxMerkleNode::all_zeros(),
            time: 1_600_000_000 + height * 600,
            bits: CompactTarget::from_consensus(0x207f_ffff),
            nonce: fresh_u64() as u32,
        },
        txdata,
    };
    b.header.merkle_root = b.compute_merkle_root().expect("non-empty");
    b
}

#[derive(Debug, Clone)]
pub struct Chain {
    /// Blocks of the active chain, index = height.
    pub blocks: Vec<Block>,
    /// Every block ever known.
    pub by_hash: BTreeMap<BlockHash, (u32, Block)>,
    /// Every transaction ever known (for prevout lookups).
    pub txs: BTreeMap<Txid, Transaction>,
    pub mempool: Vec<Transaction>,
}

impl Chain {
    pub fn new() -> Self {
        let genesis = bitcoin::constants::genesis_block(Network::Regtest);
        let mut c = Self {
            blocks: vec![],
            by_hash: BTreeMap::new(),
            txs: BTreeMap::new(),
            mempool: vec![],
        };
        c.push(genesis);
        c
    }
    fn push(&mut self, b: Block) {
        for tx in &b.txdata {
            self.txs.insert(tx.compute_txid(), tx.clone());
        }
        self.by_hash
            .insert(b.block_hash(), (self.blocks.len() as u32, b.clone()));
        self.blocks.push(b);
    }
    pub fn height(&self) -> u32 {
        self.blocks.len() as u32 - 1
    }
    pub fn tip(&self) -> BlockHash {
        self.blocks.last().expect("genesis").block_hash()
    }
    pub fn hash_at(&self, h: u32) -> Option<BlockHash> {
        self.blocks.get(h as usize).map(|b| b.block_hash())
    }
    pub fn mine(&mut self, txs: Vec<Transaction>) -> &Block {
        for t in &txs {
            let id = t.compute_txid();
            self.mempool.retain(|m| m.compute_txid() != id);
        }
        let b = make_block(self.tip(), self.blocks.len() as u32, txs);
        self.push(b);
        self.blocks.last().expect("just pushed")
    }
    /// Drop the last `depth` blocks; their non-coinbase transactions are returned in order.
    pub fn rollback(&mut self, depth: u32) -> Vec<Transaction> {
        let keep = (self.blocks.len() - depth as usize).max(1);
        self.blocks
            .split_off(keep)
            .into_iter()
            .flat_map(|b| b.txdata.into_iter().skip(1))
            .collect()
    }
    pub fn note_tx(&mut self, tx: &Transaction) {
        self.txs.insert(tx.compute_txid(), tx.clone());
    }
    pub fn prevouts_of(&self, tx: &Transaction) -> Option<Vec<TxOut>> {
        tx.input
            .iter()
            .map(|i| {
                self.txs
                    .get(&i.previous_output.txid)
                    .and_then(|t| t.output.get(i.previous_output.vout as usize))
                    .cloned()
            })
            .collect()
    }
    pub fn tweak_of(&self, tx: &Transaction) -> Option<PublicKey> {
        refmodel::tweak_data(secp(), tx, &self.prevouts_of(tx)?)
    }
    /// BIP158 basic filter of a block.
    pub fn filter(&self, block: &Block) -> Vec<u8> {
        bitcoin::bip158::BlockFilter::new_script_filter(block, |op| {
            self.txs
                .get(&op.txid)
                .and_then(|t| t.output.get(op.vout as usize))
                .map(|o| o.script_pubkey.clone())
                .ok_or(bitcoin::bip158::Error::UtxoMissing(*op))
        })
        .map(|f| f.content)
        .expect("harness: every prevout is known")
    }
}
