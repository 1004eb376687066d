//! Stand-in for `bdk_tx` (a git dependency that cannot be fetched offline): only the part of
//! its interface that the wallet crate calls, with the documented meaning of each call.
pub use bitcoin;
pub use miniscript;

use bdk_coin_select::{Candidate, ChangePolicy, CoinSelector, Target, TargetFee, TargetOutputs};
use bitcoin::{
    absolute, transaction, Amount, FeeRate, OutPoint, Psbt, ScriptBuf, Sequence, Transaction, TxIn,
    TxOut, Txid, Witness,
};
use miniscript::{plan::Plan, psbt::PsbtInputSatisfier};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    sync::Arc,
};

/// Confirmation status of a transaction.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TxStatus {
    pub height: absolute::Height,
    pub time: absolute::Time,
}

/// A transaction with its confirmation status, if confirmed.
pub type TxWithStatus<T> = (T, Option<TxStatus>);

/// One spendable input.
#[derive(Debug, Clone)]
pub struct Input {
    pub prev_outpoint: OutPoint,
    pub prev_txout: TxOut,
    pub status: Option<TxStatus>,
    pub plan: Plan,
}

/// Unspent outputs of a canonical set of transactions.
#[derive(Debug, Clone)]
pub struct CanonicalUnspents {
    txs: HashMap<Txid, Arc<Transaction>>,
    statuses: HashMap<Txid, TxStatus>,
    spends: HashSet<OutPoint>,
}

impl CanonicalUnspents {
    pub fn new<T>(canonical_txs: impl IntoIterator<Item = TxWithStatus<T>>) -> Self
    where
        T: Into<Arc<Transaction>>,
    {
        let mut txs = HashMap::new();
        let mut statuses = HashMap::new();
        let mut spends = HashSet::new();
        for (tx, status) in canonical_txs {
            let tx: Arc<Transaction> = tx.into();
            let txid = tx.compute_txid();
            spends.extend(tx.input.iter().map(|txin| txin.previous_output));
            if let Some(status) = status {
                statuses.insert(txid, status);
            }
            txs.insert(txid, tx);
        }
        Self {
            txs,
            statuses,
            spends,
        }
    }

    pub fn is_unspent(&self, outpoint: OutPoint) -> bool {
        !self.spends.contains(&outpoint) && self.txs.contains_key(&outpoint.txid)
    }

    pub fn try_get_unspent(&self, outpoint: OutPoint, plan: Plan) -> Option<Input> {
        if !self.is_unspent(outpoint) {
            return None;
        }
        let tx = self.txs.get(&outpoint.txid)?;
        let prev_txout = tx.tx_out(outpoint.vout as usize).ok()?.clone();
        Some(Input {
            prev_outpoint: outpoint,
            prev_txout,
            status: self.statuses.get(&outpoint.txid).copied(),
            plan,
        })
    }

    pub fn try_get_unspents<'a, O>(&'a self, outpoints: O) -> impl Iterator<Item = Input> + 'a
    where
        O: IntoIterator<Item = (OutPoint, Plan)>,
        O::IntoIter: 'a,
    {
        outpoints
            .into_iter()
            .filter_map(|(op, plan)| self.try_get_unspent(op, plan))
    }
}

/// Inputs that are spent together.
#[derive(Debug, Clone)]
pub struct InputGroup(Vec<Input>);

impl InputGroup {
    pub fn inputs(&self) -> &Vec<Input> {
        &self.0
    }

    fn candidate(&self) -> Candidate {
        Candidate {
            value: self.0.iter().map(|i| i.prev_txout.value.to_sat()).sum(),
            weight: self
                .0
                .iter()
                .map(|i| bdk_coin_select::TXIN_BASE_WEIGHT + i.plan.satisfaction_weight() as u64)
                .sum(),
            input_count: self.0.len(),
            is_segwit: self.0.iter().any(|i| i.plan.witness_version().is_some()),
        }
    }
}

/// Candidate inputs for coin selection.
#[derive(Debug, Clone, Default)]
pub struct InputCandidates {
    groups: Vec<InputGroup>,
    /// How many of the groups have to be selected.
    must: usize,
}

impl InputCandidates {
    pub fn new<A, B>(must_select: A, can_select: B) -> Self
    where
        A: IntoIterator<Item = Input>,
        B: IntoIterator<Item = Input>,
    {
        let mut seen = HashSet::new();
        let must: Vec<Input> = must_select
            .into_iter()
            .filter(|i| seen.insert(i.prev_outpoint))
            .collect();
        let can: Vec<Input> = can_select
            .into_iter()
            .filter(|i| seen.insert(i.prev_outpoint))
            .collect();
        let n = usize::from(!must.is_empty());
        let mut groups = vec![];
        if !must.is_empty() {
            groups.push(InputGroup(must));
        }
        groups.extend(can.into_iter().map(|i| InputGroup(vec![i])));
        Self { groups, must: n }
    }

    pub fn inputs(&self) -> impl Iterator<Item = &Input> + '_ {
        self.groups.iter().flat_map(|g| &g.0)
    }

    /// Put inputs of the same key into one group.
    pub fn regroup<P, G>(self, policy: P) -> Self
    where
        P: Fn(&Input) -> G,
        G: Clone + Ord,
    {
        let mut groups: Vec<InputGroup> = self.groups[..self.must].to_vec();
        let mut by_key: BTreeMap<G, Vec<Input>> = BTreeMap::new();
        for i in self.groups.into_iter().skip(self.must).flat_map(|g| g.0) {
            by_key.entry(policy(&i)).or_default().push(i);
        }
        groups.extend(by_key.into_values().map(InputGroup));
        Self {
            groups,
            must: self.must,
        }
    }

    pub fn filter<P>(mut self, mut policy: P) -> Self
    where
        P: FnMut(&InputGroup) -> bool,
    {
        let must = self.must;
        let mut n = 0;
        self.groups.retain(|g| {
            n += 1;
            n <= must || policy(g)
        });
        self
    }

    pub fn into_selection<A, E>(
        self,
        mut algorithm: A,
        params: SelectorParams,
    ) -> Result<Selection, IntoSelectionError>
    where
        A: FnMut(&InputCandidates, &mut Selector<'_>) -> Result<(), E>,
        E: core::fmt::Debug,
    {
        let candidates: Vec<Candidate> = self.groups.iter().map(|g| g.candidate()).collect();
        let mut inner = CoinSelector::new(&candidates);
        for i in 0..self.must {
            inner.select(i);
        }
        let target = Target {
            fee: TargetFee::from_feerate(params.target_feerate.rate()),
            outputs: TargetOutputs::fund_outputs(
                params
                    .target_outputs
                    .iter()
                    .map(|o| (o.txout().weight().to_wu(), o.value.to_sat())),
            ),
        };
        let mut selector = Selector {
            inner,
            target,
            change_policy: params.change_policy,
        };
        if !selector.inner.is_selection_possible(target) {
            return Err(IntoSelectionError("the target cannot be reached".into()));
        }
        algorithm(&self, &mut selector)
            .map_err(|e| IntoSelectionError(format!("the algorithm failed: {e:?}")))?;
        if !selector.inner.is_target_met(target) {
            return Err(IntoSelectionError("the target is not met".into()));
        }
        let drain = selector.inner.drain(target, selector.change_policy);
        let mut outputs = params.target_outputs;
        if drain.is_some() {
            outputs.push(Output {
                value: Amount::from_sat(drain.value),
                script: params.change_script.0,
            });
        }
        let inputs = selector
            .inner
            .apply_selection(&self.groups)
            .flat_map(|g| g.0.iter().cloned())
            .collect();
        Ok(Selection { inputs, outputs })
    }
}

/// Inputs with the same script pubkey belong together.
pub fn group_by_spk() -> impl Fn(&Input) -> ScriptBuf {
    |i| i.prev_txout.script_pubkey.clone()
}

/// Keeps groups whose inputs can all be spent at this height and time.
pub fn filter_unspendable_now(
    tip_height: absolute::Height,
    tip_time: absolute::Time,
) -> impl Fn(&InputGroup) -> bool {
    move |g| {
        g.0.iter().all(|i| {
            i.plan.relative_timelock.is_none()
                && i.plan
                    .absolute_timelock
                    .map_or(true, |l| l.is_satisfied_by(tip_height, tip_time))
        })
    }
}

/// The lowest fee found by branch and bound.
pub fn selection_algorithm_lowest_fee_bnb(
    longterm_feerate: FeeRate,
    max_rounds: usize,
) -> impl FnMut(&InputCandidates, &mut Selector<'_>) -> Result<(), bdk_coin_select::NoBnbSolution> {
    move |_, selector| {
        let metric = bdk_coin_select::metrics::LowestFee {
            target: selector.target,
            long_term_feerate: feerate(longterm_feerate),
            change_policy: selector.change_policy,
        };
        selector.inner.run_bnb(metric, max_rounds).map(|_| ())
    }
}

fn feerate(r: FeeRate) -> bdk_coin_select::FeeRate {
    bdk_coin_select::FeeRate::from_sat_per_wu(r.to_sat_per_kwu() as f32 / 1000.0)
}

/// A selection in progress.
pub struct Selector<'a> {
    inner: CoinSelector<'a>,
    target: Target,
    change_policy: ChangePolicy,
}

#[derive(Debug, Clone, Copy)]
pub enum FeeStrategy {
    FeeRate(FeeRate),
}

impl FeeStrategy {
    fn rate(self) -> bdk_coin_select::FeeRate {
        let FeeStrategy::FeeRate(r) = self;
        feerate(r)
    }
}

#[derive(Debug, Clone)]
pub struct ScriptSource(ScriptBuf);

impl ScriptSource {
    pub fn from_script(s: ScriptBuf) -> Self {
        Self(s)
    }
}

#[derive(Debug, Clone)]
pub struct Output {
    pub value: Amount,
    script: ScriptBuf,
}

impl Output {
    pub fn with_script(script: ScriptBuf, value: Amount) -> Self {
        Self { value, script }
    }
    pub fn txout(&self) -> TxOut {
        TxOut {
            value: self.value,
            script_pubkey: self.script.clone(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct SelectorParams {
    pub target_feerate: FeeStrategy,
    pub target_outputs: Vec<Output>,
    pub change_script: ScriptSource,
    pub change_policy: ChangePolicy,
}

impl SelectorParams {
    pub fn new(
        target_feerate: FeeStrategy,
        target_outputs: Vec<Output>,
        change_script: ScriptSource,
        change_policy: ChangePolicy,
    ) -> Self {
        Self {
            target_feerate,
            target_outputs,
            change_script,
            change_policy,
        }
    }
}

#[derive(Debug)]
pub struct IntoSelectionError(String);

impl core::fmt::Display for IntoSelectionError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for IntoSelectionError {}

#[derive(Debug, Clone)]
pub struct PsbtParams {
    pub version: transaction::Version,
    pub fallback_locktime: absolute::LockTime,
    pub fallback_sequence: Sequence,
}

impl Default for PsbtParams {
    fn default() -> Self {
        Self {
            version: transaction::Version::TWO,
            fallback_locktime: absolute::LockTime::ZERO,
            fallback_sequence: Sequence::ENABLE_RBF_NO_LOCKTIME,
        }
    }
}

/// What was selected.
#[derive(Debug, Clone)]
pub struct Selection {
    pub inputs: Vec<Input>,
    pub outputs: Vec<Output>,
}

impl Selection {
    pub fn create_psbt(&self, params: PsbtParams) -> Result<Psbt, bitcoin::psbt::Error> {
        let mut psbt = Psbt::from_unsigned_tx(Transaction {
            version: params.version,
            lock_time: params.fallback_locktime,
            input: self
                .inputs
                .iter()
                .map(|i| TxIn {
                    previous_output: i.prev_outpoint,
                    sequence: params.fallback_sequence,
                    ..Default::default()
                })
                .collect(),
            output: self.outputs.iter().map(|o| o.txout()).collect(),
        })?;
        for (i, input) in self.inputs.iter().enumerate() {
            input.plan.update_psbt_input(&mut psbt.inputs[i]);
            psbt.inputs[i].witness_utxo = Some(input.prev_txout.clone());
        }
        Ok(psbt)
    }

    pub fn into_finalizer(self) -> Finalizer {
        Finalizer(
            self.inputs
                .into_iter()
                .map(|i| (i.prev_outpoint, i.plan))
                .collect(),
        )
    }
}

/// Turns signatures into witnesses.
#[derive(Debug)]
pub struct Finalizer(HashMap<OutPoint, Plan>);

#[derive(Debug)]
pub struct FinalizeMap(BTreeMap<usize, Result<bool, miniscript::Error>>);

impl FinalizeMap {
    pub fn is_finalized(&self) -> bool {
        self.0.values().all(|r| matches!(r, Ok(true)))
    }
}

impl Finalizer {
    pub fn finalize(&self, psbt: &mut Psbt) -> FinalizeMap {
        let mut map = BTreeMap::new();
        for index in 0..psbt.inputs.len() {
            let op = psbt.unsigned_tx.input[index].previous_output;
            let r = match self.0.get(&op) {
                None => Ok(false),
                Some(plan) => {
                    let satisfier = PsbtInputSatisfier::new(psbt, index);
                    plan.satisfy(&satisfier).map(|(stack, script)| {
                        let input = &mut psbt.inputs[index];
                        let utxo = input.witness_utxo.take();
                        *input = bitcoin::psbt::Input {
                            witness_utxo: utxo,
                            final_script_sig: (!script.is_empty()).then_some(script),
                            final_script_witness: (!stack.is_empty())
                                .then(|| Witness::from_slice(&stack)),
                            ..Default::default()
                        };
                        true
                    })
                }
            };
            map.insert(index, r);
        }
        FinalizeMap(map)
    }
}
