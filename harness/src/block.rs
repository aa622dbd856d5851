//! Histories of block building (spec/Block.tla) on the real block executor.
use crate::{
    forks::{big, config, limits_json, n},
    replay::{mega_halt, res_json, set_caps, short, AuthJ, Scenario, Setup, TxJ, Watch},
    world::{Db, Ext},
};
use alloy_consensus::{transaction::Recovered, Signed, Transaction, TxEip1559, TxEip2930, TxEip7702, TxLegacy};
use alloy_eips::{eip2930::{AccessList, AccessListItem}, eip7702::{Authorization, SignedAuthorization}, Encodable2718, Typed2718};
use alloy_evm::{
    block::{BlockExecutionError, BlockExecutor, BlockExecutorFactory, OnStateHook, BlockValidationError, CommitChanges, StateChangeSource,
            StateChangePreBlockSource, StateChangePostBlockSource},
    Evm as _, EvmEnv, EvmFactory, IntoTxEnv, RecoveredTx,
};
use alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use alloy_primitives::{Address, Bytes, Sealed, Signature, TxKind, B256, U256};
use mega_evm::{
    BlockLimits, BlockMegaTransactionOutcome, EnrichedMegaTx, MegaTransaction, MegaTransactionExt, MegaBlockExecutionCtx, MegaBlockExecutor, MegaBlockExecutorFactory,
    MegaBlockLimitExceededError, MegaContext, MegaEvm, MegaEvmFactory, MegaHardforkConfig, MegaHardforks,
    MegaTxEnvelope, MegaTxLimitExceededError,
};
use op_alloy_consensus::{OpReceiptEnvelope, TxDeposit};
use op_revm::OpTransactionError;
use revm::{
    context::{BlockEnv, CfgEnv},
    database::{states::bundle_state::BundleRetention, State},
    state::EvmState,
    Inspector,
};
use serde::Deserialize;
use serde_json::{json, Value};
use std::{
    any::Any,
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

#[derive(Deserialize, Clone, Debug)]
pub struct BlockJ {
    pub ts: u64,
    pub gl: i64,
    pub lim: BTreeMap<String, i64>,
    pub bkt: BTreeMap<String, u64>,
    pub root: i64,
    pub ph: u64,
}
#[derive(Deserialize, Clone, Debug)]
pub struct StepJ {
    pub o: String,
    pub t: usize,
    pub s: usize,
    pub c: bool,
    /// the access of the database or the environment that fails, if any
    #[serde(default)]
    pub f: i64,
}
#[derive(Deserialize, Clone, Debug)]
pub struct BlockScen {
    #[serde(flatten)]
    pub base: Scenario,
    pub sch: Vec<i64>,
    pub blocks: Vec<BlockJ>,
    pub steps: Vec<StepJ>,
    #[serde(default)]
    pub how: u8,
}

fn gas(x: u64) -> u64 {
    big(x as i64)
}

pub fn envelope(su: &mut Setup, t: &TxJ) -> Recovered<MegaTxEnvelope> {
    let input = su.calldata(t);
    let from = su.names.addr(&t.from, &su.prog);
    let to = if t.kind == "create" { TxKind::Create } else { TxKind::Call(su.names.addr(&t.to, &su.prog)) };
    let access_list = AccessList(
        t.al.iter()
            .map(|(a, ks)| AccessListItem {
                address: su.names.addr(a, &su.prog),
                storage_keys: ks.iter().map(|k| B256::from(U256::from(*k))).collect(),
            })
            .collect(),
    );
    let value = U256::from(t.v);
    let sig = Signature::test_signature();
    let env = match t.typ.as_str() {
        "legacy" => MegaTxEnvelope::Legacy(Signed::new_unhashed(
            TxLegacy { chain_id: Some(6342), nonce: t.nonce, gas_price: t.price as u128, gas_limit: gas(t.gas), to, value, input },
            sig,
        )),
        "2930" => MegaTxEnvelope::Eip2930(Signed::new_unhashed(
            TxEip2930 { chain_id: 6342, nonce: t.nonce, gas_price: t.price as u128, gas_limit: gas(t.gas), to, value, access_list, input },
            sig,
        )),
        "1559" => MegaTxEnvelope::Eip1559(Signed::new_unhashed(
            TxEip1559 {
                chain_id: 6342,
                nonce: t.nonce,
                gas_limit: gas(t.gas),
                max_fee_per_gas: t.price as u128,
                max_priority_fee_per_gas: t.tip.unwrap_or(t.price) as u128,
                to,
                value,
                access_list,
                input,
            },
            sig,
        )),
        "7702" => {
            let authorization_list = t.auth.iter().map(|a| authorization(su, a)).collect();
            MegaTxEnvelope::Eip7702(Signed::new_unhashed(
                TxEip7702 {
                    chain_id: 6342,
                    nonce: t.nonce,
                    gas_limit: gas(t.gas),
                    max_fee_per_gas: t.price as u128,
                    max_priority_fee_per_gas: t.tip.unwrap_or(t.price) as u128,
                    to: *to.to().expect("HARNESS creation with authorizations"),
                    value,
                    access_list,
                    authorization_list,
                    input,
                },
                sig,
            ))
        }
        "deposit" => MegaTxEnvelope::Deposit(Sealed::new(TxDeposit {
            source_hash: B256::repeat_byte(1),
            from,
            to,
            mint: t.mint as u128,
            value,
            gas_limit: gas(t.gas),
            is_system_transaction: false,
            input,
        })),
        x => panic!("HARNESS tx type {x}"),
    };
    Recovered::new_unchecked(env, from)
}

/// Encoded and data availability size of every transaction of a scenario.
pub fn sizes(sc: BlockScen) -> Value {
    let mut su = Setup::new(sc.base.clone());
    let out: Vec<Value> = sc
        .base
        .txs
        .iter()
        .map(|t| {
            let e = envelope(&mut su, t);
            let raw = e.inner().encoded_2718();
            json!([raw.len(), op_alloy_flz::tx_estimated_size_fjord_bytes(&raw), op_alloy_flz::flz_compress_len(&raw)])
        })
        .collect();
    json!({"id": sc.base.id, "out": out})
}

fn refusal(e: &BlockExecutionError) -> Value {
    if crate::world::fault().hit {
        // a failure from outside is no judgement on the transaction
        let judged = matches!(
            e,
            BlockExecutionError::Validation(BlockValidationError::InvalidTx { .. } | BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas { .. })
        );
        if !judged {
            return json!(["Fault"]);
        }
    }
    match e {
        BlockExecutionError::Validation(BlockValidationError::InvalidTx { error, .. }) => {
            let any: &dyn Any = error.as_ref();
            if let Some(x) = any.downcast_ref::<MegaTxLimitExceededError>() {
                use MegaTxLimitExceededError::*;
                match x {
                    TransactionGasLimit { tx_gas_limit, limit } => json!(["TxGas", n(*tx_gas_limit), n(*limit)]),
                    TransactionEncodeSizeLimit { tx_size, limit } => json!(["TxSize", n(*tx_size), n(*limit)]),
                    DataAvailabilitySizeLimit { da_size, limit } => json!(["TxDA", n(*da_size), n(*limit)]),
                }
            } else if let Some(x) = any.downcast_ref::<MegaBlockLimitExceededError>() {
                use MegaBlockLimitExceededError::*;
                match x {
                    TransactionDataLimit { block_used, limit } => json!(["BlockData", n(*block_used), n(*limit)]),
                    KVUpdateLimit { block_used, limit } => json!(["BlockKV", n(*block_used), n(*limit)]),
                    ComputeGasLimit { block_used, limit } => json!(["BlockCompute", n(*block_used), n(*limit)]),
                    StateGrowthLimit { block_used, limit } => json!(["BlockGrowth", n(*block_used), n(*limit)]),
                    TransactionEncodeSizeLimit { block_used, tx_used, limit } => {
                        json!(["BlockSize", n(*block_used), n(*tx_used), n(*limit)])
                    }
                    DataAvailabilitySizeLimit { block_used, tx_used, limit } => {
                        json!(["BlockDA", n(*block_used), n(*tx_used), n(*limit)])
                    }
                }
            } else if let Some(x) = any.downcast_ref::<OpTransactionError>() {
                let why = match x {
                    OpTransactionError::Base(b) => short(&format!("{b:?}")),
                    b => short(&format!("{b:?}")),
                };
                json!(["Invalid", why])
            } else {
                json!(["?", format!("{error:?}")])
            }
        }
        BlockExecutionError::Validation(BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
            transaction_gas_limit,
            block_available_gas,
        }) => json!(["BlockGas", n(*transaction_gas_limit), n(*block_available_gas)]),
        BlockExecutionError::Validation(BlockValidationError::MissingParentBeaconBlockRoot) => json!(["NoBeaconRoot"]),
        BlockExecutionError::Validation(BlockValidationError::CancunGenesisParentBeaconBlockRootNotZero { .. }) => {
            json!(["GenesisBeaconRoot"])
        }
        BlockExecutionError::Internal(e) => {
            let s = format!("{e:?}");
            if s.contains("Custom(") { json!(["Invalid", "System"]) } else { json!(["?", s]) }
        }
        other => json!(["?", format!("{other:?}")]),
    }
}

pub fn limits(f: Option<mega_evm::MegaHardfork>, b: &BlockJ) -> BlockLimits {
    let gl = big(b.gl);
    let mut l = match f {
        Some(f) => BlockLimits::from_hardfork_and_block_gas_limit(f, gl),
        None => BlockLimits::no_limits().with_block_gas_limit(gl),
    };
    for (k, v) in &b.lim {
        let v = big(*v);
        l = match k.as_str() {
            "txgas" => l.with_tx_gas_limit(v),
            "gas" => l.with_block_gas_limit(v),
            "txsize" => l.with_tx_encode_size_limit(v),
            "size" => l.with_block_txs_encode_size_limit(v),
            "txda" => l.with_tx_da_size_limit(v),
            "da" => l.with_block_da_size_limit(v),
            "txdata" => l.with_tx_data_limit(v),
            "data" => l.with_block_txs_data_limit(v),
            "txkv" => l.with_tx_kv_update_limit(v),
            "kv" => l.with_block_kv_update_limit(v),
            "txcompute" => l.with_tx_compute_gas_limit(v),
            "compute" => l.with_block_compute_gas_limit(v),
            "txgrowth" => l.with_tx_state_growth_limit(v),
            "growth" => l.with_block_state_growth_limit(v),
            "env" => l.with_block_env_access_compute_gas_limit(v),
            "oracle" => l.with_oracle_access_compute_gas_limit(v),
            x => panic!("HARNESS limit {x}"),
        };
    }
    l
}

type Exec<'a, I> = MegaBlockExecutor<MegaHardforkConfig, MegaEvm<&'a mut State<Db>, I, Ext>, OpAlloyReceiptBuilder>;

fn receipt(su: &Setup, r: &OpReceiptEnvelope) -> Value {
    let (typ, dn, ver) = match r {
        OpReceiptEnvelope::Legacy(_) => ("legacy", -1, -1),
        OpReceiptEnvelope::Eip2930(_) => ("2930", -1, -1),
        OpReceiptEnvelope::Eip1559(_) => ("1559", -1, -1),
        OpReceiptEnvelope::Eip7702(_) => ("7702", -1, -1),
        OpReceiptEnvelope::Deposit(d) => (
            "deposit",
            d.receipt.deposit_nonce.map(|x| x as i64).unwrap_or(-2),
            d.receipt.deposit_receipt_version.map(|x| x as i64).unwrap_or(-2),
        ),
    };
    let logs: Vec<Value> = r
        .logs()
        .iter()
        .map(|l| json!([su.names.name(&l.address), l.topics().len(), l.data.data.len()]))
        .collect();
    assert!(ver == -1 || ver == 1, "deposit receipt version {ver}");
    json!({"typ": typ, "ok": r.status(), "logs": logs, "cum": n(r.cumulative_gas_used()), "dn": dn})
}

/// Changes of a finished block, as they reach the database.
fn persist(db: &Db, state: &mut State<Db>) {
    state.merge_transitions(BundleRetention::Reverts);
    let bundle = state.take_bundle();
    let mut s = db.0.borrow_mut();
    for (a, x) in bundle.state {
        if x.was_destroyed() {
            s.st.remove(&a);
        }
        for (k, v) in x.storage {
            if v.present_value.is_zero() {
                s.st.entry(a).or_default().remove(&k);
            } else {
                s.st.entry(a).or_default().insert(k, v.present_value);
            }
        }
        match x.info {
            None => {
                s.acc.remove(&a);
            }
            Some(mut info) => {
                if info.code.is_none() {
                    info.code = bundle.contracts.get(&info.code_hash).cloned().or_else(|| {
                        s.acc.values().find(|y| y.code_hash == info.code_hash).and_then(|y| y.code.clone())
                    });
                }
                s.acc.insert(a, info);
            }
        }
    }
}

struct Out {
    obs: Vec<Value>,
}

/// Authorization by the account `G<n>` (or by nobody).
fn authorization(su: &mut Setup, a: &AuthJ) -> SignedAuthorization {
    let address = if a.to.is_empty() { Address::ZERO } else { su.names.addr(&a.to, &su.prog) };
    let chain_id = match a.chain.as_str() {
        "zero" => U256::ZERO,
        "bad" => U256::from(9),
        _ => U256::from(6342),
    };
    let inner = Authorization { chain_id, address, nonce: a.n };
    if a.a.is_empty() {
        return SignedAuthorization::new_unchecked(inner, 0, U256::MAX, U256::from(1));
    }
    let (r, s, odd) = crate::keyless::sign(a.a[1..].parse().expect("HARNESS authority"), inner.signature_hash());
    SignedAuthorization::new_unchecked(inner, odd as u8, r, s)
}

/// What the wrapped transaction says about itself must be what the plain one says.
fn wrapped(t: &Recovered<MegaTxEnvelope>) -> EnrichedMegaTx<&Recovered<MegaTxEnvelope>> {
    let e = EnrichedMegaTx::new_slow(t);
    let p = t.inner();
    assert_eq!(e.tx_size, MegaTransactionExt::tx_size(p));
    assert_eq!(e.da_size, MegaTransactionExt::estimated_da_size(p));
    assert_eq!(e.tx_hash, MegaTransactionExt::tx_hash(p));
    assert_eq!(e.tx_hash, MegaTransactionExt::tx_hash(t));
    let f = EnrichedMegaTx::new(p.clone(), e.tx_hash, e.da_size, e.tx_size);
    assert_eq!(
        (f.chain_id(), f.nonce(), f.gas_limit(), f.gas_price(), f.max_fee_per_gas(), f.max_priority_fee_per_gas(), f.is_dynamic_fee(), f.kind(), f.value()),
        (p.chain_id(), p.nonce(), p.gas_limit(), p.gas_price(), p.max_fee_per_gas(), p.max_priority_fee_per_gas(), p.is_dynamic_fee(), p.kind(), p.value())
    );
    assert_eq!(
        (f.input(), f.access_list(), f.authorization_list(), f.to(), f.is_create(), f.ty(), f.effective_gas_price(Some(2)), f.effective_tip_per_gas(1), f.function_selector(), f.authorization_count()),
        (p.input(), p.access_list(), p.authorization_list(), p.to(), p.is_create(), p.ty(), p.effective_gas_price(Some(2)), p.effective_tip_per_gas(1), p.function_selector(), p.authorization_count())
    );
    assert_eq!((f.max_fee_per_blob_gas(), f.priority_fee_or_price(), f.blob_versioned_hashes(), f.blob_count(), f.blob_gas_used()), (p.max_fee_per_blob_gas(), p.priority_fee_or_price(), p.blob_versioned_hashes(), p.blob_count(), p.blob_gas_used()));
    assert_eq!((f.is_legacy(), f.is_eip2930(), f.is_eip1559(), f.is_eip7702(), f.is_eip4844()), (p.is_legacy(), p.is_eip2930(), p.is_eip1559(), p.is_eip7702(), p.is_eip4844()));
    e
}

fn obs<I>(ex: &Exec<'_, I>, r: Value, d: Value) -> Value {
    let l = &ex.block_limiter;
    json!({"r": r, "d": d, "full": l.is_block_limit_reached(),
           "u": {"gas": n(l.block_gas_used), "size": n(l.block_tx_size_used), "da": n(l.block_da_size_used), "data": n(l.block_data_used),
                 "kv": n(l.block_kv_updates_used), "compute": n(l.block_compute_gas_used), "growth": n(l.block_state_growth_used)}})
}

fn hook(su: &mut Setup, h2: Arc<Mutex<Vec<Value>>>) -> Box<dyn OnStateHook> {
    let sys: BTreeMap<alloy_primitives::Address, &str> =
        ["ORC", "TSO", "KLD"].iter().map(|x| (su.names.addr(x, &su.prog), *x)).collect();
    Box::new(move |src: StateChangeSource, st: &EvmState| {
        let v = match src {
            StateChangeSource::PreBlock(StateChangePreBlockSource::BlockHashesContract) => json!(["hist", 0]),
            StateChangeSource::PreBlock(StateChangePreBlockSource::BeaconRootContract) => json!(["beac", 0]),
            StateChangeSource::PostBlock(StateChangePostBlockSource::BalanceIncrements) if st.is_empty() => return,
            StateChangeSource::Transaction(0) if st.len() == 1 && sys.contains_key(st.keys().next().unwrap()) => {
                let (a, x) = st.iter().next().unwrap();
                json!(["sys", if x.is_touched() { sys[a] } else { "-" }])
            }
            StateChangeSource::Transaction(k) => json!(["tx", k]),
            other => json!([format!("{other:?}"), st.len()]),
        };
        h2.lock().unwrap().push(v);
    })
}

/// What the block's transactions see of the system contracts' storage.
fn sysdata(su: &mut Setup, sc: &BlockScen, db: &mut State<Db>) -> Value {
    let mut v = vec![];
    for (a, k, _) in &sc.base.st {
        if !["ORC", "TSO", "KLD"].contains(&a.as_str()) {
            continue;
        }
        let addr = su.names.addr(a, &su.prog);
        let _ = revm::Database::basic(db, addr);
        let x = revm::Database::storage(db, addr, U256::from(*k)).unwrap();
        if !x.is_zero() {
            v.push(json!([a, k, x.to::<u64>()]));
        }
    }
    json!([v])
}

/// The steps of one block by way of alloy's traits only; no totals are visible there.
fn one_block_alloy<'a, E, I>(su: &mut Setup, sc: &BlockScen, txs: &[Recovered<MegaTxEnvelope>], mut ex: E, mut i: usize, out: &mut Out) -> usize
where
    I: Inspector<MegaContext<&'a mut State<Db>, Ext>> + 'a,
    E: BlockExecutor<Transaction = MegaTxEnvelope, Receipt = OpReceiptEnvelope, Evm = MegaEvm<&'a mut State<Db>, I, Ext>>,
{
    let hooks: Arc<Mutex<Vec<Value>>> = Default::default();
    ex.set_state_hook(Some(hook(su, hooks.clone())));
    while i < sc.steps.len() {
        let st = &sc.steps[i];
        crate::world::arm(st.f);
        let mut cnt = None;
        let (r, d) = match st.o.as_str() {
            "open" => break,
            "pre" => match (ex.apply_pre_execution_changes(), cnt = Some(crate::world::fault().n)).0 {
                Ok(()) => (json!([]), sysdata(su, sc, ex.evm_mut().db_mut())),
                Err(e) => (refusal(&e), json!([])),
            },
            "exec" if st.c => match ex.execute_transaction(&txs[st.t - 1]) {
                Ok(g) => (json!([]), json!([n(g)])),
                Err(e) => (refusal(&e), json!([])),
            },
            "exec" => match ex.execute_transaction_with_commit_condition(&txs[st.t - 1], |_| CommitChanges::No) {
                Ok(g) => (json!([]), json!([g.map(n).unwrap_or(-1)])),
                Err(e) => (refusal(&e), json!([])),
            },
            "done" => {
                let (_, res) = ex.finish().expect("finish");
                let rec: Vec<Value> = res.receipts.iter().map(|r| receipt(su, r)).collect();
                out.obs.push(json!({"r": [], "d": [{"rec": rec, "gas": n(res.gas_used), "hook": *hooks.lock().unwrap()}]}));
                return i + 1;
            }
            x => panic!("HARNESS step {x}"),
        };
        out.obs.push(json!({"r": r, "d": d, "n": cnt.unwrap_or(crate::world::fault().n)}));
        crate::world::arm(0);
        i += 1;
    }
    i
}

/// The steps of one block; returns the index of the next step.
fn one_block<I, T>(su: &mut Setup, sc: &BlockScen, txs: &[T], ways: bool, mut ex: Exec<'_, I>, mut i: usize, out: &mut Out) -> usize
where
    I: for<'a> Inspector<MegaContext<&'a mut State<Db>, Ext>>,
    T: IntoTxEnv<MegaTransaction> + RecoveredTx<MegaTxEnvelope> + Copy,
{
    let hooks: Arc<Mutex<Vec<Value>>> = Default::default();
    ex.set_state_hook(Some(hook(su, hooks.clone())));
    let mut slots: BTreeMap<usize, BlockMegaTransactionOutcome<T>> = BTreeMap::new();
    while i < sc.steps.len() {
        let st = &sc.steps[i];
        crate::world::arm(st.f);
        let mut cnt = None;
        let (r, d) = match st.o.as_str() {
            "open" => break,
            "pre" => {
                let res = if ways {
                    ex.pre_execution_changes().and_then(|o| ex.commit_system_call_outcomes(o))
                } else {
                    ex.apply_pre_execution_changes()
                };
                cnt = Some(crate::world::fault().n);
                match res {
                    Ok(()) => (json!([]), sysdata(su, sc, ex.evm_mut().db_mut())),
                    Err(e) => (refusal(&e), json!([])),
                }
            }
            "run" => match if ways { ex.execute_mega_transaction(txs[st.t - 1]) } else { ex.run_transaction(txs[st.t - 1]) } {
                Ok(o) => {
                    let mut res = res_json(&o.inner.result, mega_halt);
                    res.as_object_mut().unwrap().remove("access");
                    let dep = sc.base.txs[st.t - 1].typ == "deposit";
                    let d = json!([{"res": res, "dn": o.depositor.as_ref().map(|x| x.nonce as i64).unwrap_or(-1),
                        "use": {"gas": n(o.inner.result.gas_used()), "size": n(o.tx_size), "da": if dep { 0 } else { n(o.da_size) },
                                "data": n(o.inner.data_size), "kv": n(o.inner.kv_updates), "compute": n(o.inner.compute_gas_used),
                                "growth": n(o.inner.state_growth_used)}}]);
                    slots.insert(st.s, o);
                    (json!([]), d)
                }
                Err(e) => (refusal(&e), json!([])),
            },
            "commit" => match slots.remove(&st.s) {
                None => (json!(["NoOutcome"]), json!([])),
                Some(o) => match if ways { ex.commit_execution_outcome(o) } else { ex.commit_transaction_outcome(o) } {
                    Ok(g) => (json!([]), json!([n(g)])),
                    Err(e) => (refusal(&e), json!([])),
                },
            },
            "exec" => {
                let c = st.c;
                match ex.execute_transaction_with_commit_condition(txs[st.t - 1], |_| {
                    if c { CommitChanges::Yes } else { CommitChanges::No }
                }) {
                    Ok(g) => (json!([]), json!([g.map(n).unwrap_or(-1)])),
                    Err(e) => (refusal(&e), json!([])),
                }
            }
            "done" => {
                let seen = su.buckets(&ex.get_accessed_bucket_ids());
                let mut hashes: Vec<u64> = ex.get_accessed_block_hashes().keys().map(|x| sc.base.num0 - x).collect();
                hashes.sort();
                let mut o = obs(&ex, json!([]), json!([]));
                let before = ex.receipts.len();
                let (evm, res) = ex.finish().expect("finish");
                let rec: Vec<Value> = res.receipts.iter().map(|r| receipt(su, r)).collect();
                assert_eq!(before, rec.len());
                drop(evm);
                o["d"] = json!([{"rec": rec, "gas": n(res.gas_used), "hook": *hooks.lock().unwrap(), "seen": seen, "hashes": hashes}]);
                out.obs.push(o);
                return i + 1;
            }
            x => panic!("HARNESS step {x}"),
        };
        let mut o = obs(&ex, r, d);
        o["n"] = json!(cnt.unwrap_or(crate::world::fault().n));
        out.obs.push(o);
        crate::world::arm(0);
        i += 1;
    }
    i
}

pub fn run_mode(sc: &BlockScen, mode: &str) -> Vec<Value> {
    let mut su = Setup::new(sc.base.clone());
    let db = su.db.deep_clone();
    // (the storage of an account that does not exist reads as empty)
    db.put(crate::replay::L1_BLOCK, U256::ZERO, 1, None, None);
    let hf = config(&sc.sch, sc.how);
    let txs: Vec<_> = sc.base.txs.iter().map(|t| envelope(&mut su, t)).collect();
    let mut out = Out { obs: vec![] };
    let (mut i, mut k) = (0, 0);
    while i < sc.steps.len() {
        assert!(sc.steps[i].o == "open", "HARNESS step outside a block");
        let b = &sc.blocks[k];
        set_caps(&su.ext, &b.bkt, &mut su.names, &su.prog);
        let spec = hf.spec_id(b.ts);
        let mut state = State::builder().with_database(db.clone()).with_bundle_update().build();
        let mut cfg = CfgEnv::new_with_spec(spec);
        cfg.chain_id = 6342;
        crate::world::HEIGHT.set(sc.base.num0 + k as u64);
        let block = BlockEnv {
            number: U256::from(sc.base.num0 + k as u64),
            beneficiary: su.names.addr(&sc.base.coin.clone(), &su.prog),
            timestamp: U256::from(b.ts),
            gas_limit: big(b.gl),
            basefee: sc.base.fee.base,
            prevrandao: Some(B256::repeat_byte(7)),
            ..Default::default()
        };
        let l = limits(hf.hardfork(b.ts), b);
        let root = if b.root == -1 { None } else { Some(B256::from(U256::from(b.root as u64))) };
        let ctx = MegaBlockExecutionCtx::new(B256::from(U256::from(b.ph)), root, Bytes::new(), l);
        let factory = MegaBlockExecutorFactory::new(
            hf.clone(),
            MegaEvmFactory::new().with_external_env_factory(su.ext.clone()),
            OpAlloyReceiptBuilder::default(),
        );
        let env = EvmEnv::new(cfg, block);
        i += 1;
        let refs: Vec<&Recovered<MegaTxEnvelope>> = txs.iter().collect();
        match mode {
            "inspect" => {
                let ex = factory.create_executor_with_inspector(&mut state, ctx, env, Watch::default());
                out.obs.push(obs(&ex, json!([]), json!([])));
                i = one_block(&mut su, sc, &refs, false, ex, i, &mut out);
            }
            // other names for the same operations, transactions wrapped, an executor put together by hand
            "ways" => {
                let evm = factory.evm_factory_ref().create_evm(&mut state, env).with_tx_runtime_limits(l.to_evm_tx_runtime_limits());
                let ex = MegaBlockExecutor::new(evm, ctx, hf.clone(), OpAlloyReceiptBuilder::default());
                out.obs.push(obs(&ex, json!([]), json!([])));
                let wr: Vec<_> = txs.iter().map(wrapped).collect();
                i = one_block(&mut su, sc, &wr, true, ex, i, &mut out);
            }
            "alloy" => {
                out.obs.push(json!({"r": [], "d": []}));
                let evm = BlockExecutorFactory::evm_factory(&factory);
                if k % 2 == 0 {
                    let ex = BlockExecutorFactory::create_executor(&factory, evm.create_evm(&mut state, env), ctx);
                    i = one_block_alloy(&mut su, sc, &txs, ex, i, &mut out);
                } else {
                    let ex = BlockExecutorFactory::create_executor(&factory, evm.create_evm_with_inspector(&mut state, env, Watch::default()), ctx);
                    i = one_block_alloy(&mut su, sc, &txs, ex, i, &mut out);
                }
            }
            _ => {
                let ex = factory.create_executor(&mut state, ctx, env);
                out.obs.push(obs(&ex, json!([]), json!([])));
                i = one_block(&mut su, sc, &refs, false, ex, i, &mut out);
            }
        }
        persist(&db, &mut state);
        if let Some(x) = out.obs.last_mut().and_then(|o| o["d"].get_mut(0)).filter(|d| d.is_object()) {
            x["world"] = su.world(&db);
        }
        k += 1;
        let _ = limits_json(&l);
    }
    out.obs
}

pub fn run(sc: BlockScen) -> Value {
    let mut res = json!({"id": sc.base.id});
    let modes = if sc.base.modes.is_empty() { vec!["plain".to_string()] } else { sc.base.modes.clone() };
    for mode in modes {
        let sc2 = sc.clone();
        let m = mode.clone();
        res[mode.as_str()] = match crate::guarded(move || run_mode(&sc2, &m)) {
            Ok(v) => json!(v),
            Err(p) if p.starts_with("HARNESS") => panic!("{p}"),
            Err(p) => json!({"panic": p}),
        };
    }
    res
}
