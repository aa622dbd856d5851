//! Chains of blocks under hardfork schedules (spec/Forks.tla).
use crate::{
    replay::{spec_of, BIG},
    world::Db,
};
use alloy_evm::EvmEnv;
use alloy_hardforks::ForkCondition;
use alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use alloy_op_hardforks::OpHardfork;
use alloy_primitives::{Bytes, B256, U256};
use mega_evm::{
    BlockLimits, EvmTxRuntimeLimits, MegaBlockExecutionCtx, MegaBlockExecutorFactory, MegaEvmFactory,
    MegaHardfork, MegaHardforkConfig, MegaHardforks, MegaSpecId,
};
use revm::{
    context::{BlockEnv, CfgEnv},
    database::State,
};
use serde::Deserialize;
use serde_json::{json, Value};

#[derive(Deserialize, Clone, Debug)]
pub struct ForkScen {
    pub id: String,
    pub sch: Vec<i64>,
    pub ts: Vec<u64>,
    pub gl: i64,
    pub bad: String,
    /// the rules given to the executor, per block
    pub given: Vec<u8>,
    /// how the schedule is put together
    pub how: u8,
}

pub const FORKS: [MegaHardfork; 8] = [
    MegaHardfork::MiniRex,
    MegaHardfork::MiniRex1,
    MegaHardfork::MiniRex2,
    MegaHardfork::Rex,
    MegaHardfork::Rex1,
    MegaHardfork::Rex2,
    MegaHardfork::Rex3,
    MegaHardfork::Rex4,
];

pub fn cond(x: i64) -> ForkCondition {
    match x {
        -1 => ForkCondition::Never,
        -2 => ForkCondition::Block(0),
        t => ForkCondition::Timestamp(t as u64),
    }
}

/// The same schedule, put together in different ways.
pub fn config(sch: &[i64], how: u8) -> MegaHardforkConfig {
    let mut c = MegaHardforkConfig::default();
    match how % 4 {
        0 => {
            for (f, x) in FORKS.iter().zip(sch) {
                c = c.with(*f, cond(*x));
            }
        }
        1 => {
            c = c.with_all_activated();
            for (f, x) in FORKS.iter().zip(sch) {
                c = if *x == -1 { c.without(*f) } else { c.with(*f, cond(*x)) };
            }
        }
        2 => {
            for (f, x) in FORKS.iter().zip(sch).rev() {
                c.insert(*f, ForkCondition::Timestamp(7));
                c.insert(*f, cond(*x));
            }
        }
        _ => {
            for (f, x) in FORKS.iter().zip(sch).rev() {
                if *x != -1 {
                    c = c.with(*f, cond(*x));
                }
            }
        }
    }
    c
}

pub fn n(x: u64) -> i64 {
    if x == u64::MAX {
        BIG
    } else {
        x as i64
    }
}
pub fn big(x: i64) -> u64 {
    if x == BIG {
        u64::MAX
    } else {
        x as u64
    }
}
pub fn spec_no(s: MegaSpecId) -> i64 {
    (0..7).find(|i| spec_of(*i as u8) == s).unwrap_or(-1)
}

pub fn limits_json(l: &BlockLimits) -> Value {
    json!({
        "txgas": n(l.tx_gas_limit), "gas": n(l.block_gas_limit), "txsize": n(l.tx_encode_size_limit),
        "size": n(l.block_txs_encode_size_limit), "txda": n(l.tx_da_size_limit), "da": n(l.block_da_size_limit),
        "txdata": n(l.tx_data_limit), "data": n(l.block_txs_data_limit), "txkv": n(l.tx_kv_update_limit),
        "kv": n(l.block_kv_update_limit), "txcompute": n(l.tx_compute_gas_limit), "compute": n(l.block_compute_gas_limit),
        "txgrowth": n(l.tx_state_growth_limit), "growth": n(l.block_state_growth_limit),
        "env": n(l.block_env_access_compute_gas_limit), "oracle": n(l.oracle_access_compute_gas_limit),
    })
}

pub fn run(sc: ForkScen) -> Value {
    let c = config(&sc.sch, sc.how);
    let mut out = vec![];
    for k in 1..sc.ts.len() {
        let (pts, ts) = (sc.ts[k - 1], sc.ts[k]);
        let gl = big(sc.gl);
        let hf = c.hardfork(ts);
        let rt = EvmTxRuntimeLimits::from_spec(c.spec_id(ts));
        let act = [
            c.is_mini_rex_active_at_timestamp(ts),
            c.is_mini_rex_1_active_at_timestamp(ts),
            c.is_mini_rex_2_active_at_timestamp(ts),
            c.is_rex_active_at_timestamp(ts),
            c.is_rex_1_active_at_timestamp(ts),
            c.is_rex_2_active_at_timestamp(ts),
            c.is_rex_3_active_at_timestamp(ts),
            c.is_rex_4_active_at_timestamp(ts),
        ];
        let first: Vec<bool> =
            FORKS.iter().map(|f| c.first_hardfork_block(*f, pts, (k as u64, ts))).collect();
        let lim: Vec<Value> = hf
            .map(|f| vec![limits_json(&BlockLimits::from_hardfork_and_block_gas_limit(f, gl))])
            .unwrap_or_default();
        let given = spec_of(sc.given[k - 1]);
        let mut cc = c.clone();
        match sc.bad.as_str() {
            "regolith" => cc.insert(OpHardfork::Regolith, ForkCondition::Never),
            "canyon" => cc.insert(OpHardfork::Canyon, ForkCondition::Never),
            "isthmus" => cc.insert(OpHardfork::Isthmus, ForkCondition::Never),
            _ => {}
        }
        let bad_gas = sc.bad == "gas";
        let accepted = crate::guarded(move || {
            let db = Db::default();
            let mut state = State::builder().with_database(db).with_bundle_update().build();
            let mut cfg = CfgEnv::new_with_spec(given);
            cfg.chain_id = 6342;
            let block = BlockEnv { number: U256::from(k), timestamp: U256::from(ts), gas_limit: gl, ..Default::default() };
            let l = match cc.hardfork(ts) {
                Some(f) => BlockLimits::from_hardfork_and_block_gas_limit(f, gl),
                None => BlockLimits::no_limits().with_block_gas_limit(gl),
            };
            let l = if bad_gas { l.with_block_gas_limit(gl + 1) } else { l };
            let f = MegaBlockExecutorFactory::new(cc, MegaEvmFactory::new(), OpAlloyReceiptBuilder::default());
            let ctx = MegaBlockExecutionCtx::new(B256::ZERO, Some(B256::ZERO), Bytes::new(), l);
            let _ = f.create_executor(&mut state, ctx, EvmEnv::new(cfg, block));
        })
        .is_ok();
        let spec = c.spec_id(ts);
        // a fork's own rules
        let own = hf.map(|f| spec_no(f.spec_id()));
        out.push(json!({
            "hf": hf.map(|f| format!("{f:?}")).unwrap_or("-".into()), "spec": spec_no(spec), "act": act, "first": first, "lim": lim,
            "rt": {"d": n(rt.tx_data_size_limit), "k": n(rt.tx_kv_updates_limit), "c": n(rt.tx_compute_gas_limit),
                   "g": n(rt.tx_state_growth_limit), "be": n(rt.block_env_access_compute_gas_limit),
                   "or": n(rt.oracle_access_compute_gas_limit)},
            "ok": accepted, "given": sc.given[k - 1], "own": own.unwrap_or(0),
        }));
    }
    json!({"id": sc.id, "out": out})
}
