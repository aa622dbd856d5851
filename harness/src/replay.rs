//! Runs scenarios of spec/Replay.tla on the real EVM and reports what can be observed.
use crate::{
    asm::{hint_calldata, Op, Program},
    names::Names,
    world::{bucket_key, BucketKey, Db, DbErr, Ext, ExtEvent},
};
use alloy_primitives::{keccak256, Address, Bytes, TxKind, B256, U256};
use mega_evm::{
    EvmTxRuntimeLimits, MegaContext, MegaEvm, MegaHaltReason, MegaSpecId, MegaTransaction, SaltEnv,
    VolatileDataAccess,
};
use op_revm::{L1BlockInfo, OpTransaction, OpTransactionError};
use alloy_evm::{Evm as _, EvmFactory as _};
use revm::{
    context::{
        either::Either,
        result::{EVMError, ExecutionResult, ResultAndState},
        BlockEnv, CfgEnv, TxEnv,
    },
    context_interface::transaction::{
        AccessList, AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization,
    },
    handler::EvmTr,
    inspector::Inspector,
    interpreter::{
        CallInputs, CallOutcome, CallScheme, CreateInputs, CreateOutcome, Gas, InstructionResult, Interpreter, InterpreterResult, InterpreterTypes,
    },
    state::Bytecode,
    ExecuteEvm,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Deserialize, Clone, Debug)]
pub struct CodeJ {
    pub t: String,
    pub len: u64,
    pub to: String,
}
#[derive(Deserialize, Clone, Debug)]
pub struct AccJ {
    pub b: i64,
    pub n: u64,
    pub c: CodeJ,
}
#[derive(Deserialize, Clone, Debug)]
pub struct LimJ {
    pub d: i64,
    pub k: i64,
    pub c: i64,
    pub g: i64,
    pub be: i64,
    pub or: i64,
}
#[derive(Deserialize, Clone, Debug)]
pub struct AuthJ {
    pub a: String,
    pub to: String,
    pub n: u64,
    pub chain: String,
}
#[derive(Deserialize, Clone, Debug)]
pub struct TxJ {
    pub kind: String,
    pub typ: String,
    pub from: String,
    pub to: String,
    pub b: String,
    pub v: u64,
    pub gas: u64,
    pub price: u64,
    pub nonce: u64,
    pub nz: usize,
    pub z: usize,
    pub al: Vec<(String, Vec<u64>)>,
    pub auth: Vec<AuthJ>,
    pub hint: Vec<Value>,
    pub mint: u64,
    /// priority fee (default: the price)
    #[serde(default)]
    pub tip: Option<u64>,
    /// the access of the database or the environment that fails (negative: and all later ones)
    #[serde(default)]
    pub fault: i64,
    /// the call asks for a keyless deployment
    #[serde(default)]
    pub kl: Option<crate::keyless::KlJ>,
}
#[derive(Deserialize, Clone, Debug, Default)]
pub struct FeeJ {
    pub base: u64,
    pub l1: u64,
    pub ops: u64,
    pub opc: u64,
    pub none: bool,
    /// whether the L1 parameters are only in the database
    #[serde(default)]
    pub stored: bool,
}
#[derive(Deserialize, Clone, Debug)]
pub struct IcptJ {
    pub r: String,
    pub gas: u64,
}
#[derive(Deserialize, Clone, Debug)]
pub struct CfgJ {
    pub code: i64,
    pub init: i64,
    pub cap: i64,
    pub blk: i64,
    pub nonce: bool,
    pub bal: bool,
    pub e3607: bool,
    pub ef: bool,
    pub nobase: bool,
}
#[derive(Deserialize, Clone, Debug)]
pub struct Scenario {
    pub id: String,
    pub sp: u8,
    pub coin: String,
    pub acc: BTreeMap<String, AccJ>,
    pub st: Vec<(String, u64, u64)>,
    pub code: BTreeMap<String, Vec<Op>>,
    pub lim: LimJ,
    pub bkt: BTreeMap<String, u64>,
    pub orc: Vec<(u64, u64)>,
    pub txs: Vec<TxJ>,
    /// new block before transaction i (0: no, n: with the bucket sizes bkts[n-1])
    #[serde(default)]
    pub nbk: Vec<usize>,
    /// how the block number changes where a new block begins
    #[serde(default)]
    pub hop: Vec<i64>,
    #[serde(default)]
    pub bkts: Vec<BTreeMap<String, u64>>,
    #[serde(default)]
    pub names: Vec<String>,
    #[serde(default)]
    pub modes: Vec<String>,
    /// number of the first block
    #[serde(default = "number")]
    pub num0: u64,
    /// the database gives out codes only by hash
    #[serde(default)]
    pub lazy: bool,
    #[serde(default)]
    pub hollow: bool,
    #[serde(default)]
    pub wide: bool,
    /// calls the inspector answers itself: by whom, how, for how much gas
    #[serde(default)]
    pub icpt: BTreeMap<String, IcptJ>,
    /// with the operator's own precompiles
    #[serde(default, rename = "dyn")]
    pub dynp: bool,
    #[serde(default)]
    pub fee: FeeJ,
    #[serde(default)]
    pub cfg: Option<CfgJ>,
}
fn number() -> u64 {
    NUMBER
}

/// Codes of the system contracts, kept apart from the repository's own copies.
pub fn sys_code(v: &str) -> Bytes {
    let h = match v {
        "orc1" => include_str!("../data/orc1.hex"),
        "orc2" => include_str!("../data/orc2.hex"),
        "tso" => include_str!("../data/tso.hex"),
        "kld" => include_str!("../data/kld.hex"),
        "hist" => return alloy_eips::eip2935::HISTORY_STORAGE_CODE.clone(),
        "beac" => return alloy_eips::eip4788::BEACON_ROOTS_CODE.clone(),
        x => panic!("HARNESS system contract {x}"),
    };
    alloy_primitives::hex::decode(h.trim()).unwrap().into()
}
pub const SYSC: [&str; 6] = ["orc1", "orc2", "tso", "kld", "hist", "beac"];

pub const BIG: i64 = 2147483647;
pub const NUMBER: u64 = 1000;

pub fn spec_of(sp: u8) -> MegaSpecId {
    use MegaSpecId::*;
    [EQUIVALENCE, MINI_REX, REX, REX1, REX2, REX3, REX4][sp as usize]
}

/// No L1 or operator fees.
pub fn l1_fees(f: &FeeJ, number: u64) -> L1BlockInfo {
    if f.stored {
        return L1BlockInfo::default();
    }
    let mut c = l1();
    c.l2_block = U256::from(number);
    // the smallest transaction costs f.l1
    c.l1_base_fee = U256::from(625 * f.l1);
    c.l1_base_fee_scalar = U256::from(1);
    c.operator_fee_scalar = Some(U256::from(f.ops));
    c.operator_fee_constant = Some(U256::from(f.opc));
    c
}
pub const L1_BLOCK: Address = alloy_primitives::address!("4200000000000000000000000000000000000015");
/// The same parameters as the database has them.
pub fn store_l1(db: &Db, f: &FeeJ) {
    db.slot(L1_BLOCK, U256::from(1), U256::from(625 * f.l1));
    db.slot(L1_BLOCK, U256::from(3), U256::from(1) << 96);
    db.slot(L1_BLOCK, U256::from(8), (U256::from(f.ops) << 64) | U256::from(f.opc));
}
pub fn l1() -> L1BlockInfo {
    let mut c = L1BlockInfo::default();
    c.l2_block = U256::from(NUMBER);
    c.operator_fee_scalar = Some(U256::ZERO);
    c.operator_fee_constant = Some(U256::ZERO);
    c
}

#[derive(Serialize, Clone, Debug, Default)]
pub struct Obs {
    pub res: Value,
    pub cg: u64,
    pub ds: u64,
    pub kv: u64,
    pub gr: u64,
    pub vol: Vec<String>,
    pub access: Vec<String>,
    pub logs: Value,
    pub hints: Value,
    pub reads: Value,
    pub seen: Vec<String>,
    pub asked: Vec<String>,
    pub hashes: Vec<u64>,
    pub world: Value,
    /// accesses of the database and the environment; whether one of them failed
    pub acc_n: u64,
    pub hit: bool,
    /// answer of the keyless deployer
    pub kl: Value,
    /// what a tracing inspector was told
    pub tr: Value,
}

pub struct Setup {
    pub sc: Scenario,
    pub prog: Program,
    pub names: Names,
    pub db: Db,
    pub ext: Ext,
    pub code: Bytes,
    pub nblk: i64,
}

fn padded(n: usize) -> impl Iterator<Item = u8> {
    std::iter::repeat_n(0xaa, n)
}

pub fn set_caps(ext: &Ext, bkt: &BTreeMap<String, u64>, names: &mut Names, prog: &Program) {
    ext.caps.borrow_mut().clear();
    for (n, cap) in bkt {
        let id = match n.split_once('/') {
            None => Ext::bucket_id_for_account(names.addr(n, prog)),
            Some((a, k)) => {
                Ext::bucket_id_for_slot(names.addr(a, prog), prog.key(k.parse::<u64>().unwrap()))
            }
        };
        // the largest sizes of the specification stand for the largest a bucket can have (2^40)
        let cap = if *cap >= 1 << 29 { *cap << 10 } else { *cap };
        ext.caps.borrow_mut().insert(id, cap);
    }
}

impl Setup {
    /// Whether a new block starts before transaction `i`; if so, prepares for it.
    pub fn next_block(&mut self, i: usize) -> bool {
        let n = self.sc.nbk.get(i).copied().unwrap_or(0);
        if n == 0 || i == 0 {
            return false;
        }
        self.nblk += self.sc.hop.get(i).copied().unwrap_or(1);
        set_caps(&self.ext, &self.sc.bkts[n - 1].clone(), &mut self.names, &self.prog);
        true
    }

    pub fn new(sc: Scenario) -> Self {
        let prog = Program { blocks: sc.code.clone(), number: sc.num0, wide: sc.wide };
        let mut names = Names::default();
        let code = Bytes::from(prog.contract(&mut names));
        let db = Db::default();
        db.0.borrow_mut().lazy = sc.lazy;
        db.0.borrow_mut().hollow = sc.hollow;
        for (n, a) in &sc.acc {
            let addr = names.addr(n, &prog);
            let c = match a.c.t.as_str() {
                "none" => None,
                "code" => Some(code.clone()),
                "raw" => Some(Bytes::from(vec![0u8; a.c.len as usize])),
                "deleg" => {
                    let t = names.addr(&a.c.to, &prog);
                    Some(Bytecode::new_eip7702(t).original_bytes())
                }
                "sysc" => Some(sys_code(&a.c.to)),
                x => panic!("code kind {x}"),
            };
            if a.b == 0 && a.n == 0 && c.is_none() {
                continue;
            }
            let hash = (a.c.t == "code").then_some(B256::repeat_byte(0xc0));
            db.put(addr, prog.ether(a.b as u64), a.n, c, hash);
        }
        for (n, k, v) in &sc.st {
            let addr = names.addr(n, &prog);
            if *v != 0 {
                db.slot(addr, prog.key(*k), prog.val(*v));
            }
        }
        let ext = Ext::default();
        set_caps(&ext, &sc.bkt, &mut names, &prog);
        for (k, v) in &sc.orc {
            ext.orc.borrow_mut().insert(prog.key(*k), prog.val(*v));
        }
        for n in &sc.names {
            names.addr(n, &prog);
        }
        names.addr(&sc.coin, &prog);
        for i in (1..18).chain([256]) {
            names.addr(&format!("P{i}"), &prog);
        }
        for n in ["DYN", "BASEV", "L1V", "OPV"] {
            names.addr(n, &prog);
        }
        store_l1(&db, &sc.fee);
        Setup { sc, prog, names, db, ext, code, nblk: 0 }
    }

    pub fn block_env(&mut self) -> BlockEnv {
        crate::world::HEIGHT.set((self.sc.num0 as i64 + self.nblk) as u64);
        BlockEnv {
            number: U256::from((self.sc.num0 as i64 + self.nblk) as u64),
            beneficiary: self.names.addr(&self.sc.coin.clone(), &self.prog),
            timestamp: U256::from(1_700_000_000u64),
            gas_limit: match &self.sc.cfg {
                Some(c) if c.blk != BIG => c.blk as u64,
                _ => 10_000_000_000,
            },
            basefee: self.sc.fee.base,
            prevrandao: Some(B256::repeat_byte(7)),
            ..Default::default()
        }
    }

    pub fn limits(&self) -> EvmTxRuntimeLimits {
        let mut l = EvmTxRuntimeLimits::from_spec(spec_of(self.sc.sp));
        let j = &self.sc.lim;
        let conv = |x: i64| if x == BIG { u64::MAX } else { x as u64 };
        if j.d != -1 {
            l.tx_data_size_limit = conv(j.d);
        }
        if j.k != -1 {
            l.tx_kv_updates_limit = conv(j.k);
        }
        if j.c != -1 {
            l.tx_compute_gas_limit = conv(j.c);
        }
        if j.g != -1 {
            l.tx_state_growth_limit = conv(j.g);
        }
        if j.be != -1 {
            l.block_env_access_compute_gas_limit = conv(j.be);
        }
        if j.or != -1 {
            l.oracle_access_compute_gas_limit = conv(j.or);
        }
        l
    }

    pub fn cfg<S>(&self, spec: S) -> CfgEnv<S> {
        let mut cfg = CfgEnv::new_with_spec(spec);
        cfg.chain_id = 6342;
        if let Some(c) = &self.sc.cfg {
            let size = |x: i64| (x != -1).then_some(x as usize);
            cfg.limit_contract_code_size = size(c.code);
            cfg.limit_contract_initcode_size = size(c.init);
            cfg.tx_gas_limit_cap = (c.cap != BIG).then_some(c.cap as u64);
            cfg.disable_nonce_check = c.nonce;
            cfg.disable_balance_check = c.bal;
            cfg.disable_eip3607 = c.e3607;
            cfg.disable_eip3541 = c.ef;
            cfg.disable_base_fee = c.nobase;
        }
        cfg
    }

    pub fn context(&mut self, db: Db) -> MegaContext<Db, Ext> {
        let spec = spec_of(self.sc.sp);
        let block = self.block_env();
        let chain = l1_fees(&self.sc.fee, self.sc.num0);
        let cfg = self.cfg(spec);
        let has = [self.sc.lim.d, self.sc.lim.k, self.sc.lim.c, self.sc.lim.g, self.sc.lim.be, self.sc.lim.or]
            .iter()
            .any(|x| *x != -1);
        let ctx = MegaContext::new(db, spec)
            .with_external_envs(self.ext.envs())
            .with_cfg(cfg)
            .with_block(block)
            .with_chain(chain);
        let mut ctx = ctx;
        if self.sc.fee.none {
            ctx.disable_beneficiary();
        }
        if has {
            ctx.with_tx_runtime_limits(self.limits())
        } else {
            ctx
        }
    }

    pub fn evm(&mut self, db: Db) -> MegaEvm<Db, revm::inspector::NoOpInspector, Ext> {
        if !self.sc.dynp {
            return MegaEvm::new(self.context(db));
        }
        // (such scenarios keep the limits of the spec)
        let cfg = self.cfg(spec_of(self.sc.sp));
        let env = alloy_evm::EvmEnv::new(cfg, self.block_env());
        let mut evm = crate::pre::factory(self).create_evm(db, env);
        evm.ctx_mut().chain = l1_fees(&self.sc.fee, self.sc.num0);
        evm
    }

    /// The same context, put together in another order.
    fn context_by(&mut self, db: Db, how: u8) -> MegaContext<Db, Ext> {
        let spec = spec_of(self.sc.sp);
        let (block, chain, cfg, envs, lim) = (self.block_env(), l1_fees(&self.sc.fee, self.sc.num0), self.cfg(spec), self.ext.envs(), self.limits());
        let mut ctx = match how {
            0 => MegaContext::new(db, spec).with_block(block).with_chain(chain).with_external_envs(envs).with_cfg(cfg).with_tx_runtime_limits(lim),
            1 => MegaContext::new(db, spec).with_tx_runtime_limits(lim).with_cfg(cfg).with_block(block).with_external_envs(envs).with_chain(chain),
            2 => MegaContext::new(Db::default(), spec)
                .with_tx_runtime_limits(lim)
                .with_chain(chain)
                .with_external_envs(envs)
                .with_tx(MegaTransaction::default())
                .with_block(block)
                .with_cfg(cfg)
                .with_db(db),
            _ => {
                use op_revm::{DefaultOp, OpContext, OpSpecId};
                let ctx: OpContext<Db> = revm::Context::op().with_db(db);
                let ctx = ctx.with_cfg(self.cfg(OpSpecId::ISTHMUS)).with_chain(chain);
                #[allow(deprecated)]
                let ctx = MegaContext::new_with_context(ctx, spec, envs);
                ctx.with_block(block).with_tx_runtime_limits(lim)
            }
        };
        if self.sc.fee.none {
            ctx.disable_beneficiary();
        }
        ctx
    }

    /// An EVM for the next block made of what is left of the one for the last.
    fn reborn(&mut self, db: Db, env: alloy_evm::EvmEnv<MegaSpecId>) -> MegaEvm<Db, Watch, Ext> {
        let env = alloy_evm::EvmEnv::new(env.cfg_env, self.block_env());
        let mut evm = if self.sc.dynp {
            crate::pre::factory(self).create_evm_with_inspector(db, env, Watch::default())
        } else {
            let f = mega_evm::MegaEvmFactory::new().with_external_env_factory(self.ext.clone());
            f.create_evm_with_inspector(db, env, Watch::default()).with_tx_runtime_limits(self.limits())
        };
        evm.ctx_mut().chain = l1_fees(&self.sc.fee, self.sc.num0);
        if self.sc.fee.none {
            evm.ctx_mut().disable_beneficiary();
        }
        evm
    }

    fn outcome<I>(&self, evm: &MegaEvm<Db, I, Ext>, r: ResultAndState<MegaHaltReason>) -> mega_evm::MegaTransactionOutcome {
        let u = evm.ctx_ref().additional_limit.borrow().get_usage();
        mega_evm::MegaTransactionOutcome {
            result: r.result,
            state: r.state,
            data_size: u.data_size,
            kv_updates: u.kv_updates,
            compute_gas_used: u.compute_gas,
            state_growth_used: u.state_growth,
        }
    }

    /// Init code of block `b`, filled up to the given numbers of bytes.
    pub fn init_code(&mut self, b: &str, nz: usize, z: usize) -> Vec<u8> {
        if b == "-stop" {
            let mut v = vec![0; z];
            v.extend(padded(nz));
            return v;
        }
        let mut v = self.prog.blob(b, 1, &mut self.names);
        if z + nz > v.len() {
            let have = v.iter().filter(|x| **x == 0).count();
            v.extend(std::iter::repeat_n(0, z - have));
            v.extend(padded(nz + z - v.len()));
        }
        v
    }

    pub fn calldata(&mut self, t: &TxJ) -> Bytes {
        let v = if t.kind == "create" {
            self.init_code(&t.b, t.nz, t.z)
        } else if let Some(k) = &t.kl {
            crate::keyless::calldata(self, k)
        } else if !t.hint.is_empty() {
            hint_calldata(&self.prog, &t.hint)
        } else if t.nz >= 2 && t.z >= 30 {
            let mut v = B256::from(U256::from(self.prog.dest(&t.b))).to_vec();
            v.extend(padded(t.nz - 2));
            v.extend(std::iter::repeat_n(0, t.z - 30));
            v
        } else {
            let mut v: Vec<u8> = padded(t.nz).collect();
            v.extend(std::iter::repeat_n(0, t.z));
            v
        };
        let z = v.iter().filter(|x| **x == 0).count();
        assert!(z == t.z && v.len() == t.z + t.nz, "HARNESS calldata shape {} {z} vs {} {}", v.len(), t.nz, t.z);
        v.into()
    }

    pub fn tx(&mut self, t: &TxJ) -> MegaTransaction {
        let data = self.calldata(t);
        let caller = self.names.addr(&t.from, &self.prog);
        let kind = if t.kind == "create" {
            TxKind::Create
        } else {
            TxKind::Call(self.names.addr(&t.to, &self.prog))
        };
        let al = AccessList(
            t.al.iter()
                .map(|(a, ks)| AccessListItem {
                    address: self.names.addr(a, &self.prog),
                    storage_keys: {
                        // how a list was allocated must not matter
                        let mut v: Vec<B256> = Vec::with_capacity(ks.len() + 3);
                        v.extend(ks.iter().map(|k| B256::from(self.prog.key(*k))));
                        v
                    },
                })
                .collect(),
        );
        let auth = t
            .auth
            .iter()
            .map(|a| {
                let address = if a.to.is_empty() {
                    Address::ZERO
                } else {
                    self.names.addr(&a.to, &self.prog)
                };
                let chain_id = match a.chain.as_str() {
                    "zero" => U256::ZERO,
                    "bad" => U256::from(9),
                    _ => U256::from(6342),
                };
                let inner = Authorization { chain_id, address, nonce: a.n };
                let who = if a.a.is_empty() {
                    RecoveredAuthority::Invalid
                } else {
                    RecoveredAuthority::Valid(self.names.addr(&a.a, &self.prog))
                };
                Either::Right(RecoveredAuthorization::new_unchecked(inner, who))
            })
            .collect();
        let tx_type = match t.typ.as_str() {
            "legacy" => 0,
            "2930" => 1,
            "1559" => 2,
            "7702" => 4,
            "deposit" => 126,
            "sc" => 0,
            x => panic!("tx type {x}"),
        };
        let base = TxEnv {
            tx_type: if tx_type == 126 { 0 } else { tx_type },
            caller,
            gas_limit: t.gas,
            gas_price: self.prog.price(t.price),
            kind,
            value: self.prog.ether(t.v),
            data,
            nonce: t.nonce,
            chain_id: Some(6342),
            access_list: al,
            gas_priority_fee: if tx_type == 2 || tx_type == 4 { Some(self.prog.price(t.tip.unwrap_or(t.price))) } else { None },
            authorization_list: auth,
            ..Default::default()
        };
        let mut tx = OpTransaction::new(base);
        tx.enveloped_tx = Some(Bytes::from_static(&[0]));
        if tx_type == 126 {
            tx.deposit.source_hash = B256::repeat_byte(1);
            tx.deposit.mint = Some(self.prog.price(t.mint));
        }
        tx
    }

    pub fn code_kind(&self, code: Option<&Bytecode>) -> (String, u64, String) {
        let b = code.map(|c| c.original_bytes()).unwrap_or_default();
        if b.is_empty() {
            ("none".into(), 0, "-".into())
        } else if b == self.code {
            ("code".into(), 0, "-".into())
        } else if let Some(Bytecode::Eip7702(d)) = code {
            ("deleg".into(), 0, self.names.name(&d.delegated_address))
        } else if let Some(v) = SYSC.iter().find(|v| sys_code(v) == b) {
            ("sysc".into(), 0, v.to_string())
        } else if b[0] == 0xef {
            ("ef".into(), b.len() as u64, "-".into())
        } else {
            ("raw".into(), b.len() as u64, "-".into())
        }
    }

    pub fn world(&self, db: &Db) -> Value {
        let s = db.0.borrow();
        let mut acc = vec![];
        for (a, x) in &s.acc {
            let (t, len, to) = self.code_kind(x.code.as_ref());
            if x.balance.is_zero() && x.nonce == 0 && t == "none" || *a == L1_BLOCK {
                continue;
            }
            acc.push(json!([self.names.name(a), self.prog.unval(x.balance), x.nonce, t, len, to]));
        }
        let mut st = vec![];
        for (a, m) in &s.st {
            if *a == L1_BLOCK {
                continue;
            }
            for (k, v) in m {
                if !v.is_zero() {
                    st.push(json!([
                        self.names.name(a),
                        self.prog.unkey(*k),
                        self.prog.unval(*v)
                    ]));
                }
            }
        }
        json!({"acc": acc, "st": st})
    }

    /// <<who, number of topics, size>>; topics are n, n-1, .. 1
    pub fn log(&self, l: &alloy_primitives::Log) -> Value {
        let n = l.topics().len();
        let ok = l.topics().iter().enumerate().all(|(j, t)| self.prog.unval(U256::from_be_bytes(t.0)) == (n - j) as u64);
        json!([self.names.name(&l.address), if ok { n as i64 } else { -1 }, l.data.data.len()])
    }

    pub fn buckets(&self, ids: &[u32]) -> Vec<String> {
        let mut v: Vec<String> = ids
            .iter()
            .map(|id| match bucket_key(*id) {
                None => format!("?{id}"),
                Some(BucketKey::Account(a)) => self.names.name(&a),
                Some(BucketKey::Slot(a, k)) => format!("{}/{}", self.names.name(&a), self.prog.unkey(k)),
            })
            .collect();
        v.sort();
        v
    }

    pub fn hints_reads(&self) -> (Value, Value) {
        let mut h = vec![];
        let mut r = vec![];
        for e in self.ext.log.borrow_mut().drain(..) {
            match e {
                ExtEvent::Hint(a, t, d) => {
                    let t = U256::from_be_bytes(t.0);
                    let ok = d.iter().all(|x| *x == 0x5a);
                    h.push(json!([
                        self.names.name(&a),
                        self.prog.unval(t),
                        if ok { d.len() as i64 } else { -1 }
                    ]));
                    r.push(json!(["hint"]));
                }
                ExtEvent::Read(k, some) => r.push(json!(["read", self.prog.unkey(k).to_string(), some])),
            }
        }
        (json!(h), json!(r))
    }
}

pub fn vol_names(v: VolatileDataAccess) -> Vec<String> {
    let t = [
        (VolatileDataAccess::BLOCK_NUMBER, "NUMBER"),
        (VolatileDataAccess::TIMESTAMP, "TIMESTAMP"),
        (VolatileDataAccess::COINBASE, "COINBASE"),
        (VolatileDataAccess::DIFFICULTY, "DIFFICULTY"),
        (VolatileDataAccess::GAS_LIMIT, "GASLIMIT"),
        (VolatileDataAccess::BASE_FEE, "BASEFEE"),
        (VolatileDataAccess::PREV_RANDAO, "PREVRANDAO"),
        (VolatileDataAccess::BLOCK_HASH, "BLOCKHASH"),
        (VolatileDataAccess::BLOB_BASE_FEE, "BLOBBASEFEE"),
        (VolatileDataAccess::BLOB_HASH, "BLOBHASH"),
        (VolatileDataAccess::BENEFICIARY_BALANCE, "BENEFICIARY"),
        (VolatileDataAccess::ORACLE, "ORACLE"),
    ];
    let mut out: Vec<String> =
        t.iter().filter(|(b, _)| v.contains(*b)).map(|(_, n)| n.to_string()).collect();
    out.sort();
    out
}

pub fn short(s: &str) -> String {
    // name of the outermost enum variant, dropping payload; OutOfGas keeps its kind
    let s = s.strip_prefix("Base(").map(|x| &x[..x.len() - 1]).unwrap_or(s);
    if s.starts_with("OutOfGas") {
        return s.to_string();
    }
    s.split(['(', ' ', '{']).next().unwrap_or("").to_string()
}

pub fn res_json<H: core::fmt::Debug>(r: &ExecutionResult<H>, conv: impl Fn(&H) -> Value) -> Value {
    match r {
        ExecutionResult::Success { reason, gas_used, gas_refunded, output, .. } => {
            json!({"kind": "Success", "why": format!("{reason:?}"), "limit": 0, "actual": 0, "gas": gas_used,
                   "ref": gas_refunded, "out": output.data().len()})
        }
        ExecutionResult::Revert { gas_used, output } => {
            json!({"kind": "Revert", "why": "", "limit": 0, "actual": 0, "gas": gas_used, "ref": 0, "out": output.len()})
        }
        ExecutionResult::Halt { reason, gas_used } => {
            let mut v = conv(reason);
            v["gas"] = json!(gas_used);
            v["ref"] = json!(0);
            v["out"] = json!(0);
            v
        }
    }
}

pub fn mega_halt(h: &MegaHaltReason) -> Value {
    use MegaHaltReason::*;
    match h {
        Base(b) => {
            let s = format!("{b:?}");
            json!({"kind": "Halt", "why": short(&short_base(&s)), "limit": 0, "actual": 0})
        }
        DataLimitExceeded { limit, actual } => json!({"kind": "Halt", "why": "DataLimitExceeded", "limit": limit, "actual": actual}),
        KVUpdateLimitExceeded { limit, actual } => json!({"kind": "Halt", "why": "KVUpdateLimitExceeded", "limit": limit, "actual": actual}),
        ComputeGasLimitExceeded { limit, actual } => json!({"kind": "Halt", "why": "ComputeGasLimitExceeded", "limit": limit, "actual": actual}),
        StateGrowthLimitExceeded { limit, actual } => json!({"kind": "Halt", "why": "StateGrowthLimitExceeded", "limit": limit, "actual": actual}),
        VolatileDataAccessOutOfGas { access_type, limit, actual } => {
            json!({"kind": "Halt", "why": "VolatileDataAccessOutOfGas", "limit": limit, "actual": actual, "access": vol_names(*access_type)})
        }
        #[allow(unreachable_patterns)]
        other => json!({"kind": "Halt", "why": format!("{other:?}"), "limit": 0, "actual": 0}),
    }
}
pub fn short_base(s: &str) -> String {
    s.strip_prefix("Base(").map(|x| x[..x.len() - 1].to_string()).unwrap_or(s.to_string())
}

pub fn err_json(e: &EVMError<DbErr, OpTransactionError>) -> Value {
    let why = match e {
        EVMError::Transaction(OpTransactionError::Base(b)) => short(&format!("{b:?}")),
        EVMError::Transaction(b) => short(&format!("{b:?}")),
        EVMError::Database(_) => "Fault".to_string(),
        EVMError::Custom(_) if crate::world::fault().hit => "Fault".to_string(),
        EVMError::Custom(_) => "System".to_string(),
        other => format!("{other:?}"),
    };
    json!({"kind": "Error", "why": why, "limit": 0, "actual": 0, "gas": 0, "ref": 0, "out": 0})
}

/// Observes everything, changes nothing.
#[derive(Default, Debug)]
pub struct Watch {
    pub steps: u64,
    pub step_ends: u64,
    pub calls: u64,
    pub ends: u64,
    pub logs: u64,
}
impl<CTX, I: InterpreterTypes> Inspector<CTX, I> for Watch {
    fn step(&mut self, _: &mut Interpreter<I>, _: &mut CTX) {
        self.steps += 1;
    }
    fn step_end(&mut self, _: &mut Interpreter<I>, _: &mut CTX) {
        self.step_ends += 1;
    }
    fn log(&mut self, _: &mut Interpreter<I>, _: &mut CTX, _: alloy_primitives::Log) {
        self.logs += 1;
    }
    fn call(&mut self, _: &mut CTX, _: &mut CallInputs) -> Option<CallOutcome> {
        self.calls += 1;
        None
    }
    fn call_end(&mut self, _: &mut CTX, _: &CallInputs, _: &mut CallOutcome) {
        self.ends += 1;
    }
    fn create(&mut self, _: &mut CTX, _: &mut CreateInputs) -> Option<CreateOutcome> {
        self.calls += 1;
        None
    }
    fn create_end(&mut self, _: &mut CTX, _: &CreateInputs, _: &mut CreateOutcome) {
        self.ends += 1;
    }
}

/// Records calls, creations, their ends and logs; may answer calls itself.
#[derive(Default, Debug)]
pub struct Trace {
    pub ev: Vec<Seen>,
    pub icpt: BTreeMap<(Address, bool), IcptJ>,
}
#[derive(Debug)]
pub enum Seen {
    Call(&'static str, Address, Address, Address, U256, u64, bool, usize),
    Create(&'static str, Address, U256, u64),
    End(InstructionResult, u64, usize),
    Log(alloy_primitives::Log),
}
impl Trace {
    fn answer(&self, a: Address, create: bool, depth: usize, gas: u64) -> Option<InterpreterResult> {
        let x = self.icpt.get(&(a, create)).filter(|_| !create || depth > 0)?;
        let mut g = Gas::new(gas);
        let _ = g.record_cost(x.gas.min(gas));
        let r = match x.r.as_str() {
            "Return" => InstructionResult::Return,
            "Stop" => InstructionResult::Stop,
            "Revert" => InstructionResult::Revert,
            _ => InstructionResult::OutOfGas,
        };
        Some(InterpreterResult::new(r, Bytes::new(), g))
    }
    fn json(&mut self, su: &Setup) -> Value {
        let v: Vec<Value> = self
            .ev
            .drain(..)
            .map(|e| match e {
                Seen::Call(k, c, t, b, v, g, s, n) => {
                    json!(["call", k, su.names.name(&c), su.names.name(&t), su.names.name(&b), su.prog.unval(v), g, s, n])
                }
                Seen::Create(k, c, v, g) => json!(["create", k, su.names.name(&c), su.prog.unval(v), g]),
                Seen::End(r, g, n) if r.is_ok() => json!(["end", "ok", g, n]),
                Seen::End(r, g, n) if r.is_revert() => json!(["end", "revert", g, n]),
                Seen::End(..) => json!(["end", "halt", 0, 0]),
                Seen::Log(l) => {
                    let mut v = vec![json!("log")];
                    v.extend(su.log(&l).as_array().unwrap().iter().cloned());
                    json!(v)
                }
            })
            .collect();
        json!(v)
    }
}
impl Inspector<MegaContext<Db, Ext>> for Trace {
    fn log(&mut self, _: &mut Interpreter, _: &mut MegaContext<Db, Ext>, l: alloy_primitives::Log) {
        self.ev.push(Seen::Log(l));
    }
    fn call(&mut self, ctx: &mut MegaContext<Db, Ext>, i: &mut CallInputs) -> Option<CallOutcome> {
        let k = match i.scheme {
            CallScheme::Call => "CALL",
            CallScheme::CallCode => "CALLCODE",
            CallScheme::DelegateCall => "DELEGATECALL",
            CallScheme::StaticCall => "STATICCALL",

        };
        self.ev.push(Seen::Call(k, i.caller, i.target_address, i.bytecode_address, i.value.get(), i.gas_limit, i.is_static, i.input.len()));
        use revm::context_interface::{ContextTr, JournalTr};
        let d = ctx.journal().depth();
        let r = self.answer(i.target_address, false, d, i.gas_limit)?;
        Some(CallOutcome::new(r, i.return_memory_offset.clone()))
    }
    fn call_end(&mut self, _: &mut MegaContext<Db, Ext>, _: &CallInputs, o: &mut CallOutcome) {
        self.ev.push(Seen::End(o.result.result, o.result.gas.remaining(), o.result.output.len()));
    }
    fn create(&mut self, ctx: &mut MegaContext<Db, Ext>, i: &mut CreateInputs) -> Option<CreateOutcome> {
        let k = match i.scheme {
            revm::context_interface::CreateScheme::Create => "CREATE",
            revm::context_interface::CreateScheme::Create2 { .. } => "CREATE2",
            _ => "?",
        };
        self.ev.push(Seen::Create(k, i.caller, i.value, i.gas_limit));
        use revm::context_interface::{ContextTr, JournalTr};
        let d = ctx.journal().depth();
        let r = self.answer(i.caller, true, d, i.gas_limit)?;
        Some(CreateOutcome::new(r, None))
    }
    fn create_end(&mut self, _: &mut MegaContext<Db, Ext>, _: &CreateInputs, o: &mut CreateOutcome) {
        self.ev.push(Seen::End(o.result.result, o.result.gas.remaining(), o.result.output.len()));
    }
}

fn run_traced(sc: &Scenario) -> Vec<Obs> {
    let mut su = Setup::new(sc.clone());
    let db = su.db.deep_clone();
    let mut out = vec![];
    let mut tr = Trace::default();
    for (n, x) in &sc.icpt {
        let (a, c) = n.strip_suffix('+').map_or((n.as_str(), false), |a| (a, true));
        tr.icpt.insert((su.names.addr(a, &su.prog), c), x.clone());
    }
    let mut evm = su.evm(db.clone()).with_inspector(tr);
    crate::world::arm(0);
    for (i, t) in sc.txs.clone().iter().enumerate() {
        if su.next_block(i) {
            evm.set_block(su.block_env());
        }
        let tx = su.tx(t);
        let r = evm.execute_transaction(tx);
        let mut o = observe(&mut su, t, &mut evm, r, &db);
        o.tr = revm::inspector::InspectorEvmTr::inspector(&mut evm).json(&su);
        out.push(o);
    }
    out
}

fn observe<INSP: Inspector<MegaContext<Db, Ext>>>(
    su: &mut Setup,
    t: &TxJ,
    evm: &mut MegaEvm<Db, INSP, Ext>,
    r: Result<mega_evm::MegaTransactionOutcome, EVMError<DbErr, OpTransactionError>>,
    db: &Db,
) -> Obs {
    let mut o = Obs::default();
    o.acc_n = crate::world::fault().n;
    o.hit = crate::world::fault().hit;
    let hit = o.hit;
    match r {
        Ok(out) => {
            o.kl = crate::keyless::answer(su, &out.result);
            o.res = res_json(&out.result, mega_halt);
            crate::pre::compare(su, t, &out.result, &mut o.res);
            if let Some(a) = o.res.as_object_mut().unwrap().remove("access") {
                o.access = serde_json::from_value(a).unwrap();
            }
            let logs: Vec<Value> = out
                .result
                .logs()
                .iter()
                .map(|l| su.log(l))
                .collect();
            o.logs = json!(logs);
            o.cg = out.compute_gas_used;
            o.ds = out.data_size;
            o.kv = out.kv_updates;
            o.gr = out.state_growth_used;
            db.commit_state(&out.state);
        }
        Err(e) => {
            o.res = err_json(&e);
            o.logs = json!([]);
        }
    }
    let ctx = evm.ctx_ref();
    o.vol = vol_names(ctx.volatile_data_tracker.borrow().get_volatile_data_accessed());
    // the other ways to ask
    let env: Vec<String> = o.vol.iter().filter(|x| !matches!(x.as_str(), "BENEFICIARY" | "ORACLE")).cloned().collect();
    if vol_names(ctx.get_block_env_accesses()) != env || ctx.accessed_bucket_ids() != evm.get_accessed_bucket_ids() {
        o.vol.push("?".into());
    }
    if o.ds != 0 && (ctx.generated_data_size() != o.ds || ctx.kv_update_count() != o.kv) {
        o.ds = 0;
    }
    let (h, r) = su.hints_reads();
    o.hints = h;
    o.reads = r;
    let asked: Vec<_> = su.ext.asked.borrow_mut().drain(..).collect();
    o.asked = su.buckets(&asked);
    o.seen = su.buckets(&evm.get_accessed_bucket_ids());
    o.hashes = evm.get_accessed_block_hashes().keys().map(|n| NUMBER - n).collect();
    o.hashes.sort();
    o.world = su.world(db);
    if hit {
        crate::world::arm(0);
    }
    o
}

/// Nonzero and zero bytes of the calldata of every transaction that asks for a keyless deployment.
pub fn sizes(sc: Scenario) -> Value {
    let mut su = Setup::new(sc.clone());
    let v: Vec<Value> = sc
        .txs
        .iter()
        .map(|t| match &t.kl {
            Some(k) => {
                let d = crate::keyless::calldata(&mut su, k);
                let z = d.iter().filter(|x| **x == 0).count();
                let raw = crate::keyless::raw(&mut su, k);
                json!([d.len() - z, z, op_alloy_flz::flz_compress_len(&raw)])
            }
            None => json!(null),
        })
        .collect();
    json!({"id": sc.id, "sizes": v})
}

/// Executes a transaction, or makes a system call.
fn execute<I: Inspector<MegaContext<Db, Ext>>>(
    su: &Setup,
    t: &TxJ,
    evm: &mut MegaEvm<Db, I, Ext>,
    tx: MegaTransaction,
) -> Result<mega_evm::MegaTransactionOutcome, EVMError<DbErr, OpTransactionError>> {
    if t.typ == "sc" {
        let (caller, to, data) = parts(&tx);
        let r = alloy_evm::Evm::transact_system_call(evm, caller, to, data);
        r.map(|x| su.outcome(evm, x))
    } else {
        evm.execute_transaction(tx)
    }
}

fn parts(tx: &MegaTransaction) -> (Address, Address, Bytes) {
    (tx.base.caller, tx.base.kind.to().copied().expect("HARNESS system call"), tx.base.data.clone())
}

/// One transaction, with its raw result.
pub fn observe_one(su: &mut Setup, t: &TxJ, db: &Db) -> (Obs, Result<ExecutionResult<MegaHaltReason>, ()>) {
    let mut evm = su.evm(db.clone());
    let tx = su.tx(t);
    crate::world::arm(0);
    let r = evm.execute_transaction(tx);
    let raw = r.as_ref().map(|o| o.result.clone()).map_err(|_| ());
    (observe(su, t, &mut evm, r, db), raw)
}

fn run_mega(sc: &Scenario, inspect: bool, fresh: bool) -> Vec<Obs> {
    let mut su = Setup::new(sc.clone());
    let db = su.db.deep_clone();
    let txs = sc.txs.clone();
    let mut out = vec![];
    if inspect {
        let mut evm = su.evm(db.clone()).with_inspector(Watch::default());
        for (i, t) in txs.iter().enumerate() {
            if su.next_block(i) {
                evm.set_block(su.block_env());
            }
            let tx = su.tx(t);
            crate::world::arm(t.fault);
            let r = execute(&su, t, &mut evm, tx);
            out.push(observe(&mut su, t, &mut evm, r, &db));
        }
    } else if fresh {
        for (i, t) in txs.iter().enumerate() {
            su.next_block(i);
            let mut evm = su.evm(db.clone());
            let tx = su.tx(t);
            crate::world::arm(t.fault);
            let r = execute(&su, t, &mut evm, tx);
            out.push(observe(&mut su, t, &mut evm, r, &db));
        }
    } else {
        let mut evm = su.evm(db.clone());
        for (i, t) in txs.iter().enumerate() {
            if su.next_block(i) {
                evm.set_block(su.block_env());
            }
            let tx = su.tx(t);
            crate::world::arm(t.fault);
            let r = execute(&su, t, &mut evm, tx);
            out.push(observe(&mut su, t, &mut evm, r, &db));
        }
    }
    out
}

/// Every transaction through another of the public ways to execute one; between transactions, the EVM is taken apart and put together.
fn run_api(sc: &Scenario) -> Vec<Obs> {
    use revm::{context_interface::ContextSetters, ExecuteCommitEvm, InspectCommitEvm, InspectEvm, SystemCallEvm};
    let mut su = Setup::new(sc.clone());
    let db = su.db.deep_clone();
    crate::world::arm(0);
    let mut r = keccak256(sc.id.as_bytes()).0;
    let evm = match r[3] % 6 {
        x @ 0..4 if !sc.dynp => MegaEvm::new(su.context_by(db.clone(), x)),
        _ => su.evm(db.clone()),
    };
    let mut evm = evm.with_inspector(Watch::default());
    let mut out = vec![];
    // a limit lowered by one transaction stays for the next before REX1
    let sticky = matches!(spec_of(sc.sp), MegaSpecId::MINI_REX | MegaSpecId::REX);
    for (i, t) in sc.txs.clone().iter().enumerate() {
        let how = r[0] % 14;
        let mid = r[1] % 6;
        r = keccak256(r).0;
        evm = match mid {
            0 => evm.without_inspector().with_inspector(Watch::default()),
            1 if !sticky => {
                let l = su.limits();
                evm.with_tx_runtime_limits(l)
            }
            2 => {
                evm.set_inspector(Watch::default());
                evm
            }
            _ => evm,
        };
        if su.next_block(i) {
            // (a system call does not load the precompiles' addresses: they are warm only if a transaction has been run before)
            if mid % 2 == 0 && !sticky && sc.txs.iter().all(|t| t.typ != "sc") {
                let (db2, env) = evm.finish();
                evm = su.reborn(db2, env);
            } else {
                evm.set_block(su.block_env());
            }
        }
        let tx = su.tx(t);
        let on = r[2] % 2 == 0;
        evm.set_inspector_enabled(on);
        let steps = evm.components().1.calls;
        let nothing = |r| ResultAndState::new(r, Default::default());
        let sc = t.typ == "sc";
        let r: Result<ResultAndState<MegaHaltReason>, _> = match how {
            0..3 if sc && t.from == "SYSA" => {
                let (_, b, d) = parts(&tx);
                if how == 0 {
                    evm.transact_system_call_finalize(b, d)
                } else {
                    let r = SystemCallEvm::transact_system_call(&mut evm, b, d);
                    let s = evm.finalize();
                    r.map(|r| ResultAndState::new(r, s))
                }
            }
            0..5 if sc => {
                let (a, b, d) = parts(&tx);
                let r = evm.transact_system_call_with_caller(a, b, d);
                let s = evm.finalize();
                r.map(|r| ResultAndState::new(r, s))
            }
            5..10 if sc => {
                let (a, b, d) = parts(&tx);
                evm.transact_system_call_with_caller_finalize(a, b, d)
            }
            _ if sc => {
                let (a, b, d) = parts(&tx);
                alloy_evm::Evm::transact_system_call(&mut evm, a, b, d)
            }
            0 => evm.execute_transaction(tx).map(|o| ResultAndState::new(o.result, o.state)),
            1 => evm.transact_raw(tx),
            2 => ExecuteEvm::transact(&mut evm, tx),
            3 => {
                let r = evm.transact_one(tx);
                let s = evm.finalize();
                r.map(|r| ResultAndState::new(r, s))
            }
            4 => {
                evm.ctx().set_tx(tx);
                evm.replay()
            }
            5 => ExecuteCommitEvm::transact_commit(&mut evm, tx).map(nothing),
            6 => evm.inspect_tx(tx),
            7 => {
                let r = evm.inspect_one_tx(tx);
                let s = evm.finalize();
                r.map(|r| ResultAndState::new(r, s))
            }
            8 => evm.inspect_tx_commit(tx).map(nothing),
            11 => evm.inspect(tx, Watch { calls: steps, ..Default::default() }),
            12 => evm.inspect_commit(tx, Watch { calls: steps, ..Default::default() }).map(nothing),
            13 => {
                evm.ctx().set_tx(tx);
                evm.replay_commit().map(nothing)
            }
            9 => alloy_evm::Evm::transact_commit(&mut evm, tx).map(nothing),
            #[allow(deprecated)]
            _ => evm.inspect_transaction(tx).map(|o| ResultAndState::new(o.result, o.state)),
        };
        let told = evm.components().1.calls > steps;
        let due = !sc && matches!(how, 6 | 7 | 8 | 10 | 11 | 12) || (!sc && on && matches!(how, 0 | 1 | 9));
        let r = r.map(|x| su.outcome(&evm, x));
        let mut o = observe(&mut su, t, &mut evm, r, &db);
        if told && !due {
            o.res["why"] = json!("inspector told");
        }
        out.push(o);
    }
    out
}

/// All results so far are merged and committed at once; the world must be that of committing each.
fn run_merged(sc: &Scenario, how: &str) -> Vec<Obs> {
    use revm::state::EvmState;
    let mut su = Setup::new(sc.clone());
    let base = su.db.deep_clone();
    let db = su.db.deep_clone();
    crate::world::arm(0);
    let ctx = su.context(db.clone());
    let mut evm = MegaEvm::new(ctx);
    let mut states: Vec<EvmState> = vec![];
    let mut out = vec![];
    for (i, t) in sc.txs.clone().iter().enumerate() {
        if su.next_block(i) {
            evm.set_block(su.block_env());
        }
        let tx = su.tx(t);
        let mut o = Obs { logs: json!([]), ..Default::default() };
        match evm.execute_transaction(tx) {
            Ok(r) => {
                o.res = res_json(&r.result, mega_halt);
                db.commit_state(&r.state);
                states.push(r.state);
            }
            Err(e) => o.res = err_json(&e),
        }
        let mut m = EvmState::default();
        match how {
            _ if states.is_empty() => (),
            "merge0" => states.iter().for_each(|s| mega_evm::merge_evm_state(&mut m, s)),
            "merge1" => {
                m = states[0].clone();
                states[1..].iter().for_each(|s| mega_evm::merge_evm_state(&mut m, s));
            }
            _ => {
                m = states[states.len() - 1].clone();
                for s in states[..states.len() - 1].iter().rev() {
                    let mut x = s.clone();
                    mega_evm::merge_evm_state(&mut x, &m);
                    m = x;
                }
            }
        }
        let end = base.deep_clone();
        end.commit_state(&m);
        o.world = su.world(&end);
        // every account any of them loaded is there
        if states.iter().any(|s| s.keys().any(|a| !m.contains_key(a))) || m.keys().any(|a| states.iter().all(|s| !s.contains_key(a))) {
            o.world["acc"].as_array_mut().unwrap().push(json!(["?accounts", 0, 0, "none", 0, "-"]));
        }
        out.push(o);
    }
    out
}

/// The unmodified Optimism Isthmus EVM on the same transactions.
fn run_op(sc: &Scenario) -> Vec<Obs> {
    use op_revm::{DefaultOp, OpBuilder, OpContext, OpSpecId};
    use revm::Context;
    let mut su = Setup::new(sc.clone());
    let db = su.db.deep_clone();
    crate::world::arm(0);
    let mut out = vec![];
    for (i, t) in sc.txs.clone().iter().enumerate() {
        su.next_block(i);
        let tx = su.tx(t);
        let block = su.block_env();
        let cfg = su.cfg(OpSpecId::ISTHMUS);
        let ctx: OpContext<Db> = Context::op().with_db(db.clone());
        let ctx = ctx.with_cfg(cfg).with_block(block).with_chain(l1_fees(&sc.fee, sc.num0));
        let mut evm = ctx.build_op();
        let r = if t.typ == "sc" {
            let (a, b, d) = parts(&tx);
            revm::SystemCallEvm::transact_system_call_with_caller_finalize(&mut evm, a, b, d)
        } else {
            evm.transact(tx)
        };
        let mut o = Obs::default();
        match r {
            Ok(ResultAndState { result, state }) => {
                o.res = res_json(&result, |h| {
                    json!({"kind": "Halt", "why": short(&short_base(&format!("{h:?}"))), "limit": 0, "actual": 0})
                });
                crate::pre::compare(&mut su, t, &result, &mut o.res);
                let logs: Vec<Value> = result
                    .logs()
                    .iter()
                    .map(|l| su.log(l))
                    .collect();
                o.logs = json!(logs);
                db.commit_state(&state);
            }
            Err(e) => {
                o.res = err_json(&e);
                o.logs = json!([]);
            }
        }
        o.world = su.world(&db);
        out.push(o);
    }
    out
}

pub fn run(sc: Scenario) -> Value {
    let mut res = json!({"id": sc.id});
    let modes = if sc.modes.is_empty() { vec!["plain".to_string()] } else { sc.modes.clone() };
    for mode in modes {
        let sc2 = sc.clone();
        let m = mode.clone();
        let r = crate::guarded(move || match m.as_str() {
            "plain" => run_mega(&sc2, false, false),
            "inspect" => run_mega(&sc2, true, false),
            "fresh" => run_mega(&sc2, false, true),
            "op" => run_op(&sc2),
            "trace" => run_traced(&sc2),
            "api" => run_api(&sc2),
            "merge0" | "merge1" | "merger" => run_merged(&sc2, &m),
            x => panic!("mode {x}"),
        });
        res[mode.as_str()] = match r {
            Ok(v) => serde_json::to_value(v).unwrap(),
            Err(p) if p.starts_with("HARNESS") => panic!("{p}"),
            Err(p) => json!({"panic": p}),
        };
    }
    res
}
