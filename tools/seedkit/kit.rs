//! Running transactions on a small in-memory world.
#![allow(dead_code, unused_imports)]
pub use crate::world::*;
pub use alloy_primitives::{address, keccak256, Address, Bytes, TxKind, B256, U256};
pub use mega_evm::*;
pub use op_revm::{L1BlockInfo, OpTransaction, OpTransactionError};
pub use revm::{
    context::{result::{EVMError, ExecutionResult}, BlockEnv, CfgEnv, TxEnv},
    context_interface::transaction::{AccessList, AccessListItem},
    handler::EvmTr,
};

pub const NUMBER: u64 = 1000;
pub fn addr(n: u8) -> Address { Address::repeat_byte(n) }
pub const SENDER: Address = address!("5555555555555555555555555555555555555555");
pub const COIN: Address = address!("c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0");

pub struct World { pub db: Db, pub ext: Ext, pub spec: MegaSpecId, pub limits: Option<EvmTxRuntimeLimits>, pub coin: Address }
impl World {
    pub fn new(spec: MegaSpecId) -> Self {
        let w = World { db: Db::default(), ext: Ext::default(), spec, limits: None, coin: COIN };
        w.put(SENDER, 1_000_000_000_000, 5, &[]);
        w
    }
    pub fn put(&self, a: Address, bal: u64, nonce: u64, code: &[u8]) {
        let c = if code.is_empty() { None } else { Some(Bytes::copy_from_slice(code)) };
        self.db.put(a, U256::from(bal), nonce, c, None);
    }
    pub fn slot(&self, a: Address, k: u64, v: u64) { self.db.slot(a, U256::from(k), U256::from(v)); }
    pub fn get_slot(&self, a: Address, k: u64) -> u64 {
        let s = self.db.0.borrow();
        s.st.get(&a).and_then(|m| m.get(&U256::from(k))).map(|v| v.to::<u64>()).unwrap_or(0)
    }
    pub fn nonce(&self, a: Address) -> u64 { self.db.0.borrow().acc.get(&a).map(|x| x.nonce).unwrap_or(0) }
    pub fn balance(&self, a: Address) -> u64 { self.db.0.borrow().acc.get(&a).map(|x| x.balance.to::<u64>()).unwrap_or(0) }
    pub fn code_len(&self, a: Address) -> usize {
        self.db.0.borrow().acc.get(&a).and_then(|x| x.code.as_ref().map(|c| c.original_bytes().len())).unwrap_or(0)
    }
    pub fn lim(&mut self, f: impl FnOnce(&mut EvmTxRuntimeLimits)) {
        let mut l = self.limits.unwrap_or_else(|| EvmTxRuntimeLimits::from_spec(self.spec));
        f(&mut l);
        self.limits = Some(l);
    }
    pub fn cap_account(&self, a: Address, cap: u64) { let id = <Ext as SaltEnv>::bucket_id_for_account(a); self.ext.caps.borrow_mut().insert(id, cap); }
    pub fn cap_slot(&self, a: Address, k: u64, cap: u64) { let id = <Ext as SaltEnv>::bucket_id_for_slot(a, U256::from(k)); self.ext.caps.borrow_mut().insert(id, cap); }
    pub fn ctx(&self) -> MegaContext<Db, Ext> {
        let mut chain = L1BlockInfo::default();
        chain.l2_block = U256::from(NUMBER);
        chain.operator_fee_scalar = Some(U256::ZERO);
        chain.operator_fee_constant = Some(U256::ZERO);
        let mut cfg = CfgEnv::new_with_spec(self.spec);
        cfg.chain_id = 6342;
        let block = BlockEnv { number: U256::from(NUMBER), beneficiary: self.coin, timestamp: U256::from(1_700_000_000u64),
            gas_limit: 10_000_000_000, basefee: 0, prevrandao: Some(B256::repeat_byte(7)), ..Default::default() };
        let c = MegaContext::new(self.db.clone(), self.spec).with_external_envs(self.ext.envs()).with_cfg(cfg).with_block(block).with_chain(chain);
        match self.limits { Some(l) => c.with_tx_runtime_limits(l), None => c }
    }
    pub fn evm(&self) -> MegaEvm<Db, revm::inspector::NoOpInspector, Ext> { MegaEvm::new(self.ctx()) }
    /// executes on `evm`, commits, returns the outcome
    pub fn exec<I: revm::Inspector<MegaContext<Db, Ext>>>(&self, evm: &mut MegaEvm<Db, I, Ext>, tx: MegaTransaction) -> Result<MegaTransactionOutcome, EVMError<DbErr, OpTransactionError>> {
        let r = evm.execute_transaction(tx);
        if let Ok(o) = &r { self.db.commit_state(&o.state); }
        r
    }
    pub fn run(&self, tx: MegaTransaction) -> MegaTransactionOutcome {
        let mut evm = self.evm();
        self.exec(&mut evm, tx).unwrap_or_else(|e| { eprintln!("rejected: {e:?}"); std::process::exit(1) })
    }
}
pub fn tx(to: Address, gas: u64) -> MegaTransaction { full(SENDER, TxKind::Call(to), gas, 0, Bytes::new(), 5) }
pub fn full(from: Address, kind: TxKind, gas: u64, value: u64, data: Bytes, nonce: u64) -> MegaTransaction {
    let base = TxEnv { caller: from, gas_limit: gas, gas_price: 0, kind, value: U256::from(value), data, nonce, chain_id: Some(6342), ..Default::default() };
    let mut t = OpTransaction::new(base);
    t.enveloped_tx = Some(Bytes::from_static(&[0]));
    t
}
/// a tiny assembler
#[derive(Default, Clone)]
pub struct A(pub Vec<u8>);
impl A {
    pub fn n(mut self, v: u64) -> Self { let b = v.to_be_bytes(); let k = (v.leading_zeros() / 8).min(7) as usize; self.0.push(0x5f + (8 - k) as u8); self.0.extend_from_slice(&b[k..]); self }
    pub fn a(mut self, x: Address) -> Self { self.0.push(0x73); self.0.extend_from_slice(x.as_slice()); self }
    pub fn op(mut self, b: u8) -> Self { self.0.push(b); self }
    pub fn sstore(self, k: u64, v: u64) -> Self { self.n(v).n(k).op(0x55) }
    pub fn sload(self, k: u64) -> Self { self.n(k).op(0x54).op(0x50) }
    pub fn burn(mut self, n: usize) -> Self { self.0.extend(std::iter::repeat_n(0x5b, n)); self }
    pub fn log(mut self, topics: u64, len: u64) -> Self { for i in 0..topics { self = self.n(i + 1); } self.n(len).n(0).op(0xa0 + topics as u8) }
    /// CALL with all gas, value v; the success flag is dropped
    pub fn call(self, to: Address, v: u64) -> Self { self.n(0).n(0).n(0).n(0).n(v).a(to).op(0x5a).op(0xf1).op(0x50) }
    pub fn callg(self, to: Address, v: u64, g: u64) -> Self { self.n(0).n(0).n(0).n(0).n(v).a(to).n(g).op(0xf1).op(0x50) }
    pub fn callcode(self, to: Address, v: u64) -> Self { self.n(0).n(0).n(0).n(0).n(v).a(to).op(0x5a).op(0xf2).op(0x50) }
    pub fn delegatecall(self, to: Address) -> Self { self.n(0).n(0).n(0).n(0).a(to).op(0x5a).op(0xf4).op(0x50) }
    pub fn staticcall(self, to: Address) -> Self { self.n(0).n(0).n(0).n(0).a(to).op(0x5a).op(0xfa).op(0x50) }
    pub fn revert(self) -> Self { self.n(0).n(0).op(0xfd) }
    pub fn ret(self, len: u64) -> Self { self.n(len).n(0).op(0xf3) }
    /// CREATE (or CREATE2) of an init code of at most 32 bytes
    pub fn create(self, init: &[u8], v: u64, salt: Option<u64>) -> Self {
        assert!(init.len() <= 32);
        let mut w = [0u8; 32];
        w[..init.len()].copy_from_slice(init);
        let mut s = self;
        s.0.push(0x7f);
        s.0.extend_from_slice(&w);
        s = s.n(0).op(0x52);
        if let Some(x) = salt { s = s.n(x); }
        s.n(init.len() as u64).n(0).n(v).op(if salt.is_some() { 0xf5 } else { 0xf0 }).op(0x50)
    }
    pub fn done(self) -> Vec<u8> { self.0 }
}
pub fn check(ok: bool, what: &str) {
    if !ok { println!("WRONG: {what}"); std::process::exit(1); }
    println!("ok: {what}");
}
