//! In-memory state, external environments and what they record.
use alloy_primitives::{keccak256, Address, Bytes, B256, U256};
use mega_evm::{BucketId, ExternalEnvFactory, ExternalEnvTypes, ExternalEnvs, OracleEnv, SaltEnv};
use revm::{
    database_interface::DBErrorMarker,
    state::{Account, AccountInfo, Bytecode, EvmState},
    Database, DatabaseCommit,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
};

#[derive(Debug, Clone)]
pub struct DbErr(pub String);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DbErr {}
impl DBErrorMarker for DbErr {}

#[derive(Debug, Clone, Default)]
pub struct Store {
    pub acc: BTreeMap<Address, AccountInfo>,
    pub st: BTreeMap<Address, BTreeMap<U256, U256>>,
    pub hashes: BTreeSet<u64>,
    /// storage reads, for oracle fall-back checks
    pub reads: Vec<(Address, U256)>,
}

/// Shared handle: the EVM owns one clone, the harness another.
#[derive(Debug, Clone, Default)]
pub struct Db(pub Rc<RefCell<Store>>);

impl Db {
    pub fn deep_clone(&self) -> Self {
        Db(Rc::new(RefCell::new(self.0.borrow().clone())))
    }
    /// `hash` may stand in for the real code hash (hashing is slow in debug builds).
    pub fn put(&self, a: Address, balance: U256, nonce: u64, code: Option<Bytes>, hash: Option<B256>) {
        let mut info = AccountInfo { balance, nonce, ..Default::default() };
        if let Some(c) = code {
            let b = Bytecode::new_raw(c);
            info.code_hash = hash.unwrap_or_else(|| b.hash_slow());
            info.code = Some(b);
        }
        self.0.borrow_mut().acc.insert(a, info);
    }
    pub fn slot(&self, a: Address, k: U256, v: U256) {
        self.0.borrow_mut().st.entry(a).or_default().insert(k, v);
    }
    pub fn commit_state(&self, changes: &EvmState) {
        let mut s = self.0.borrow_mut();
        for (a, x) in changes {
            commit_one(&mut s, *a, x);
        }
    }
}

fn commit_one(s: &mut Store, a: Address, x: &Account) {
    if !x.is_touched() {
        return;
    }
    if x.is_selfdestructed() {
        s.acc.remove(&a);
        s.st.remove(&a);
        return;
    }
    if x.is_created() {
        s.st.remove(&a);
    }
    let st = s.st.entry(a).or_default();
    for (k, v) in &x.storage {
        if v.present_value.is_zero() {
            st.remove(k);
        } else {
            st.insert(*k, v.present_value);
        }
    }
    if x.info.is_empty() {
        s.acc.remove(&a);
    } else {
        let mut info = x.info.clone();
        if info.code.is_none() {
            if let Some(old) = s.acc.get(&a) {
                if old.code_hash == info.code_hash {
                    info.code = old.code.clone();
                }
            }
        }
        s.acc.insert(a, info);
    }
}

impl Database for Db {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DbErr> {
        Ok(self.0.borrow().acc.get(&a).cloned())
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DbErr> {
        let s = self.0.borrow();
        Ok(s.acc
            .values()
            .find(|x| x.code_hash == h)
            .and_then(|x| x.code.clone())
            .unwrap_or_default())
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DbErr> {
        let mut s = self.0.borrow_mut();
        s.reads.push((a, k));
        Ok(s.st.get(&a).and_then(|m| m.get(&k)).copied().unwrap_or_default())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        self.0.borrow_mut().hashes.insert(n);
        Ok(keccak256(n.to_be_bytes()))
    }
}
impl DatabaseCommit for Db {
    fn commit(&mut self, changes: revm::primitives::HashMap<Address, Account>) {
        let mut s = self.0.borrow_mut();
        for (a, x) in &changes {
            commit_one(&mut s, *a, x);
        }
    }
}
impl mega_evm::BlockHashes for Db {
    fn get_accessed_block_hashes(&self) -> BTreeMap<u64, B256> {
        self.0.borrow().hashes.iter().map(|n| (*n, keccak256(n.to_be_bytes()))).collect()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum BucketKey {
    Account(Address),
    Slot(Address, U256),
}
thread_local! {
    /// every (account | slot) -> bucket computation the EVM asked for
    static BUCKETS: RefCell<HashMap<BucketId, BucketKey>> = RefCell::new(HashMap::new());
}
pub fn bucket_key(id: BucketId) -> Option<BucketKey> {
    BUCKETS.with(|b| b.borrow().get(&id).cloned())
}

#[derive(Debug, Clone, Default)]
pub struct Ext {
    pub caps: Rc<RefCell<HashMap<BucketId, u64>>>,
    pub orc: Rc<RefCell<BTreeMap<U256, U256>>>,
    pub log: Rc<RefCell<Vec<ExtEvent>>>,
    /// buckets whose size the EVM asked for
    pub asked: Rc<RefCell<Vec<BucketId>>>,
}
#[derive(Debug, Clone)]
pub enum ExtEvent {
    Hint(Address, B256, Bytes),
    Read(U256, bool),
}

impl SaltEnv for Ext {
    type Error = DbErr;
    fn get_bucket_capacity(&self, id: BucketId) -> Result<u64, DbErr> {
        self.asked.borrow_mut().push(id);
        Ok(self.caps.borrow().get(&id).copied().unwrap_or(256))
    }
    fn bucket_id_for_account(a: Address) -> BucketId {
        let h = keccak256(a.as_slice());
        let id = u32::from_be_bytes(h[..4].try_into().unwrap());
        BUCKETS.with(|b| b.borrow_mut().insert(id, BucketKey::Account(a)));
        id
    }
    fn bucket_id_for_slot(a: Address, k: U256) -> BucketId {
        let mut v = a.to_vec();
        v.extend_from_slice(&k.to_be_bytes::<32>());
        let h = keccak256(&v);
        let id = u32::from_be_bytes(h[..4].try_into().unwrap());
        BUCKETS.with(|b| b.borrow_mut().insert(id, BucketKey::Slot(a, k)));
        id
    }
}
impl OracleEnv for Ext {
    fn get_oracle_storage(&self, slot: U256) -> Option<U256> {
        let v = self.orc.borrow().get(&slot).copied();
        self.log.borrow_mut().push(ExtEvent::Read(slot, v.is_some()));
        v
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        self.log.borrow_mut().push(ExtEvent::Hint(from, topic, data));
    }
}
impl ExternalEnvTypes for Ext {
    type SaltEnv = Self;
    type OracleEnv = Self;
}
impl Ext {
    pub fn envs(&self) -> ExternalEnvs<Self> {
        ExternalEnvs { salt_env: self.clone(), oracle_env: self.clone() }
    }
}
impl ExternalEnvFactory for Ext {
    type EnvTypes = Self;
    fn external_envs(&self, _block: u64) -> ExternalEnvs<Self> {
        self.envs()
    }
}
