//! Scenarios as Ethereum state tests, and the state test runner under test.
use crate::{
    replay::{observe_one, Scenario, Setup},
    world::Db,
};
use alloy_primitives::{hex, keccak256, Bytes, B256, U256};
use alloy_trie::{root, TrieAccount};
use revm::context_interface::transaction::Authorization;
use serde::Deserialize;
use serde_json::{json, Map, Value};
use std::{
    path::Path,
    sync::{Arc, Mutex},
    time::Duration,
};

#[derive(Deserialize)]
pub struct Fixture {
    pub id: String,
    pub sc: Scenario,
    pub chain: u64,
}

fn num(x: U256) -> Value {
    json!(format!("{x:#x}"))
}
fn bytes(b: &[u8]) -> Value {
    json!(format!("0x{}", hex::encode(b)))
}

fn alloc(db: &Db) -> Map<String, Value> {
    let s = db.0.borrow();
    let mut m = Map::new();
    for (a, x) in &s.acc {
        let st: Map<String, Value> =
            s.st.get(a).into_iter().flatten().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (format!("{k:#x}"), num(*v))).collect();
        let code = x.code.as_ref().map(|c| c.original_bytes()).unwrap_or_default();
        m.insert(format!("{a:?}"), json!({"balance": num(x.balance), "nonce": format!("{:#x}", x.nonce), "code": bytes(&code), "storage": st}));
    }
    m
}

/// An account no transaction has to do with, full of extreme values.
fn bystander(db: &Db) {
    use revm::state::{AccountInfo, Bytecode};
    let code = Bytecode::new_legacy(Bytes::from_static(&[0xef, 0x01, 0x00, 0x11, 0x22]));
    let a = alloy_primitives::address!("00000000000000000000000000000000005bb5bb");
    let info = AccountInfo { balance: U256::MAX >> 7, nonce: (1 << 40) + 5, code_hash: code.hash_slow(), code: Some(code) };
    db.0.borrow_mut().acc.insert(a, info);
    db.slot(a, U256::MAX - U256::from(3), U256::MAX - U256::from(1));
    db.slot(a, U256::ZERO, U256::from(1) << 200);
}

/// Root of the state, without the account that collects base fees.
fn state_root(su: &mut Setup, db: &Db) -> B256 {
    let vault = su.names.addr("BASEV", &su.prog);
    let s = db.0.borrow();
    let empty = keccak256([]);
    let mut known: Vec<(Bytes, B256)> = vec![];
    root::state_root_unhashed(s.acc.iter().filter(|(a, x)| **a != vault && !x.is_empty()).map(|(a, x)| {
        let code = x.code.as_ref().map(|c| c.original_bytes()).unwrap_or_default();
        let code_hash = match known.iter().find(|k| k.0 == code) {
            _ if code.is_empty() => empty,
            Some(k) => k.1,
            None => {
                let h = keccak256(&code);
                known.push((code, h));
                h
            }
        };
        let st = s.st.get(a).into_iter().flatten().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (B256::from(*k), *v));
        (*a, TrieAccount { nonce: x.nonce, balance: x.balance, storage_root: root::storage_root_unhashed(st), code_hash })
    }))
}

pub fn make(f: Fixture) -> Value {
    let mut su = Setup::new(f.sc.clone());
    let pre = {
        let db = su.db.deep_clone();
        bystander(&db);
        alloc(&db)
    };
    let t = f.sc.txs[0].clone();
    let db = su.db.deep_clone();
    let tx = su.tx(&t);
    let (obs, out) = match crate::guarded(|| observe_one(&mut su, &t, &db)) {
        Ok(x) => x,
        Err(p) => return json!({"id": f.id, "panic": p}),
    };
    let mut rlp = vec![];
    alloy_rlp::encode_list(out.as_ref().map(|r| r.logs()).unwrap_or_default(), &mut rlp);
    let b = tx.base.clone();
    let auth: Vec<Value> = t
        .auth
        .iter()
        .map(|a| {
            let address = if a.to.is_empty() { Default::default() } else { su.names.addr(&a.to, &su.prog) };
            let chain_id = U256::from(match a.chain.as_str() {
                "zero" => 0,
                "bad" => f.chain + 1,
                _ => f.chain,
            });
            let x = Authorization { chain_id, address, nonce: a.n };
            let n: u8 = if a.a.is_empty() { 1 } else { a.a[1..].parse().expect("HARNESS signer") };
            let (s, v) = crate::keyless::key(n).sign_prehash_recoverable(x.signature_hash().as_slice()).unwrap();
            let r = if a.a.is_empty() { U256::MAX } else { U256::from_be_slice(&s.r().to_bytes()) };
            json!({"chainId": num(chain_id), "address": format!("{address:?}"), "nonce": format!("{:#x}", a.n),
                   "yParity": if v.is_y_odd() { "0x1" } else { "0x0" }, "r": num(r), "s": num(U256::from_be_slice(&s.s().to_bytes()))})
        })
        .collect();
    let env = su.block_env();
    bystander(&db);
    let root = state_root(&mut su, &db);
    json!({
        "id": f.id, "obs": obs, "pre": pre,
        "env": {"coinbase": format!("{:?}", env.beneficiary), "number": num(env.number), "time": num(env.timestamp), "gas": format!("{:#x}", env.gas_limit),
                "base": format!("{:#x}", env.basefee), "random": format!("{:?}", env.prevrandao.unwrap())},
        "from": format!("{:?}", b.caller),
        "key": t.from.strip_prefix('G').and_then(|n| n.parse().ok()).map(|n: u8| bytes(&crate::keyless::key(n).to_bytes())),
        "to": b.kind.to().map(|a| format!("{a:?}")).unwrap_or_default(),
        "data": bytes(&b.data), "gas": format!("{:#x}", b.gas_limit), "price": format!("{:#x}", b.gas_price), "value": num(b.value), "nonce": format!("{:#x}", b.nonce),
        "tip": b.gas_priority_fee.map(|x| format!("{x:#x}")),
        "al": b.access_list.0.iter().map(|i| json!({"address": format!("{:?}", i.address), "storageKeys": i.storage_keys})).collect::<Vec<_>>(),
        "auth": auth,
        "root": root, "logs": keccak256(&rlp), "out": out.as_ref().ok().and_then(|r| r.output()).map(|b| bytes(b)),
    })
}

#[derive(Deserialize)]
pub struct File {
    pub id: String,
    pub path: String,
    pub trace: bool,
}

/// The runner's verdict on one file.
pub fn judge(f: File) -> Value {
    let r = crate::guarded(|| state_test::runner::execute_test_suite(Path::new(&f.path), &Arc::new(Mutex::new(Duration::ZERO)), f.trace, false));
    match r {
        Err(p) => json!({"id": f.id, "kind": "panic", "name": p}),
        Ok(Ok(())) => json!({"id": f.id, "kind": "pass", "name": ""}),
        Ok(Err(e)) => {
            use state_test::runner::TestErrorKind::*;
            let k = match e.kind {
                LogsRootMismatch { .. } => "logs",
                StateRootMismatch { .. } => "state",
                UnknownPrivateKey(_) => "key",
                UnexpectedException { .. } => "exception",
                UnexpectedOutput { .. } => "output",
                SerdeDeserialize(_) => "parse",
                Panic => "thread",
                InvalidPath => "path",
                NoJsonFiles => "none",
            };
            json!({"id": f.id, "kind": k, "name": e.name})
        }
    }
}
