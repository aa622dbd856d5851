//! Merges execution results as spec/Merge.tla describes them, with the real code.
use crate::{guarded, world::Db};
use alloy_primitives::{Address, Bytes, U256};
use mega_evm::{merge_evm_state, merge_evm_state_optional_status};
use revm::state::{Account, AccountInfo, AccountStatus, Bytecode, EvmState, EvmStorageSlot};
use serde::Deserialize;
use serde_json::{json, Value};

/// balance, nonce, code, slots [key, old, new, cold], marks
type Row = (u64, u64, u64, Vec<(u64, u64, u64, u64)>, Vec<String>);

#[derive(Deserialize)]
pub struct MergeJ {
    id: String,
    w0: Vec<u64>,
    es: Vec<Value>,
    cn: bool,
    /// other accounts in the same states: 0 none, 1 an account before, 2 after
    pad: u64,
    /// executions know the code of an account only by its hash, unless they create it
    #[serde(default)]
    lazy: bool,
}

const A: Address = Address::repeat_byte(0xa1);
const MARKS: [(&str, AccountStatus); 6] = [
    ("T", AccountStatus::Touched),
    ("C", AccountStatus::Created),
    ("LC", AccountStatus::CreatedLocal),
    ("S", AccountStatus::SelfDestructed),
    ("LS", AccountStatus::SelfDestructedLocal),
    ("K", AccountStatus::Cold),
];
fn code() -> Bytecode {
    Bytecode::new_raw(Bytes::from_static(&[0x60, 0x01, 0x00]))
}
fn info(b: u64, n: u64, c: u64) -> AccountInfo {
    let mut i = AccountInfo { balance: U256::from(b), nonce: n, ..Default::default() };
    if c != 0 {
        i.code_hash = code().hash_slow();
        i.code = Some(code());
    }
    i
}
fn account(r: &Row) -> Account {
    let mut a = Account { info: info(r.0, r.1, r.2), ..Default::default() };
    for (k, o, p, cold) in &r.3 {
        let mut s = EvmStorageSlot::new_changed(U256::from(*o), U256::from(*p), 0);
        if *cold != 0 {
            s.mark_cold();
        }
        a.storage.insert(U256::from(*k), s);
    }
    for (n, m) in MARKS {
        if r.4.iter().any(|x| x == n) {
            a.status |= m;
        }
    }
    a
}
fn row(s: &EvmState, a: Address) -> Value {
    match s.get(&a) {
        None => json!([]),
        Some(x) => {
            let mut st: Vec<_> = x
                .storage
                .iter()
                .map(|(k, v)| (k.to::<u64>(), v.original_value.to::<u64>(), v.present_value.to::<u64>(), v.is_cold as u64))
                .collect();
            st.sort();
            let mut f: Vec<_> = MARKS.iter().filter(|(_, m)| x.status.contains(*m)).map(|(n, _)| *n).collect();
            f.sort();
            let c = u64::from(!x.info.is_empty_code_hash());
            json!([x.info.balance.to::<u64>(), x.info.nonce, c, st, f])
        }
    }
}
fn world(db: &Db, a: Address) -> Value {
    let s = db.0.borrow();
    let i = s.acc.get(&a).cloned().unwrap_or_default();
    let g = |k: u64| s.st.get(&a).and_then(|m| m.get(&U256::from(k))).copied().unwrap_or_default().to::<u64>();
    json!([i.balance.to::<u64>(), i.nonce, u64::from(i.code.is_some_and(|c| !c.is_empty())), g(1), g(2)])
}

pub fn run(m: MergeJ) -> Value {
    let rows: Vec<Option<Row>> = m
        .es
        .iter()
        .map(|v| if v.as_array().unwrap().is_empty() { None } else { Some(serde_json::from_value(v.clone()).unwrap()) })
        .collect();
    let other = Address::repeat_byte(0xb2);
    let states: Vec<EvmState> = rows
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let mut s = EvmState::default();
            if m.pad == 1 && i == 0 || m.pad == 2 && i > 0 {
                let mut o = Account { info: info(9, 1, 0), ..Default::default() };
                o.mark_touch();
                s.insert(other, o);
            }
            if let Some(r) = r {
                let mut a = account(r);
                if m.lazy && !a.is_created() && !a.info.is_empty_code_hash() {
                    a.info.code = None;
                }
                s.insert(A, a);
            }
            s
        })
        .collect();
    let base = || {
        let db = Db::default();
        let c = (m.w0[2] != 0).then(|| code().original_bytes());
        if m.w0[0] + m.w0[1] + m.w0[2] != 0 {
            db.put(A, U256::from(m.w0[0]), m.w0[1], c, None);
        }
        for k in 1..3 {
            if m.w0[2 + k] != 0 {
                db.slot(A, U256::from(k), U256::from(m.w0[2 + k]));
            }
        }
        db
    };
    let n = states.len();
    let zero = || {
        let mut x = EvmState::default();
        states.iter().for_each(|s| merge_evm_state(&mut x, s));
        x
    };
    let first = |n: usize| {
        let mut x = states[0].clone();
        states[1..n].iter().for_each(|s| merge_evm_state_optional_status(&mut x, s, true));
        x
    };
    let right = || {
        let mut y = states[n - 1].clone();
        for s in states[..n - 1].iter().rev() {
            let mut x = s.clone();
            merge_evm_state(&mut x, &y);
            y = x;
        }
        y
    };
    let nest = || {
        let mut x = first(n - 1);
        merge_evm_state_optional_status(&mut x, &states[n - 1], false);
        x
    };
    let mut out = json!({"id": m.id});
    let mut put = |name: &str, r: Result<EvmState, String>| {
        out[name] = match r {
            Err(p) => json!({"panic": p}),
            Ok(s) => {
                let db = base();
                db.commit_state(&s);
                let o = if m.pad == 1 || m.pad == 2 && n > 1 { vec![world(&db, other)] } else { vec![] };
                json!({"entry": row(&s, A), "w": world(&db, A), "other": o, "size": s.len()})
            }
        };
    };
    put("zero", guarded(zero));
    put("first", guarded(|| first(n)));
    put("right", guarded(right));
    if m.cn {
        put("nest", guarded(nest));
    }
    out
}
