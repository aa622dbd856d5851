//! Requests for keyless deployments: signed legacy transactions, calldata, decoding of the answers.
use crate::replay::{Setup, BIG};
use alloy_consensus::{SignableTransaction, TxLegacy};
use alloy_primitives::{keccak256, Address, Bytes, Signature, TxKind, U256};
use k256::ecdsa::SigningKey;
use revm::context::result::ExecutionResult;
use serde::Deserialize;
use serde_json::{json, Value};

#[derive(Deserialize, Clone, Debug)]
pub struct KlJ {
    pub bad: String,
    #[serde(default)]
    pub var: String,
    pub from: String,
    pub nonce: u64,
    pub price: u64,
    pub gl: i64,
    pub ov: i64,
    pub v: u64,
    pub b: String,
    pub nz: usize,
    pub z: usize,
    /// which number beyond 64 bits stands for a far too large override
    #[serde(default)]
    pub big: u64,
}

pub fn key(n: u8) -> SigningKey {
    let mut k = [0x11u8; 32];
    k[31] = n;
    SigningKey::from_slice(&k).unwrap()
}
/// Account `G<n>`.
pub fn signer(n: u8) -> Address {
    let k = key(n);
    Address::from_raw_public_key(&k.verifying_key().to_encoded_point(false).as_bytes()[1..])
}

fn big(x: i64) -> u64 {
    if x == BIG {
        u64::MAX
    } else {
        x as u64
    }
}

/// Signature of account `G<n>`.
pub fn sign(n: u8, hash: alloy_primitives::B256) -> (U256, U256, bool) {
    let (s, v) = key(n).sign_prehash_recoverable(hash.as_slice()).unwrap();
    (U256::from_be_slice(&s.r().to_bytes()), U256::from_be_slice(&s.s().to_bytes()), v.is_y_odd())
}

fn encode(n: u8, tx: TxLegacy, bad: &str) -> Vec<u8> {
    let hash = tx.signature_hash();
    let (s, v) = key(n).sign_prehash_recoverable(hash.as_slice()).unwrap();
    let mut sig = Signature::new(
        U256::from_be_slice(&s.r().to_bytes()),
        U256::from_be_slice(&s.s().to_bytes()),
        v.is_y_odd(),
    );
    if bad == "sig" {
        // r is not the x coordinate of any point
        sig = Signature::new(U256::MAX, sig.s(), sig.v());
    }
    if bad == "sigz" {
        sig = Signature::new(U256::ZERO, U256::ZERO, sig.v());
    }
    let mut out = vec![];
    use alloy_consensus::transaction::RlpEcdsaEncodableTx;
    tx.rlp_encode_signed(&sig, &mut out);
    match bad {
        "cut" => {
            out.truncate(out.len() - 1);
        }
        "typed" => out.insert(0, 1),
        "list" => out[0] = 0x80,
        "void" => out.clear(),
        "long" => {
            // the list header promises one byte too many
            let n = (out[0] - 0xf7) as usize;
            out[n] = out[n].wrapping_add(1);
        }
        _ => {}
    }
    out
}

fn call(tx: &[u8], ov: U256) -> Vec<u8> {
    let mut d = keccak256("keylessDeploy(bytes,uint256)")[..4].to_vec();
    d.extend(U256::from(64).to_be_bytes::<32>());
    d.extend(ov.to_be_bytes::<32>());
    d.extend(U256::from(tx.len()).to_be_bytes::<32>());
    d.extend(tx);
    d.extend(std::iter::repeat_n(0, (32 - tx.len() % 32) % 32));
    d
}

pub fn raw(su: &mut Setup, k: &KlJ) -> Vec<u8> {
    let n: u8 = k.from[1..].parse().expect("signer");
    let input = Bytes::from(su.init_code(&k.b, k.nz, k.z));
    let (kind, var) = (k.bad.as_str(), k.var.as_str());
    let tx = TxLegacy {
        chain_id: match (kind, var) {
            ("155", "1") => Some(1),
            ("155", _) => Some(6342),
            _ => None,
        },
        nonce: k.nonce,
        gas_price: su.prog.price(k.price),
        gas_limit: big(k.gl),
        to: if kind == "to" {
            TxKind::Call(if var == "0" { Address::ZERO } else { signer(200) })
        } else {
            TxKind::Create
        },
        value: su.prog.ether(k.v),
        input,
    };
    encode(n, tx, match kind {
        "rlp" => if var.is_empty() { "cut" } else { var },
        "sig" => if var.is_empty() { "sig" } else { var },
        _ => "",
    })
}

pub fn calldata(su: &mut Setup, k: &KlJ) -> Vec<u8> {
    let (kind, var) = (k.bad.as_str(), k.var.as_str());
    let raw = raw(su, k);
    let ov = match (k.ov, k.big) {
        (BIG, 0) => U256::MAX,
        (BIG, 1) => (U256::from(1) << 64) + U256::from(60_000),
        (BIG, 2) => (U256::from(3) << 200) + U256::from(2_000_000),
        (BIG, _) => U256::from(u64::MAX),
        (n, _) => U256::from(n as u64),
    };
    let mut d = call(&raw, ov);
    if kind == "abi" {
        match var {
            "sel" => d[0] ^= 0xff,
            "cut" => d.truncate(4 + 32),
            _ => d[4] = 0xff,
        }
    }
    d
}

/// Calldata for calls from within programs: a correct request signed by G9.
pub fn sample() -> Vec<u8> {
    let tx = TxLegacy {
        chain_id: None,
        nonce: 0,
        gas_price: 1,
        gas_limit: 100_000,
        to: TxKind::Create,
        value: U256::ZERO,
        input: Bytes::from(alloy_primitives::hex::decode("600160005260016000f3").unwrap()),
    };
    call(&encode(9, tx, ""), U256::from(5_000_000u64))
}

const ERRORS: [&str; 17] = [
    "MalformedEncoding()",
    "NotContractCreation()",
    "NotPreEIP155()",
    "NonZeroTxNonce(uint64)",
    "NoEtherTransfer()",
    "InvalidSignature()",
    "InsufficientBalance()",
    "ContractAlreadyExists()",
    "SignerNonceTooHigh(uint64)",
    "ExecutionReverted(uint64,bytes)",
    "ExecutionHalted(uint64)",
    "EmptyCodeDeployed(uint64)",
    "NoContractCreated()",
    "AddressMismatch()",
    "GasLimitTooLow(uint64,uint64)",
    "InternalError(string)",
    "NotIntercepted()",
];

fn word(d: &[u8], i: usize) -> Option<U256> {
    d.get(32 * i..32 * i + 32).map(U256::from_be_slice)
}
fn num(x: U256) -> i64 {
    if x == U256::from(u64::MAX) {
        BIG
    } else {
        x.try_into().unwrap_or(-1)
    }
}

fn error(d: &[u8]) -> Option<(String, Vec<i64>)> {
    for e in ERRORS {
        if d.len() < 4 || keccak256(e)[..4] != d[..4] {
            continue;
        }
        let (name, args) = e.split_once('(').unwrap();
        let mut out = vec![];
        let body = &d[4..];
        for (i, a) in args.trim_end_matches(')').split(',').enumerate() {
            match a {
                "uint64" => out.push(num(word(body, i)?)),
                "bytes" => {
                    let at: usize = word(body, i)?.try_into().ok()?;
                    out.push(num(word(&body[at..], 0)?));
                }
                _ => {}
            }
        }
        return Some((name.to_string(), out));
    }
    None
}

/// <<error, gas used, address, arguments>>, or nothing if this is not an answer of the deployer.
pub fn answer<H>(su: &Setup, r: &ExecutionResult<H>) -> Value {
    let f = || -> Option<Value> {
        match r {
            ExecutionResult::Revert { output, .. } => {
                let (n, a) = error(output)?;
                Some(json!([n, 0, "-", a]))
            }
            ExecutionResult::Success { output, .. } => {
                let d = output.data();
                let gas = num(word(d, 0)?);
                let to = Address::from_word(word(d, 1)?.into());
                let at: usize = word(d, 2)?.try_into().ok()?;
                let len: usize = word(d.get(at..)?, 0)?.try_into().ok()?;
                if at != 96 || d.len() < 128 + len {
                    return None;
                }
                let to = if to.is_zero() { "ZERO".to_string() } else { su.names.name(&to) };
                if len == 0 {
                    return Some(json!(["", gas, to, []]));
                }
                let (n, a) = error(&d[128..128 + len])?;
                Some(json!([n, gas, to, a]))
            }
            _ => None,
        }
    };
    f().unwrap_or_else(|| json!([]))
}
