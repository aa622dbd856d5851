//! Assembles the programs of the specification.  Every operation is exactly the instruction
//! sequence whose costs spec/MegaTx.tla states.
use crate::names::Names;
use alloy_primitives::{Bytes, B256, U256};
use alloy_sol_types::SolCall;
use mega_evm::IOracle;
use serde::Deserialize;
use std::collections::BTreeMap;

#[derive(Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Op {
    pub o: String,
    pub k: u64,
    pub v: u64,
    pub d: u64,
    pub n: i64,
    pub len: u64,
    pub e: String,
    pub to: String,
    pub w: u64,
    pub t: String,
    pub g: i64,
    pub b: String,
    pub hint: Vec<serde_json::Value>,
    pub salt: i64,
    pub s: Option<i64>,
    pub ef: bool,
    /// the same with operands whose irrelevant bits are set
    pub x: u8,
}

pub struct Program {
    pub blocks: BTreeMap<String, Vec<Op>>,
    pub number: u64,
    /// slots and stored values are numbers beyond 128 bits, ether beyond 64 bits (a one-to-one renaming of those of the
    /// specification, in which ether and other values do not share slots)
    pub wide: bool,
}
const WIDE_KEY: usize = 190;
const WIDE_VAL: usize = 180;
const WIDE_ETHER: usize = 72;

impl Program {
    pub fn key(&self, k: u64) -> U256 {
        if self.wide { (U256::from(k) << WIDE_KEY) | U256::from(5) } else { U256::from(k) }
    }
    pub fn unkey(&self, k: U256) -> u64 {
        if !self.wide {
            return narrow(k);
        }
        let k2 = k >> WIDE_KEY;
        if self.key(narrow(k2)) == k { narrow(k2) } else { u64::MAX }
    }
    pub fn val(&self, v: u64) -> U256 {
        if self.wide { U256::from(v) << WIDE_VAL } else { U256::from(v) }
    }
    pub fn ether(&self, v: u64) -> U256 {
        if self.wide { U256::from(v) << WIDE_ETHER } else { U256::from(v) }
    }
    pub fn unval(&self, v: U256) -> u64 {
        if !self.wide {
            return narrow(v);
        }
        for w in [WIDE_VAL, WIDE_ETHER] {
            if (v >> w) << w == v {
                return narrow(v >> w);
            }
        }
        narrow(v)
    }
    pub fn price(&self, v: u64) -> u128 {
        self.ether(v).to::<u128>()
    }
}
pub fn narrow(v: U256) -> u64 {
    v.try_into().unwrap_or(u64::MAX)
}

pub fn init_len(lvl: u64) -> usize {
    match lvl {
        1 => 2048,
        2 => 1024,
        _ => 512,
    }
}

/// Calldata of `sendHint`; malformed variants must not be understood as a hint.
pub fn hint_calldata(prog: &Program, hint: &[serde_json::Value]) -> Vec<u8> {
    let topic = hint[0].as_u64().unwrap();
    let len = hint[1].as_u64().unwrap() as usize;
    let variant = hint.get(2).and_then(|v| v.as_str()).unwrap_or("ok");
    if variant == "pi" {
        return crate::pre::input(&hint[3]);
    }
    if variant == "kl" {
        return crate::keyless::sample();
    }
    let call = IOracle::sendHintCall {
        topic: B256::from(prog.val(topic)),
        data: Bytes::from(vec![0x5au8; len]),
    };
    let mut v = call.abi_encode();
    match variant {
        "ok" => {}
        "trail" => v.extend_from_slice(&[7; 32]),
        "trunc" => v.truncate(4 + 32 + 32),
        "short" => v.truncate(3),
        "selector" => v[0] ^= 0xff,
        "offset" => v[4 + 32] = 0xff,
        x => panic!("hint variant {x}"),
    }
    v
}

#[derive(Default)]
struct Buf {
    code: Vec<u8>,
    /// (position of a 3 byte hole, what to put there)
    holes: Vec<(usize, Hole)>,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Hole {
    Blob(String, u64),
    Hint(Vec<u8>),
}

impl Buf {
    fn op(&mut self, b: u8) {
        self.code.push(b);
    }
    fn push(&mut self, v: U256) {
        let n = v.byte_len().max(1);
        self.op(0x5f + n as u8);
        let w = v.to_be_bytes::<32>();
        self.code.extend_from_slice(&w[32 - n..]);
    }
    fn num(&mut self, v: u64) {
        self.push(U256::from(v));
    }
    fn hole(&mut self, h: Hole) {
        self.op(0x62);
        self.holes.push((self.code.len(), h));
        self.code.extend_from_slice(&[0, 0, 0]);
    }
}

/// Salts differ in the highest bytes only.
pub fn salt(n: u64) -> U256 {
    U256::from(n + 5) << 192
}

impl Program {
    /// Entry points of the blocks in contract code: two nonzero bytes each.
    pub fn dest(&self, b: &str) -> u64 {
        match self.blocks.keys().position(|k| k == b) {
            None => 0x0101,
            Some(i) => 0x0101 + self.block_starts()[i],
        }
    }

    fn block_starts(&self) -> Vec<u64> {
        // offsets relative to 0x0101, keeping both bytes of the offset nonzero
        let mut at = 0x0101u64;
        let mut v = vec![];
        for ops in self.blocks.values() {
            if at & 0xff == 0 {
                at += 1;
            }
            v.push(at - 0x0101);
            // an upper bound of the block's size which does not depend on names
            let size: u64 = ops.iter().map(|o| Self::bound(o) + if self.wide { 130 } else { 0 }).sum();
            at += size + 32;
        }
        v
    }

    fn bound(o: &Op) -> u64 {
        match o.o.as_str() {
            "BURN" => o.n as u64,
            "CALL" if o.x == 1 => 192,
            "HUGE" => 320,
            "FEW" => 80,
            "CALL" | "CREATE" => 96,
            "PL" => 128,
            "LOG" => 32,
            _ => 80,
        }
    }

    /// An address on the stack; `x`: with dirty upper bytes
    fn push_addr(&self, buf: &mut Buf, name: &str, x: u8, names: &mut Names) {
        let a = U256::from_be_slice(names.addr(name, self).as_slice());
        buf.push(if x == 1 { a | (U256::from(0xabcdef0123456789u64) << 192) } else { a });
    }

    /// Offset of an empty memory region
    fn nowhere(&self, buf: &mut Buf, x: u8) {
        buf.push(if x == 1 { U256::MAX - U256::from(7) } else { U256::ZERO });
    }

    /// Instructions with absurd operands; see MegaOps.tla.
    fn huge(&self, buf: &mut Buf, e: &str) {
        let p40 = U256::from(1u64 << 40);
        let p64 = U256::from(1) << 64;
        let umax = U256::from(u64::MAX - 2000);
        let one = U256::from(1);
        let z = U256::ZERO;
        let eth = U256::from(0x5555u64) << 100;
        let (args, op): (Vec<U256>, u8) = match e {
            "LOGLEN64" => (vec![p64, z], 0xa0),
            "LOGLEN40" => (vec![one, p40, z], 0xa1),
            "LOGOFF40" => (vec![one, one, one, p40], 0xa2),
            "LOGOFF64" => (vec![one, p64], 0xa0),
            "LOGOFFMAX" => (vec![one, umax], 0xa0),
            "MSTORE40" => (vec![one, p40], 0x52),
            "MSTORE64" => (vec![one, p64], 0x52),
            "MLOAD64" => (vec![p64 << 100], 0x51),
            "KECLEN40" => (vec![p40, z], 0x20),
            "KECOFF40" => (vec![one, p40], 0x20),
            "RETOFF40" => (vec![one, p40], 0xf3),
            "RETLEN64" => (vec![p64, z], 0xf3),
            "REVLEN64" => (vec![p64, z], 0xfd),
            "REVOFF40" => (vec![one, p40], 0xfd),
            "CALLIN40" => (vec![z, z, one, p40, z, eth, z], 0xf1),
            "CALLIN64" => (vec![z, z, p64, z, z, eth, z], 0xf1),
            "CALLOUT40" => (vec![one, p40, z, z, z, eth, z], 0xf1),
            "CALLOUT64" => (vec![one, p64, z, z, z, eth, z], 0xf1),
            "SCALLIN40" => (vec![z, z, one, p40, eth, z], 0xfa),
            "DCALLIN64" => (vec![z, z, p64, z, eth, z], 0xf4),
            "CCALLOUT40" => (vec![one, p40, z, z, z, eth, z], 0xf2),
            "CREATELEN40" => (vec![p40, z, z], 0xf0),
            "CREATELEN64" => (vec![p64, z, z], 0xf0),
            "CREATEOFF40" => (vec![one, p40, z], 0xf0),
            "CREATEOFF64" => (vec![one, p64, z], 0xf0),
            "CREATE2LEN40" => (vec![one, p40, z, z], 0xf5),
            "CREATE2LEN64" => (vec![one, p64, z, z], 0xf5),
            "CREATE2OFF40" => (vec![one, one, p40, z], 0xf5),
            "CREATE2OFF64" => (vec![one, one, p64, z], 0xf5),
            "CREATE2MAX" => (vec![one, U256::from(u64::MAX), U256::from(u64::MAX), z], 0xf5),
            "CREATE2OFFMAX" => (vec![one, one, umax, z], 0xf5),
            "CDCOPY40" => (vec![one, z, p40], 0x37),
            "CDCOPYLEN40" => (vec![p40, z, z], 0x37),
            "RDCOPY1" => (vec![one, p40, z], 0x3e),
            "JUMPBIG" => (vec![p64 << 90], 0x56),
            "ECCOPYLEN40" => (vec![p40, z, z, eth], 0x3c),
            "ECCOPYOFF40" => (vec![one, z, p40, eth], 0x3c),
            "ECCOPYLEN64" => (vec![p64, z, z, eth], 0x3c),
            "MCOPY40" => (vec![one, p40, z], 0x5e),
            x => panic!("huge {x}"),
        };
        args.iter().for_each(|a| buf.push(*a));
        buf.op(op);
    }

    fn op(&self, buf: &mut Buf, o: &Op, lvl: u64, names: &mut Names) {
        match o.o.as_str() {
            "SSTORE" => {
                buf.push(self.val(o.v));
                buf.push(self.key(o.k));
                buf.op(0x55);
            }
            "SLOAD" => {
                buf.push(self.key(o.k));
                buf.op(0x54);
                buf.op(0x50);
            }
            "SCOPY" => {
                buf.push(self.key(o.k));
                buf.op(0x54);
                buf.push(self.key(o.d));
                buf.op(0x55);
            }
            "TSTORE" => {
                buf.push(self.val(o.v));
                buf.push(self.key(o.k));
                buf.op(0x5d);
            }
            "TCOPY" => {
                buf.push(self.key(o.k));
                buf.op(0x5c);
                buf.push(self.key(o.d));
                buf.op(0x55);
            }
            "LOG" => {
                for i in 0..o.n {
                    buf.push(self.val(i as u64 + 1));
                }
                buf.num(o.len);
                self.nowhere(buf, if o.len == 0 { o.x } else { 0 });
                buf.op(0xa0 + o.n as u8);
            }
            "ENV" => {
                buf.op(match o.e.as_str() {
                    "COINBASE" => 0x41,
                    "TIMESTAMP" => 0x42,
                    "NUMBER" => 0x43,
                    "PREVRANDAO" => 0x44,
                    "GASLIMIT" => 0x45,
                    "BASEFEE" => 0x48,
                    "BLOBBASEFEE" => 0x4a,
                    x => panic!("env {x}"),
                });
                buf.op(0x50);
            }
            "BLOBHASH" => {
                buf.num(if self.wide { 7 } else { 0 });
                buf.op(0x49);
                buf.op(0x50);
            }
            "BLOCKHASH" => {
                buf.num(self.number - o.d);
                buf.op(0x40);
                buf.op(0x50);
            }
            "ACC" => {
                if o.e == "EXTCODECOPY" {
                    buf.num(0);
                    self.nowhere(buf, o.x);
                    self.nowhere(buf, o.x);
                }
                self.push_addr(buf, &o.to, o.x, names);
                match o.e.as_str() {
                    "BALANCE" => buf.op(0x31),
                    "EXTCODESIZE" => buf.op(0x3b),
                    "EXTCODECOPY" => buf.op(0x3c),
                    "EXTCODEHASH" => buf.op(0x3f),
                    x => panic!("acc {x}"),
                }
                if o.e != "EXTCODECOPY" {
                    buf.op(0x50);
                }
            }
            "GASST" => {
                buf.op(0x5a);
                buf.push(self.key(o.k));
                buf.op(0x55);
            }
            "BALST" => {
                self.push_addr(buf, &o.to, o.x, names);
                buf.op(0x31);
                buf.push(self.key(o.k));
                buf.op(0x55);
            }
            "SELFBALANCE" => {
                buf.op(0x47);
                buf.op(0x50);
            }
            "PL" => self.plain(buf, o),
            "IS" => {
                buf.op(match o.e.as_str() {
                    "ADDRESS" => 0x30,
                    "CALLER" => 0x33,
                    _ => 0x32,
                });
                let a = names.addr(&o.to, self);
                buf.push(U256::from_be_slice(a.as_slice()));
                buf.op(0x14);
                buf.push(self.key(o.k));
                buf.op(0x55);
            }
            "VAL" => {
                match o.e.as_str() {
                    "BLOBHASH" => buf.num(0),
                    "BLOCKHASH" => buf.num(self.number - o.d),
                    "EXTCODEHASH" | "EXTCODESIZE" => self.push_addr(buf, &o.to, o.x, names),
                    _ => {}
                }
                buf.op(match o.e.as_str() {
                    "GASPRICE" => 0x3a,
                    "EXTCODESIZE" => 0x3b,
                    "EXTCODEHASH" => 0x3f,
                    "BLOCKHASH" => 0x40,
                    "COINBASE" => 0x41,
                    "TIMESTAMP" => 0x42,
                    "NUMBER" => 0x43,
                    "PREVRANDAO" => 0x44,
                    "GASLIMIT" => 0x45,
                    "SELFBALANCE" => 0x47,
                    "BASEFEE" => 0x48,
                    "BLOBHASH" => 0x49,
                    "BLOBBASEFEE" => 0x4a,
                    x => panic!("val {x}"),
                });
                if o.e != "SELFBALANCE" {
                    let want = match o.e.as_str() {
                        "GASPRICE" => U256::from(self.price(o.d)),
                        "EXTCODESIZE" | "BASEFEE" => U256::from(o.d),
                        "NUMBER" => U256::from(self.number + o.d),
                        "COINBASE" => U256::from_be_slice(names.addr(&o.to, self).as_slice()),
                        "TIMESTAMP" => U256::from(1_700_000_000u64),
                        "PREVRANDAO" => U256::from_be_bytes([7; 32]),
                        "GASLIMIT" => U256::from(10_000_000_000u64),
                        "BLOBBASEFEE" => U256::from(1),
                        _ => U256::ZERO,
                    };
                    buf.push(want);
                    buf.op(0x14);
                }
                buf.push(self.key(o.k));
                buf.op(0x55);
            }
            "CLZ" => {
                buf.num(5);
                buf.op(0x1e);
            }
            "UNDEF" => buf.op(o.n as u8),
            "HUGE" => self.huge(buf, &o.e),
            "FEW" => {
                (0..o.k).for_each(|_| buf.num(0));
                buf.op(o.n as u8);
            }
            "BURN" => (0..o.n).for_each(|_| buf.op(0x5b)),
            "MEM" => {
                buf.num(0);
                buf.num(o.w * 32 - 32);
                buf.op(0x52);
            }
            "CALL" => {
                let off = if o.hint.is_empty() {
                    let d = self.dest(&o.b);
                    buf.num(d);
                    buf.num(0);
                    buf.op(0x52);
                    0
                } else {
                    let data = hint_calldata(self, &o.hint);
                    assert_eq!(data.len() as i64, o.n, "HARNESS hint calldata length");
                    buf.num(data.len() as u64);
                    if data.len() > 4096 && data.iter().all(|x| *x == 0) {
                        // copied from beyond the end of the code
                        buf.push(U256::from(0xffffff));
                    } else {
                        buf.hole(Hole::Hint(data));
                    }
                    buf.num(1024);
                    buf.op(0x39);
                    1024
                };
                buf.num(0);
                self.nowhere(buf, o.x);
                buf.num(o.n as u64);
                if o.n == 0 {
                    self.nowhere(buf, o.x);
                } else {
                    buf.num(off);
                }
                if matches!(o.t.as_str(), "CALL" | "CALLCODE") {
                    buf.push(self.ether(o.v));
                }
                self.push_addr(buf, &o.to, o.x, names);
                if o.g == -1 {
                    buf.op(0x5a);
                } else if o.g == crate::replay::BIG {
                    buf.push(U256::MAX);
                } else {
                    buf.num(o.g as u64);
                }
                buf.op(match o.t.as_str() {
                    "CALL" => 0xf1,
                    "CALLCODE" => 0xf2,
                    "DELEGATECALL" => 0xf4,
                    "STATICCALL" => 0xfa,
                    x => panic!("call {x}"),
                });
                match o.s.unwrap_or(-1) {
                    -1 => buf.op(0x50),
                    k => {
                        buf.push(self.key(k as u64));
                        buf.op(0x55);
                    }
                }
            }
            "CREATE" => {
                let len = init_len(lvl + 1) as u64;
                buf.num(len);
                buf.hole(Hole::Blob(o.b.clone(), lvl + 1));
                buf.num(2048);
                buf.op(0x39);
                if o.salt != -1 {
                    buf.push(salt(o.salt as u64));
                }
                buf.num(len);
                buf.num(2048);
                buf.push(self.ether(o.v));
                buf.op(if o.salt == -1 { 0xf0 } else { 0xf5 });
                match o.s.unwrap_or(-1) {
                    -1 => buf.op(0x50),
                    k => {
                        buf.op(0x15);
                        buf.op(0x15);
                        buf.push(self.key(k as u64));
                        buf.op(0x55);
                    }
                }
            }
            "SELFDESTRUCT" => {
                self.push_addr(buf, &o.to, o.x, names);
                buf.op(0xff);
            }
            "STOP" => buf.op(0),
            "INVALID" => buf.op(0xfe),
            "UNDERFLOW" => buf.op(0x50),
            "RETURN" | "REVERT" => {
                if o.ef {
                    buf.num(0xef);
                    buf.num(0);
                    buf.op(0x53);
                }
                buf.num(o.n as u64);
                self.nowhere(buf, if o.n == 0 { o.x } else { 0 });
                buf.op(if o.o == "RETURN" { 0xf3 } else { 0xfd });
            }
            x => panic!("op {x}"),
        }
    }

    /// One plain instruction with fixed operands; see MegaOps.tla.
    fn plain(&self, buf: &mut Buf, o: &Op) {
        let mut after: Vec<u8> = vec![];
        let mut leaves = true;
        let e = o.e.as_str();
        let n = o.n as u64;
        match e {
            "PUSH" => {
                buf.op(0x5f + n as u8);
                buf.code.extend(std::iter::repeat(1).take(n as usize));
            }
            "DUP" => {
                (1..=n).for_each(|i| buf.num(i));
                buf.op(0x7f + n as u8);
                after = vec![0x50; n as usize];
            }
            "SWAP" => {
                (1..=n + 1).for_each(|i| buf.num(i));
                buf.op(0x8f + n as u8);
                after = vec![0x50; n as usize];
            }
            "EXPBIG" => {
                buf.push(U256::MAX);
                buf.num(1);
                buf.op(0x0a);
            }
            "CDLOADBIG" => {
                buf.push(U256::MAX);
                buf.op(0x35);
            }
            "SHLBIG" => {
                buf.num(1);
                buf.push(U256::MAX);
                buf.op(0x1b);
            }
            "BYTEBIG" => {
                buf.num(1);
                buf.push(U256::MAX);
                buf.op(0x1a);
            }
            "CDCOPYSRC" => {
                buf.num(32);
                buf.push(U256::MAX);
                buf.num(3000);
                buf.op(0x37);
                leaves = false;
            }
            "JUMP" | "JUMPI" | "JUMPN" => {
                if e != "JUMP" {
                    buf.num((e == "JUMPI") as u64);
                }
                // PUSH3 dest, the jump, JUMPDEST
                buf.op(0x62);
                let dest = buf.code.len() + 3 + 1;
                buf.code.extend_from_slice(&[(dest >> 16) as u8, (dest >> 8) as u8, dest as u8]);
                buf.op(if e == "JUMP" { 0x56 } else { 0x57 });
                buf.op(0x5b);
                leaves = false;
            }
            _ => {
                let (args, op, l): (&[u64], u8, bool) = match e {
                    "ADD" => (&[5, 7], 0x01, true),
                    "MUL" => (&[5, 7], 0x02, true),
                    "SUB" => (&[5, 7], 0x03, true),
                    "DIV" => (&[5, 37], 0x04, true),
                    "SDIV" => (&[5, 37], 0x05, true),
                    "MOD" => (&[5, 37], 0x06, true),
                    "SMOD" => (&[5, 37], 0x07, true),
                    "ADDMOD" => (&[5, 7, 9], 0x08, true),
                    "MULMOD" => (&[5, 7, 9], 0x09, true),
                    "EXP" => (&[3, 5], 0x0a, true),
                    "EXP2" => (&[0x0101, 1], 0x0a, true),
                    "EXP0" => (&[0, 9], 0x0a, true),
                    "SIGNEXTEND" => (&[0x7f, 0], 0x0b, true),
                    "LT" => (&[9, 5], 0x10, true),
                    "GT" => (&[9, 5], 0x11, true),
                    "SLT" => (&[9, 5], 0x12, true),
                    "SGT" => (&[9, 5], 0x13, true),
                    "EQ" => (&[9, 5], 0x14, true),
                    "ISZERO" => (&[0], 0x15, true),
                    "AND" => (&[12, 10], 0x16, true),
                    "OR" => (&[12, 10], 0x17, true),
                    "XOR" => (&[12, 10], 0x18, true),
                    "NOT" => (&[12], 0x19, true),
                    "BYTE" => (&[0xab, 31], 0x1a, true),
                    "SHL" => (&[3, 4], 0x1b, true),
                    "SHR" => (&[48, 4], 0x1c, true),
                    "SAR" => (&[48, 4], 0x1d, true),
                    "KECCAK256" => (&[64, 0], 0x20, true),
                    "ADDRESS" => (&[], 0x30, true),
                    "ORIGIN" => (&[], 0x32, true),
                    "CALLER" => (&[], 0x33, true),
                    "CALLVALUE" => (&[], 0x34, true),
                    "CALLDATALOAD" => (&[0], 0x35, true),
                    "CALLDATASIZE" => (&[], 0x36, true),
                    "CALLDATACOPY" => (&[64, 0, 3000], 0x37, false),
                    "CODESIZE" => (&[], 0x38, true),
                    "CODECOPY" => (&[64, 0, 3000], 0x39, false),
                    "GASPRICE" => (&[], 0x3a, true),
                    "RETURNDATASIZE" => (&[], 0x3d, true),
                    "RETURNDATACOPY" => (&[0, 0, 3000], 0x3e, false),
                    "CHAINID" => (&[], 0x46, true),
                    "MLOAD" => (&[64], 0x51, true),
                    "MSTORE" => (&[7, 3000], 0x52, false),
                    "MSTORE8" => (&[7, 3000], 0x53, false),
                    "MCOPY" => (&[32, 3000, 3100], 0x5e, false),
                    "JUMPDEST" => (&[], 0x5b, false),
                    "PC" => (&[], 0x58, true),
                    "MSIZE" => (&[], 0x59, true),
                    "GAS" => (&[], 0x5a, true),
                    "PUSH0" => (&[], 0x5f, true),
                    x => panic!("plain {x}"),
                };
                args.iter().for_each(|a| buf.num(*a));
                buf.op(op);
                leaves = l;
            }
        }
        if leaves {
            match o.s.unwrap_or(-1) {
                -1 => buf.op(0x50),
                k => {
                    buf.push(self.key(k as u64));
                    buf.op(0x55);
                }
            }
        }
        after.iter().for_each(|b| buf.op(*b));
    }

    fn fill(&self, mut buf: Buf, names: &mut Names) -> Vec<u8> {
        buf.op(0);
        let mut placed: BTreeMap<Hole, usize> = BTreeMap::new();
        for (at, h) in std::mem::take(&mut buf.holes) {
            let pos = match placed.get(&h) {
                Some(p) => *p,
                None => {
                    let p = buf.code.len();
                    let bytes = match &h {
                        Hole::Blob(b, l) => self.blob(b, *l, names),
                        Hole::Hint(d) => d.clone(),
                    };
                    buf.code.extend_from_slice(&bytes);
                    placed.insert(h, p);
                    p
                }
            };
            buf.code[at] = (pos >> 16) as u8;
            buf.code[at + 1] = (pos >> 8) as u8;
            buf.code[at + 2] = pos as u8;
        }
        buf.code
    }

    /// Code of every program contract.
    pub fn contract(&self, names: &mut Names) -> Vec<u8> {
        let mut buf = Buf::default();
        for b in [0x5f, 0x35, 0x56] {
            buf.op(b);
        }
        for (name, ops) in &self.blocks {
            let d = self.dest(name) as usize;
            assert!(buf.code.len() <= d, "HARNESS block bound");
            buf.code.resize(d, 0);
            buf.op(0x5b);
            self.mem_prologue(&mut buf);
            for o in ops {
                self.op(&mut buf, o, 0, names);
            }
            buf.op(0);
        }
        self.fill(buf, names)
    }

    fn mem_prologue(&self, buf: &mut Buf) {
        buf.num(0);
        buf.num(4096 - 32);
        buf.op(0x52);
    }

    /// Init code of block `b` at nesting level `lvl`: fixed length, half of the bytes zero.
    pub fn blob(&self, b: &str, lvl: u64, names: &mut Names) -> Vec<u8> {
        let mut buf = Buf::default();
        self.mem_prologue(&mut buf);
        let none = vec![];
        for o in self.blocks.get(b).unwrap_or(&none) {
            self.op(&mut buf, o, lvl, names);
        }
        let mut code = self.fill(buf, names);
        let len = init_len(lvl);
        let zeros = code.iter().filter(|x| **x == 0).count();
        let ones = code.len() - zeros;
        assert!(zeros <= len / 2 && ones <= len / 2, "HARNESS init code of {b} does not fit level {lvl}: {} zeros {zeros}", code.len());
        code.extend(std::iter::repeat(0x11).take(len / 2 - ones));
        code.extend(std::iter::repeat(0).take(len / 2 - zeros));
        code
    }
}
