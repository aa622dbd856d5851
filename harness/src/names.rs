//! Symbolic account names of the specification and the real addresses they stand for.
use crate::asm::Program;
use alloy_primitives::{address, keccak256, Address, B256, U256};
use std::collections::HashMap;

pub const KLD: Address = address!("6342000000000000000000000000000000000003");

#[derive(Default)]
pub struct Names {
    fwd: HashMap<String, Address>,
    rev: HashMap<Address, String>,
}

impl Names {
    fn base(name: &str) -> Address {
        match name {
            "ORC" => mega_evm::ORACLE_CONTRACT_ADDRESS,
            "SYS" => mega_evm::MEGA_SYSTEM_ADDRESS,
            "SYSA" => address!("fffffffffffffffffffffffffffffffffffffffe"),
            "KLD" => KLD,
            "TSO" => address!("6342000000000000000000000000000000000002"),
            "HIST" => address!("0000F90827F1C53a10cb7A02335B175320002935"),
            "BEAC" => address!("000F3df6D732807Ef1319fB7B8bB8522d0Beac02"),
            "ZERO" => Address::ZERO,
            "BASEV" => address!("4200000000000000000000000000000000000019"),
            "L1V" => address!("420000000000000000000000000000000000001A"),
            "OPV" => address!("420000000000000000000000000000000000001B"),
            _ => {
                if let Some(n) = name.strip_prefix('P').and_then(|s| s.parse::<u64>().ok()) {
                    return Address::from_word(B256::from(U256::from(n)));
                }
                if let Some(n) = name.strip_prefix('G').and_then(|s| s.parse::<u8>().ok()) {
                    return crate::keyless::signer(n);
                }
                if name.starts_with("0x") {
                    if let Ok(a) = name.parse() {
                        return a;
                    }
                }
                thread_local! {
                    static KNOWN: std::cell::RefCell<HashMap<String, Address>> = Default::default();
                }
                if let Some(a) = KNOWN.with(|k| k.borrow().get(name).copied()) {
                    return a;
                }
                // no zero bytes, so that programs assemble to the same zero count everywhere
                let mut a = Address::from_slice(&keccak256(name.as_bytes())[12..]);
                for b in a.0.iter_mut() {
                    *b |= 1;
                }
                KNOWN.with(|k| k.borrow_mut().insert(name.to_string(), a));
                a
            }
        }
    }

    /// Address of `name`; `X#n` is created by X at nonce n, `X@b:s:l` by CREATE2 with init block b.
    pub fn addr(&mut self, name: &str, prog: &Program) -> Address {
        if let Some(a) = self.fwd.get(name) {
            return *a;
        }
        let cut = name.rfind(['#', '@']);
        let a = match cut {
            None => Self::base(name),
            Some(i) => {
                let parent = self.addr(&name[..i], prog);
                let rest = &name[i + 1..];
                if name.as_bytes()[i] == b'#' {
                    parent.create(rest.parse().expect("nonce"))
                } else {
                    let p: Vec<&str> = rest.split(':').collect();
                    let blob = prog.blob(p[0], p[2].parse().unwrap(), self);
                    let salt = B256::from(crate::asm::salt(p[1].parse::<u64>().unwrap()));
                    parent.create2(salt, keccak256(&blob))
                }
            }
        };
        self.fwd.insert(name.to_string(), a);
        self.rev.insert(a, name.to_string());
        a
    }

    pub fn name(&self, a: &Address) -> String {
        self.rev.get(a).cloned().unwrap_or_else(|| format!("?{a:x}"))
    }
}
