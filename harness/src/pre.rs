//! Inputs of precompiled contracts, the reference for what they yield, and an operator's own precompile.
use crate::{replay::{Setup, TxJ}, world::Ext};
use alloy_evm::precompiles::{DynPrecompile, PrecompileInput};
use alloy_primitives::{hex, Address, Bytes};
use mega_evm::MegaEvmFactory;
use revm::{
    context::result::ExecutionResult,
    precompile::{PrecompileError, PrecompileOutput, PrecompileResult},
};
use serde_json::{json, Value};
use std::sync::Arc;

/// The bytes of an input: `hex` filled up with zeros to `n` bytes.
pub fn input(d: &Value) -> Vec<u8> {
    let mut v = hex::decode(d["hex"].as_str().unwrap()).unwrap();
    let n = d["n"].as_u64().unwrap() as usize;
    assert!(v.len() <= n, "HARNESS precompile input");
    v.resize(n, 0);
    v
}

/// What a call of precompile `a` yields, without regard to gas.
fn reference(a: &Address, data: &[u8]) -> Option<Bytes> {
    let p = op_revm::precompiles::isthmus().get(a)?;
    p(data, u64::MAX).ok().map(|o| o.bytes)
}

/// Replaces the observed output length when the output is not the reference's.
pub fn compare<H>(su: &mut Setup, t: &TxJ, r: &ExecutionResult<H>, res: &mut Value) {
    if t.kind == "create" || t.hint.get(2).and_then(|v| v.as_str()) != Some("pi") {
        return;
    }
    if let ExecutionResult::Success { output, .. } = r {
        let to = su.names.addr(&t.to, &su.prog);
        let data = input(&t.hint[3]);
        let own = su.sc.dynp && matches!(t.to.as_str(), "DYN" | "P3");
        let want = if own { Some(Bytes::from(data)) } else { reference(&to, &data) };
        if want.is_some_and(|w| w != *output.data()) {
            res["out"] = json!(-2);
        }
    }
}

fn own(i: PrecompileInput<'_>) -> PrecompileResult {
    if i.gas < 777 {
        return Err(PrecompileError::OutOfGas);
    }
    if i.data.first() == Some(&0xbb) {
        return Err(PrecompileError::Other("bad".into()));
    }
    Ok(PrecompileOutput::new(777, Bytes::copy_from_slice(i.data)))
}

pub fn factory(su: &mut Setup) -> MegaEvmFactory<Ext> {
    let a = su.names.addr("DYN", &su.prog);
    let b = su.names.addr("P3", &su.prog);
    MegaEvmFactory::new().with_external_env_factory(su.ext.clone()).with_dyn_precompiles_builder(Arc::new(move |_| {
        [(a, DynPrecompile::from(own)), (b, DynPrecompile::from(own))].into_iter().collect()
    }))
}
