//! Conformance harness: runs behaviours of the TLA+ specifications on the real mega-evm.
mod asm;
mod block;
mod fixture;
mod forks;
mod keyless;
mod merge;
mod pre;
mod names;
mod replay;
mod world;

use std::{
    io::{BufRead, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};

/// Runs `f`; a panic of the code under test is an observation, not a crash of the harness.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: mega-harness <kind> <in.ndjson> <out.ndjson>");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let run: fn(&str) -> serde_json::Value = match args[1].as_str() {
        "replay" => |l| replay::run(serde_json::from_str(l).unwrap()),
        "merge" => |l| merge::run(serde_json::from_str(l).unwrap()),
        "klsize" => |l| replay::sizes(serde_json::from_str(l).unwrap()),
        "fixture" => |l| fixture::make(serde_json::from_str(l).unwrap()),
        "strun" => |l| fixture::judge(serde_json::from_str(l).unwrap()),
        "forks" => |l| forks::run(serde_json::from_str(l).unwrap()),
        "block" => |l| block::run(serde_json::from_str(l).unwrap()),
        "blocksize" => |l| block::sizes(serde_json::from_str(l).unwrap()),
        x => {
            eprintln!("unknown kind {x}");
            std::process::exit(2);
        }
    };
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .collect();
    let n = lines.len();
    let lines = Arc::new(lines);
    let next = Arc::new(Mutex::new(0usize));
    let results = Arc::new(Mutex::new(vec![String::new(); n]));
    let threads: Vec<_> = (0..8)
        .map(|_| {
            let (lines, next, results) = (lines.clone(), next.clone(), results.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let i = {
                        let mut g = next.lock().unwrap();
                        let i = *g;
                        *g += 1;
                        i
                    };
                    if i >= lines.len() {
                        break;
                    }
                    let v = match guarded(|| run(&lines[i])) {
                        Ok(v) => v,
                        Err(p) => serde_json::json!({"tool_error": p, "line": i}),
                    };
                    results.lock().unwrap()[i] = v.to_string();
                })
                .unwrap()
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
    for l in results.lock().unwrap().iter() {
        writeln!(f, "{l}").unwrap();
    }
}
