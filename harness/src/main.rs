//! vt6mon: one shard of one check. Driven by /verif/check.py.
#![allow(dead_code)]
#[macro_use]
pub mod util;
pub mod app;
#[path = "../../harness-nostd/src/driver.rs"]
pub mod driver;
pub mod gen;
pub mod interpose;
pub mod lock;
pub mod model;
pub mod props;
pub mod refspec;
pub mod sim;
pub mod tok;

use util::report::Obs;
use util::run::{Ctx, Slot};

#[global_allocator]
static ALLOC: util::alloc::Counting = util::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse::<u64>().unwrap()).unwrap_or(d);
    let id = args.get(1).cloned().unwrap_or_default();
    let out = std::path::PathBuf::from(get("--out").unwrap_or_else(|| "/tmp/vt6mon.json".into()));
    let ctx = Ctx {
        id: id.clone(),
        seed: num("--seed", 1),
        thorough: get("--tier").map_or(false, |t| t == "thorough"),
        shard: num("--shard", 0),
        shards: num("--shards", 1),
        only: get("--only").map(|v| v.parse().unwrap()),
        secs: get("--secs").map(|v| v.parse().unwrap()).unwrap_or(20.0),
        scratch: std::path::PathBuf::from(get("--scratch").unwrap_or_else(|| "/tmp".into())),
    };
    util::run::install_hook();
    let slot = Slot::open(&out.with_extension("slot"));
    let mut obs = Obs::default();
    let start = std::time::Instant::now();
    match props::run(&ctx, &mut obs, &slot) {
        true => {}
        false => {
            eprintln!("unknown property {}", id);
            std::process::exit(3);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let bad = interpose::BAD_CLOSES.load(std::sync::atomic::Ordering::SeqCst);
    if bad > 0 {
        let at = interpose::BAD_CLOSE_AT.lock().unwrap_or_else(|e| e.into_inner()).take();
        eprintln!("DESCRIPTOR MONITOR: {} times a descriptor was closed that was not open, first at\n{}", bad, at.unwrap_or_default());
    }
    let mut hs = Vec::with_capacity(obs.distinct.len() * 8);
    for h in &obs.distinct {
        hs.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.with_extension("hashes"), hs).unwrap();
    std::fs::write(&out, obs.json(ctx.shard, wall).render()).unwrap();
    if cfg!(miri) {
        // an orderly return, so that Miri looks for leaks
        drop((obs, slot, ctx, args, out));
        return;
    }
    // exit without running destructors of leaked runtimes
    std::process::exit(if obs.violations.is_empty() { 0 } else { 1 });
}
