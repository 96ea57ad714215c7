//! Deterministic simulation of the browser package with fault injection.
#[macro_use]
#[path = "../../src/fail.rs"]
mod fail;
#[path = "../../src/engine.rs"]
mod engine;
mod files;

use std::time::Duration;

fn main() {
    simrt::cov::init();
    {
        // standard output allocates its buffer at first use: not inside the code under test
        let _quiet = simrt::raw::Quiet::new();
        println!();
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let all = vec![engine::Prop {
        id: "T17",
        mask: fail::p::T17,
        run: files::run,
        quick: 400_000,
        thorough: 20_000_000,
        level: "exploration",
        rule: "a run of three or more operations in which a promise was rejected, the worker died or was replaced; runs count as distinct by the hash of everything that happened in them",
        real: "the browser package's own sources: SyncFs, SyncDir, SyncFile, WebCacheFs and its command loop, chunk bookkeeping and plans, PagingFile, the database view of files (sqlite_vfs::File and Vfs); radixdb itself on top; futures channels, url",
        stub: "the browser: cache storage, requests, responses, blobs, promises and typed arrays (a simulation that keeps what the caches hold when the worker dies), the wasm executor (tasks polled by the simulator), range-collections (reimplemented), sqlite and console (never run)",
        assumptions: &[
            "each promise of the cache API is atomic: its effect has happened or not when the worker dies, and not if it was rejected",
            "caches keep what was put into them; the browser does not evict them",
            "one worker uses a directory at a time; file names contain no '?', '#' or dot segments; writes are not empty and begin at or before the end of the file",
            "ids passed to read were returned by the same file, or lie beyond its end; page sizes are multiples of 8",
            "sampled, not exhaustive",
        ],
    }];
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let tier = args.get(2).cloned().or_else(|| env("VERIF_TIER")).unwrap_or_else(|| "quick".into());
            let Some(p) = all.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {}", id);
                std::process::exit(2);
            };
            let cap = env("RDBSIM_CAP").and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 3600 } else { 240 });
            engine::check(
                p,
                &engine::Opts {
                    seed: env("VERIF_SEED").and_then(|x| x.parse().ok()).unwrap_or(1),
                    tier,
                    runs: env("RDBSIM_RUNS").and_then(|x| x.parse().ok()),
                    workers: env("RDBSIM_WORKERS").and_then(|x| x.parse().ok()).unwrap_or(8),
                    cap: Duration::from_secs(cap),
                    out: env("RDBSIM_OUT").unwrap_or_else(|| ".".into()),
                },
            )
        }
        Some("replay") => engine::replay_file(&all, &args.get(1).cloned().unwrap_or_default()),
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: rdbsim check <property> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
