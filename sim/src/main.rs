//! Deterministic simulation of radixdb with fault injection.
#[macro_use]
mod fail;
mod blobs;
mod conc;
mod engine;
mod gen;
mod props;
mod special;
mod store;
mod sut;
mod trie;
mod world;

use std::time::Duration;

fn main() {
    simrt::cov::init();
    {
        // standard output allocates its buffer at first use: not inside the code under test
        let _quiet = simrt::raw::Quiet::new();
        println!();
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let all = props::all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let tier = args.get(2).cloned().or_else(|| env("VERIF_TIER")).unwrap_or_else(|| "quick".into());
            let Some(p) = all.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {}", id);
                std::process::exit(2);
            };
            let cap = env("RDBSIM_CAP").and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 3600 } else { 240 });
            engine::check(
                p,
                &engine::Opts {
                    seed: env("VERIF_SEED").and_then(|x| x.parse().ok()).unwrap_or(1),
                    tier,
                    runs: env("RDBSIM_RUNS").and_then(|x| x.parse().ok()),
                    workers: env("RDBSIM_WORKERS").and_then(|x| x.parse().ok()).unwrap_or(8),
                    cap: Duration::from_secs(cap),
                    out: env("RDBSIM_OUT").unwrap_or_else(|| ".".into()),
                },
            )
        }
        Some("replay") => engine::replay_file(&all, &args.get(1).cloned().unwrap_or_default()),
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: rdbsim check <property> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
