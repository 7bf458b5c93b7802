//! uv: runtime monitors for lowquark/uflow. See /verif/DESIGN.md.

#[macro_use]
mod core;
mod alloc;
mod ep;
mod hc;
mod props;
mod wire;

use crate::core::{Outcome, RunArgs};

#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned());
    let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    if uflow::verif::crc_compute(b"123456789") != wire::crc(b"123456789") {
        // Not a verdict: only C16 judges the checksum. Crafted frames carry the library's own checksum.
        eprintln!("note: the library's checksum differs from the reference");
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            core::install_panic_hook(false);
            let p = props::find(&opt("--prop").expect("--prop"));
            let a = RunArgs {
                seed,
                thorough,
                threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                first: opt("--first").and_then(|s| s.parse().ok()).unwrap_or(0),
                wall_s: opt("--wall").and_then(|s| s.parse().ok()).unwrap_or(3600),
                out: opt("--out").unwrap_or("/dev/stdout".into()),
                variant: opt("--variant").unwrap_or_default(),
                scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                only: opt("--only"),
            };
            core::run(p, &a)
        }
        Some("case") => {
            let verbose = args.iter().any(|a| a == "-v");
            core::install_panic_hook(true);
            let p = props::find(&args[2]);
            let sc = p.scenarios.iter().find(|s| s.name == args[3]).expect("scenario");
            let r = core::run_case(p.id, sc, args[4].parse().expect("index"), seed, thorough, verbose);
            println!("{}", r.ctx.desc);
            println!("observations {:?}", r.ctx.obs);
            println!("maxima {:?}", r.ctx.maxes);
            println!("{:.3} s", r.nanos as f64 / 1e9);
            for k in r.ctx.known {
                println!("KNOWN {}", k);
            }
            match r.outcome {
                Outcome::Held => {
                    println!("HELD");
                    0
                }
                Outcome::Violated(m) => {
                    println!("VIOLATED {}", m);
                    1
                }
                Outcome::Broken(m) => {
                    println!("BROKEN {}", m);
                    2
                }
            }
        }
        Some("list") => {
            for p in props::all() {
                println!("{}: {}", p.id, p.scenarios.iter().map(|s| format!("{} {}/{}", s.name, s.quick, s.thorough)).collect::<Vec<_>>().join(", "));
            }
            0
        }
        _ => {
            eprintln!("usage: uv run --prop ID --out FILE [...] | uv case ID SCENARIO INDEX [-v] | uv list");
            2
        }
    };
    std::process::exit(code);
}
