//! Property-based checks of rust-optimization.
//!
//!   harness check <ID>...     run the checks (VERIF_SEED, VERIF_TIER)
//!   harness replay <file>     run one saved case again
//!   harness list              names of all properties and parts

#[macro_use]
mod props;
mod clock;
mod common;
mod engine;
mod ga;
mod gen;
mod pso;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let props = props::all();
    engine::install_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                for q in &p.parts {
                    println!("{} {} quick={} thorough={}", p.id, q.name, q.quick, q.thorough);
                }
            }
            0
        }
        Some("survey") => {
            props::e2e::survey();
            0
        }
        Some("replay") if args.len() == 2 => engine::replay(&props, &args[1]),
        Some("check") if args.len() >= 2 => {
            let mut worst = 0;
            for id in &args[1..] {
                match props.iter().find(|p| p.id == id) {
                    Some(p) => worst = worst.max(engine::run(p, &dir, seed, tier)),
                    None => {
                        eprintln!("unknown property {}", id);
                        worst = worst.max(2);
                    }
                }
            }
            worst
        }
        _ => {
            eprintln!("usage: harness check <ID>... | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
