#![recursion_limit = "256"]
#[path = "../../harness/src/rng.rs"] mod rng;
#[path = "../../harness/src/check.rs"] mod check;
mod run { pub fn clip(s: &str) -> String { s.chars().take(1200).collect() } }
mod props; mod keys; mod xml; mod mock; mod host; mod net; mod cli; mod files; mod tty; mod ext;
use check::*;
fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str()) }
fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args[0].as_str() {
        "worker" => { big(move || worker(&args[1..])); 0 }
        "replay" => big(move || replay(&args[1])),
        "list" => { for p in props::all() { println!("{}", p.id); } 0 }
        "check" => {
            let seed = opt(&args, "--seed").map(|x| x.parse().expect("seed")).or_else(|| std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok())).unwrap_or(1);
            let thorough = match opt(&args, "--tier") { Some(t) => t == "thorough", None => std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") };
            let workers = opt(&args, "--workers").map(|x| x.parse().unwrap()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8) * if args[1] == "C28" { 1 } else { 3 }); // the cases with servers mostly wait
            check(&args[1], Opts { thorough, seed, workers, cases: opt(&args, "--cases").map(|x| x.parse().unwrap()), limit_s: opt(&args, "--limit").map(|x| x.parse().unwrap()) })
        }
        "mock" => { let m = mock::Mock::start(); println!("{}", m.base()); loop { std::thread::park(); } }
        _ => { eprintln!("usage: vmon_std check ID [--tier quick|thorough] [--seed N] | replay FILE | list"); 2 }
    };
    std::process::exit(code);
}
