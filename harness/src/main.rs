#![recursion_limit = "256"]
mod rng; mod host; mod sys; mod mval; mod model; mod run; mod progs; mod check; mod props; mod props_diff; mod battery; mod api; mod random; mod propsim; mod init;
mod layout; mod bin; mod stored; mod bound; mod corpus; mod refuse; mod direct;
use check::*;
use run::*;

fn dev(args: &[String]) {
    let seed0: u64 = args[0].parse().unwrap();
    let n: u64 = args[1].parse().unwrap();
    let view = match args.get(2).map(|x| x.as_str()) { Some("sched") => V_SCHED, Some("all") => V_ALL, _ => V_RESULT };
    let (mut same, mut inc, mut evals, mut lines) = (0, 0, 0, 0);
    let mut shown = 0;
    for i in 0..n {
        let seed = seed0 + i;
        let mut cfg = progs::GenCfg::base();
        if view.traces { cfg.located = 2; }
        let case = progs::case(seed, cfg);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compare(&case, view)));
        match r {
            Err(_) => { println!("seed {seed}: PANIC {}", LAST.lock().unwrap()); shown += 1; }
            Ok(c) => { evals += c.model.evals; lines += c.model.log.len(); match c.verdict { Verdict::Same => same += 1, Verdict::Inconclusive(_) => inc += 1, Verdict::Differ(d) => { println!("seed {seed}: {d}"); shown += 1; } } }
        }
        if shown > 40 { break; }
    }
    println!("same {same} inconclusive {inc} evals {evals} lines {lines}");
}
fn show(case: &Case) {
    println!("{:#?}\n{:?}\n{:?}\n{:?}", case.role, case.plan, case.host, case.mcfg);
    for l in run_model(case).log { println!("M {l}"); }
    if let Ok(v) = run_vm(case, 1_000_000) { for l in v.log { println!("V {l}"); } }
}
fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str()) }
fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args[0].as_str() {
        "dev" => { big(move || dev(&args[1..])); 0 }
        "show" => { big(move || show(&progs::case(args[1].parse().unwrap(), { let mut c = progs::GenCfg::base(); if args.get(2).is_some() { c.located = 2; } c }))); 0 }
        "nested" => { std::thread::Builder::new().stack_size(8 << 20).spawn(move || bound::nested_here(&args[1], args[2].parse().unwrap())).unwrap().join().unwrap(); 0 }
        "bound" => { big(move || println!("{:#?}", bound::program(&mut rng::Rng::new(seed_of("C36", 1, args[1].parse().unwrap()))).0)); 0 }
        // vmon corpus FIRST N CHANGES: runs mutated real projects and prints what does not agree
        "corpus" => { big(move || {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let mut stat = std::collections::BTreeMap::<String, u64>::new();
            for s in n(1)..n(1) + n(2) {
                let mut r = rng::Rng::new(s);
                if args.get(4).is_some() { let mut r = r.clone(); if let Ok(Some(m)) = corpus::case(&mut r, n(3) as usize) { println!("{} {:?} {:?}\n{}", m.file, m.case.plan, m.case.mcfg.limit, m.xml); show(&m.case); } }
                let mut cov = check::Cov::default();
                let k = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| corpus::judge_one(&mut cov, &mut r, n(3) as usize, V_SCHED))) {
                    Err(_) => { let l = LAST.lock().unwrap().clone(); println!("seed {s}: PANIC {}", clip(&l)); "panic".into() }
                    Ok(check::Res::Ok) => "same".into(), Ok(check::Res::Inconclusive(r)) => { if r.contains("gave up on") { println!("seed {s}: {}", clip(&LAST.lock().unwrap())); } r }
                    Ok(check::Res::Violation(d)) => { println!("seed {s}: {}", clip(&d)); "differ".into() }
                };
                *stat.entry(k).or_default() += 1;
            }
            println!("{stat:?}");
        }); 0 }
        // vmon showcase ID IDX [seed]: the differential case behind a property's case number
        "showcase" => { big(move || { let seed = args.get(3).map(|x| x.parse().unwrap()).unwrap_or(1); show(&props_diff::case_of(&args[1], seed_of(&args[1], seed, args[2].parse().unwrap()), args[2].parse().unwrap())) }); 0 }
        "worker" => { big(move || worker(&args[1..])); 0 }
        "replay" => big(move || replay(&args[1])),
        "list" => { for p in props::all() { println!("{}", p.id); } 0 }
        "check" => {
            let seed = opt(&args, "--seed").map(|x| x.parse().expect("seed")).or_else(|| std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok())).unwrap_or(1);
            let thorough = match opt(&args, "--tier") { Some(t) => t == "thorough", None => std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") };
            let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8);
            check(&args[1], Opts { thorough, seed, workers, cases: opt(&args, "--cases").map(|x| x.parse().unwrap()), limit_s: opt(&args, "--limit").map(|x| x.parse().unwrap()) })
        }
        _ => { eprintln!("usage: vmon check ID [--tier quick|thorough] [--seed N] | replay FILE | list"); 2 }
    };
    std::process::exit(code);
}
