//! Check driver: splits a property's cases over worker processes (so that a crash, an abort or a hang of the code under
//! test is an observation, not the end of the check), merges what the monitors counted, writes the evidence file.
use crate::props::{self, Prop};
use crate::rng::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub enum Res { Ok, Inconclusive(String), Violation(String) }

#[derive(Default)]
pub struct Cov { pub counters: BTreeMap<String, u64>, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub maxes: BTreeMap<String, u64> }
impl Cov {
    pub fn add(&mut self, k: &str, n: u64) { if n > 0 { match self.counters.get_mut(k) { Some(x) => *x += n, None => { self.counters.insert(k.into(), n); } } } }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.maxes.entry(k.into()).or_insert(0); *e = (*e).max(n); }
    pub fn distinct(&mut self, h: u64) -> bool { self.distinct.insert(h) }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 2 { let s = f(); self.samples.push(crate::run::clip(&s)); } }
}

pub static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn install_hook() { std::panic::set_hook(Box::new(|i| { if let Ok(mut l) = LAST.lock() { *l = format!("{i}").replace('\n', " "); } })); }
pub fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T { std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().unwrap() }

fn case_seed(seed: u64, p: &Prop, idx: u64) -> u64 { hash2(hash2(seed, hash_str(p.id)), idx) }
fn run_one(p: &Prop, cov: &mut Cov, seed: u64, idx: u64, thorough: bool) -> Res {
    let s = case_seed(seed, p, idx);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(cov, s, idx, thorough))) {
        Ok(o) => o,
        Err(_) => Res::Violation(format!("panic: {}", LAST.lock().map(|x| x.clone()).unwrap_or_default())),
    }
}
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r") }

/// `vmon worker ID tier seed first stride end deadline_ms`
pub fn worker(a: &[String]) {
    let p = props::find(&a[0]).expect("property");
    let thorough = a[1] == "thorough";
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, stride, end, deadline) = (n(2), n(3), n(4), n(5), n(6));
    let t0 = Instant::now();
    let mut cov = Cov::default();
    let out = std::io::stdout();
    let say = |s: String| { let mut o = out.lock(); let _ = writeln!(o, "{s}"); let _ = o.flush(); };
    let mut idx = first;
    let (mut done, mut inc) = (0u64, 0u64);
    let mut reasons: BTreeMap<String, u64> = BTreeMap::new();
    while idx < end {
        if t0.elapsed().as_millis() as u64 > deadline { break; }
        say(format!("B {idx}"));
        match run_one(p, &mut cov, seed, idx, thorough) {
            Res::Ok => (),
            Res::Inconclusive(r) => { inc += 1; *reasons.entry(r).or_default() += 1; }
            Res::Violation(m) => say(format!("V {idx} {}", esc(&m))),
        }
        done += 1;
        idx += stride;
        // what the cases leave behind in this process (leaked syntax trees) must not run into the memory limit
        if done % 64 == 0 && idx < end && address_space() > 2_800_000_000 { say(format!("N {idx}")); break; }
    }
    let hs: Vec<String> = cov.distinct.iter().map(|h| format!("{h:x}")).collect();
    say(format!("D {}", serde_json::json!({"done": done, "inconclusive": inc, "reasons": reasons, "counters": cov.counters, "maxes": cov.maxes, "samples": cov.samples, "distinct": hs.join(" ")})));
}

/// the child ends when its parent does, however that ends
pub fn bound_to_parent(c: &mut Command) -> &mut Command {
    use std::os::unix::process::CommandExt;
    unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }) }
}
fn address_space() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').next().and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 }
struct Slot { next: Option<u64>,  child: std::process::Child, at: Option<u64>, since: Instant, finished: bool, stride_first: u64 }

pub struct Opts { pub thorough: bool, pub seed: u64, pub workers: usize, pub cases: Option<u64>, pub limit_s: Option<u64> }

pub fn check(id: &str, o: Opts) -> i32 {
    let Some(p) = props::find(id) else { eprintln!("unknown property {id}"); return 2 };
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let t0 = Instant::now();
    let tier = if o.thorough { "thorough" } else { "quick" };
    let total = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let limit = o.limit_s.unwrap_or(if o.thorough { 780 } else { 75 });
    let w = o.workers.min(total.max(1) as usize);
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<(usize, u64, Option<String>)>();
    let spawn = |slot: usize, generation: u64, first: u64| -> std::process::Child {
        let left = (limit * 1000).saturating_sub(t0.elapsed().as_millis() as u64);
        let mut sh = Command::new("/bin/sh");
        sh.args(["-c", "ulimit -v 4500000; exec \"$0\" \"$@\""]).arg(&exe).args(["worker", id, tier, &o.seed.to_string(), &first.to_string(), &w.to_string(), &total.to_string(), &left.to_string()])
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut c = bound_to_parent(&mut sh).spawn().expect("spawn worker");
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(so).lines() { match l { Ok(l) => { if tx.send((slot, generation, Some(l))).is_err() { return; } } Err(_) => break } }
            let _ = tx.send((slot, generation, None));
        });
        c
    };
    let mut gens: Vec<u64> = vec![0; w];
    let mut slots: Vec<Slot> = (0..w).map(|i| Slot { next: None, child: spawn(i, 0, i as u64), at: None, since: Instant::now(), finished: false, stride_first: i as u64 }).collect();
    let mut viol: Vec<(u64, String)> = vec![];
    let mut merged = Cov::default();
    let (mut done, mut inc) = (0u64, 0u64);
    let mut reasons: BTreeMap<String, u64> = BTreeMap::new();
    let mut open = w;
    let hang = Duration::from_secs(p.hang_s);
    let mut harness_error = None;
    while open > 0 {
        let m = rx.recv_timeout(Duration::from_millis(500));
        let mut dead: Vec<(usize, String)> = vec![];
        match m {
            Ok((s, g, _)) if g != gens[s] => (),
            Ok((s, _, Some(l))) => {
                let sl = &mut slots[s];
                if let Some(x) = l.strip_prefix("B ") { sl.at = x.parse().ok(); sl.since = Instant::now(); }
                else if let Some(x) = l.strip_prefix("N ") { sl.next = x.parse().ok(); }
                else if let Some(x) = l.strip_prefix("V ") { let (i, m) = x.split_once(' ').unwrap_or((x, "")); viol.push((i.parse().unwrap_or(0), m.into())); }
                else if let Some(x) = l.strip_prefix("D ") {
                    sl.finished = true;
                    sl.at = None;
                    if let Ok(v) = serde_json::from_str::<serde_json::Value>(x) {
                        done += v["done"].as_u64().unwrap_or(0);
                        inc += v["inconclusive"].as_u64().unwrap_or(0);
                        for (k, n) in v["counters"].as_object().unwrap() { merged.add(k, n.as_u64().unwrap_or(0)); }
                        for (k, n) in v["maxes"].as_object().unwrap() { merged.max(k, n.as_u64().unwrap_or(0)); }
                        for (k, n) in v["reasons"].as_object().unwrap() { *reasons.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0); }
                        for s in v["samples"].as_array().unwrap() { if merged.samples.len() < 4 { merged.samples.push(s.as_str().unwrap_or("").into()); } }
                        for h in v["distinct"].as_str().unwrap_or("").split_whitespace() { if let Ok(h) = u64::from_str_radix(h, 16) { merged.distinct.insert(h); } }
                    }
                }
            }
            Ok((s, _, None)) => {
                let st = slots[s].child.wait();
                if let (true, Some(next)) = (slots[s].finished, slots[s].next) {
                    gens[s] += 1;
                    slots[s] = Slot { next: None, child: spawn(s, gens[s], next), at: None, since: Instant::now(), finished: false, stride_first: slots[s].stride_first };
                } else if slots[s].finished { open -= 1; } else { dead.push((s, format!("the process running it died ({})", st.map(|x| x.to_string()).unwrap_or_default()))); }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => (),
            Err(_) => break,
        }
        for s in 0..w {
            if !slots[s].finished && slots[s].at.is_some() && slots[s].since.elapsed() > hang && !dead.iter().any(|d| d.0 == s) {
                let _ = slots[s].child.kill();
                let _ = slots[s].child.wait();
                dead.push((s, format!("no progress for {} s", hang.as_secs())));
            }
        }
        for (s, why) in dead {
            gens[s] += 1;
            let next = match slots[s].at {
                Some(i) => { viol.push((i, why)); done += 1; i + w as u64 }
                None => { harness_error = Some(format!("worker {s}: {why} outside any case")); total }
            };
            if next < total && viol.len() < 30 && t0.elapsed().as_secs() < limit {
                slots[s] = Slot { next: None, child: spawn(s, gens[s], next), at: None, since: Instant::now(), finished: false, stride_first: slots[s].stride_first };
            } else { slots[s].finished = true; open -= 1; }
        }
        if viol.len() >= 60 || t0.elapsed().as_secs() > limit + 120 {
            for s in &mut slots { let _ = s.child.kill(); let _ = s.child.wait(); }
            break;
        }
    }
    for s in &mut slots { let _ = s.child.kill(); let _ = s.child.wait(); }
    viol.sort();
    let conclusive = done.saturating_sub(inc);
    // known findings
    let known: Vec<String> = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines().filter(|l| l.starts_with(&format!("known: property={id} "))).map(|s| s.to_string()).collect();
    let mut seen_known: Vec<&String> = vec![];
    let mut fresh: Vec<&(u64, String)> = vec![];
    for v in &viol {
        match known.iter().find(|k| k.split("match=\"").nth(1).and_then(|x| x.split('"').next()).is_some_and(|m| !m.is_empty() && v.1.contains(m))) {
            Some(k) => if !seen_known.contains(&k) { seen_known.push(k); },
            None => fresh.push(v),
        }
    }
    for k in &known { println!("KNOWN-FINDING: {}", k.trim_start_matches("known: ")); }
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": o.seed, "level": "exploration", "wall_s": (wall * 100.0).round() / 100.0, "violations": fresh.len(),
        "coverage": {
            "evaluations": done, "distinct_nontrivial": merged.distinct.len(), "rule": p.rule, "samples": merged.samples,
            "conclusive": conclusive, "inconclusive": inc, "inconclusive_reasons": reasons, "observed": merged.counters, "largest": merged.maxes,
        },
        "assumptions": p.assumptions,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n") { eprintln!("cannot write evidence: {e}"); return 2; }
    println!("{id}: {done} cases, {conclusive} conclusive, {} distinct non-trivial, {:.1} s", merged.distinct.len(), wall);
    if !fresh.is_empty() {
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        for (n, (i, m)) in fresh.iter().enumerate().take(5) {
            let path = format!("{root}/replays/{id}-{i}.json");
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": id, "tier": tier, "seed": o.seed, "case": i, "what": m, "replay_cmd": format!("{} replay {path}", exe.display())})).unwrap() + "\n");
            println!("  case {i}: {m}");
            if n == 0 { println!("VIOLATION property={id} replay={path}"); }
        }
        return 1;
    }
    if let Some(e) = harness_error { eprintln!("harness error: {e}"); return 2; }
    if conclusive == 0 { eprintln!("nothing conclusive was observed"); return 2; }
    0
}

pub fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let p = props::find(v["property"].as_str().unwrap()).expect("property");
    let mut cov = Cov::default();
    match run_one(p, &mut cov, v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap(), v["tier"] == "thorough") {
        Res::Ok => { println!("held"); 0 }
        Res::Inconclusive(r) => { println!("inconclusive: {r}"); 0 }
        Res::Violation(m) => { println!("{m}"); 1 }
    }
}
pub fn seed_of(id: &str, seed: u64, idx: u64) -> u64 { case_seed(seed, props::find(id).unwrap(), idx) }
