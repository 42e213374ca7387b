//! Properties decided by running generated projects on the real VM and on the reference model and comparing the event logs.
use crate::check::*;
use crate::host::*;
use crate::model::*;
use crate::progs::{self, *};
use crate::rng::*;
use crate::run::*;
use netsblox_vm::ast::{ExprKind as EK, StmtKind as SK, TimeQuery};

/// everything off except plain computation
pub fn quiet() -> GenCfg {
    GenCfg { math: 6, text: 1, lists: 4, rings: 2, calls: 3, errors: 1, bcast: 0, fork: 0, clones: 0, stops: 0, hostops: 0, net: 0, waits: 0, warp: 0, watch: 0, media: 0, loops: 5, recursion: 0, pause: 0, ill: 0, shadow: 5, located: 0, budget: 40, max_ents: 2, max_scripts: 2, max_funcs: 2, endless: 0, gc: true, faults: false, inputs: 1, turn_cap: 600, time_scale: 1.0, dates: false, random: false }
}
fn vary(r: &mut Rng, c: &mut GenCfg) { c.budget = *r.pick(&[20, 40, 60, 100]); if r.pct(10) { c.max_scripts += 2; c.budget = 25; } if r.pct(15) { c.recursion = c.recursion.max(5); c.calls += 6; c.max_funcs += 1; } }

pub fn cfg_of(id: &str, seed: u64) -> GenCfg {
    let mut r = Rng::new(seed ^ 0x5eed);
    let mut c = match id {
        "C01" => GenCfg { located: 0, ..GenCfg::base() },
        "C03" => GenCfg { located: 2, ..GenCfg::base() },
        "C04" => GenCfg { located: 2, errors: 10, ill: 6, calls: 10, rings: 9, recursion: 4, text: 4, math: 6, net: 1, clones: 1, stops: 1, waits: 1, ..GenCfg::base() },
        "C05" => GenCfg { errors: 16, ill: 5, calls: 8, rings: 8, warp: 6, stops: 3, bcast: 2, math: 6, text: 2, lists: 6, media: 0, ..GenCfg::base() },
        "C06" => GenCfg { recursion: 12, calls: 14, rings: 12, max_funcs: 6, errors: 4, faults: false, ..quiet() },
        "C07" => GenCfg { shadow: 45, rings: 16, calls: 10, loops: 6, clones: 3, watch: 4, fork: 3, max_funcs: 5, ill: 1, ..quiet() },
        "C08" => GenCfg { lists: 24, math: 2, text: 1, rings: 3, loops: 4, errors: 3, ill: 4, ..quiet() },
        "C13" => GenCfg { loops: 12, warp: 8, waits: 4, fork: 4, bcast: 4, max_scripts: 5, max_ents: 3, calls: 6, errors: 2, hostops: 4, stops: 1, inputs: 4, budget: 25, faults: true, ..quiet() },
        "C14" => GenCfg { inputs: 10, max_scripts: 6, max_ents: 4, net: 5, bcast: 7, clones: 4, waits: 5, loops: 6, stops: 2, errors: 2, budget: 16, faults: true, ..quiet() },
        "C15" => GenCfg { bcast: 20, max_scripts: 5, max_ents: 4, waits: 5, stops: 3, clones: 3, errors: 3, loops: 4, inputs: 3, budget: 18, faults: true, ..quiet() },
        "C16" => GenCfg { stops: 14, max_scripts: 5, max_ents: 3, bcast: 6, waits: 6, net: 3, fork: 3, loops: 6, clones: 2, calls: 5, inputs: 6, budget: 20, hostops: 3, faults: true, ..quiet() },
        "C17" => GenCfg { clones: 16, bcast: 4, max_scripts: 4, max_ents: 3, media: 3, hostops: 3, waits: 3, loops: 5, inputs: 3, budget: 18, faults: true, watch: 1, ..quiet() },
        "C18" => GenCfg { hostops: 22, media: 4, errors: 3, max_scripts: 4, fork: 2, loops: 4, waits: 1, stops: 2, budget: 25, faults: true, inputs: 2, ..quiet() },
        "C19" => GenCfg { net: 22, max_scripts: 5, waits: 3, fork: 2, bcast: 2, stops: 1, loops: 3, inputs: 8, budget: 18, faults: true, calls: 4, ..quiet() },
        "C20" => GenCfg { time_scale: time_scale(seed), dates: true, hostops: 7, waits: 22, max_scripts: 4, loops: 5, bcast: 2, warp: 3, errors: 2, budget: 18, faults: true, inputs: 2, ..quiet() },
        "C22" => GenCfg { media: 26, clones: 4, max_ents: 3, max_scripts: 3, lists: 4, loops: 5, errors: 4, calls: 2, bcast: 2, budget: 30, faults: true, inputs: 2, ..quiet() },
        "C24" => GenCfg { random: seed % 3 == 1, net: 2, clones: 5, fork: 4, watch: 2, rings: 10, lists: 12, loops: 10, inputs: 5, ..GenCfg::base() },
        "C29" => GenCfg { hostops: 20, media: 5, max_scripts: 3, loops: 4, waits: 2, fork: 2, warp: 2, watch: 1, pause: 1, errors: 3, budget: 25, faults: true, inputs: 3, ..quiet() },
        "C25" => GenCfg { ill: 25, errors: 8, inputs: 8, pause: 1, stops: 4, located: (seed % 3 > 0) as u32, ..GenCfg::base() },
        "C26" => GenCfg { watch: 20, pause: 6, rings: 8, calls: 6, loops: 6, clones: 3, fork: 2, bcast: 2, shadow: 20, max_scripts: 3, ..quiet() },
        "C37" => GenCfg { calls: 8, rings: 8, recursion: 2, max_funcs: 6, located: (seed % 2 * 2) as u32, watch: if seed % 3 == 0 { 0 } else { 1 }, inputs: 3, ..GenCfg::base() },
        _ => GenCfg::base(),
    };
    vary(&mut r, &mut c);
    c
}
fn time_scale(seed: u64) -> f64 { *Rng::new(seed ^ 0x2077).pick(&[1.0, 1.0, 1.0, 1.0, 60.0, 3600.0, 1e6, 1e7, 3e9]) }
pub fn case_of(id: &str, seed: u64, _idx: u64) -> Case {
    let mut r = Rng::new(seed ^ 0xca5e);
    let mut c = progs::case(seed, cfg_of(id, seed));
    match id {
        "C03" => c.reload = true,
        "C06" => c.mcfg.limit = *r.pick(&[2, 3, 4, 5, 7, 9, 17, 64, 1024]),
        "C24" => c.gc = *r.pick(&[GcMode::Every(1), GcMode::Every(3), GcMode::Debt, GcMode::Every(10)]),
        "C29" => { let n = r.below(6); c.layers = Some((r.next(), (0..n).map(|_| (r.pct(70), r.pct(70))).collect())); }
        "C25" => if seed % 4 == 0 { c.host.back = *r.pick(&[1, 100, 5_000, 1 << 40]); },
        "C20" => {
            if r.pct(15) { c.host.back = *r.pick(&[1, 30, 1_000, 1 << 40]); }
            let scale = time_scale(seed);
            c.host.max_dt = (*r.pick(&[1.0, 3.0, 20.0, 200.0, 700.0]) * scale) as u64;
            c.host.time_mode = *r.pick(&[TimeMode::Arbitrary, TimeMode::Arbitrary, TimeMode::Real, TimeMode::Real, TimeMode::Real, TimeMode::Timeless]);
            if r.pct(30) { c.host.max_dt = c.host.max_dt.saturating_mul(1 + r.next() % 300); }
            if c.host.time_mode == TimeMode::Real {
                // any moment up to the year 9000, often close to the end of a day, month or year
                let day = r.next() % (365 * 7000);
                let start = if r.pct(40) { let y = r.range(1970, 8900); (y - 1970) * 365 + (y - 1969).div_euclid(4) - (y - 1901).div_euclid(100) + (y - 1601).div_euclid(400) + *r.pick(&[-1, 0, 58, 59, 60, 364]) } else { day as i64 };
                c.host.start_ms = start.max(1) as u64 * 86_400_000 + if r.pct(50) { 86_399_000 + r.next() % 1000 } else { r.next() % 86_400_000 };
                c.host.max_dt = c.host.max_dt.min(10_000_000_000); // the clock stays within the host's calendar
                c.host.sub_ns = *r.pick(&[0, 1, 499_999, 500_000, 999_999]);
                c.host.zone_min = *r.pick(&[0, 60, -300, 345, -210, 840, -720, 1, -1]);
            }
        }
        _ => (),
    }
    c
}
pub fn view_of(id: &str) -> View {
    match id {
        "C03" | "C04" | "C37" => View { yields: false, traces: true, watchers: true },
        "C01" | "C02" | "C05" | "C06" | "C07" | "C08" | "C22" | "C26" => V_RESULT,
        _ => V_SCHED,
    }
}
/// names of the monitored situations a case must contain (any of them) to count as non-trivial for the property
pub fn wanted(id: &str) -> &'static [&'static str] {
    match id {
        "C04" => &["errors at depth 1", "errors at depth 2", "errors at depth 3+"],
        "C05" => &["caught", "caught across calls", "errors at depth 1", "errors at depth 2", "errors at depth 3+"],
        "C06" => &["calls refused at the limit", "calls"],
        "C07" => &["rings made"],
        "C13" => &["yields", "yield suppressed by warp"],
        "C14" => &["activation started", "activation dropped", "activation queued"],
        "C15" => &["waiting broadcasts to one", "waiting broadcasts to many"],
        "C16" => &["stop this script", "stop all", "stop other scripts", "stop other scripts in sprite"],
        "C17" => &["clones", "clones of clones"],
        "C18" => &["op completed later", "op completed at once", "op failed softly", "op failed hard"],
        "C19" => &["messages sent", "messages delivered", "message replies received", "message replies timed out"],
        "C20" => &["waits", "wait-until retried", "date read"],
        "C29" => &["op completed later", "op completed at once", "op failed softly", "op failed hard"],
        "C22" => &["costume switched", "costume unknown", "sound played", "notes played"],
        "C26" => &["watchers"],
        _ => &[],
    }
}
fn h(s: &[String]) -> u64 { let mut x = 0x9e37u64; for l in s { x = mix(x ^ hash_str(l)); } x }

pub fn judge_case(id: &str, case: &Case, cov: &mut Cov) -> Res { judge_drawn(id, case, false, cov) }
/// `seed_random`: the project has blocks which draw at random
pub fn judge_drawn(id: &str, case: &Case, seed_random: bool, cov: &mut Cov) -> Res {
    let view = view_of(id);
    let c = compare(case, view);
    let m = &c.model;
    for (k, n) in &m.cov { cov.add(k, *n); }
    cov.add("log events", m.log.len() as u64);
    cov.add("block evaluations", m.evals);
    if let Some(v) = &c.vm { cov.add("VM steps", v.steps); cov.add("host operations", v.ops); cov.add("calls checked for held data", v.freedom); cov.add("forced collections", v.collections); cov.max("bytecode size", v.code_size as u64); cov.max("steps in one run", v.steps);
        if case.layers.is_some() { cov.add("operations handled by a layer", v.layers[0]); cov.add("operations declined by every layer", v.layers[1]); cov.add("operations no layer takes", v.layers[2]); cov.add("idle actions", v.idle_actions); } }
    match c.verdict {
        Verdict::Inconclusive(r) => return Res::Inconclusive(r.into()),
        // which of the possible values is drawn is not the model's business; runs of the same project must still agree among themselves
        Verdict::Differ(_) if id == "C24" && seed_random && c.vm.as_ref().is_some_and(|v| v.broken.is_empty()) => cov.add("other draws than the model's", 1),
        Verdict::Differ(d) => return Res::Violation(d),
        Verdict::Same => (),
    }
    let w = wanted(id);
    let nontrivial = if w.is_empty() { m.log.len() >= 3 } else { w.iter().any(|k| m.cov.get(k).copied().unwrap_or(0) > 0) };
    if nontrivial && cov.distinct(h(&m.log)) { cov.sample(|| m.log.iter().take(12).cloned().collect::<Vec<_>>().join(" ; ")); }
    if id == "C26" {
        let v = c.vm.as_ref().unwrap();
        if v.end == VEnd::Idle && m.end == End::Idle {
            if m.watchers.len().min(64) != v.watchers.len() { return Res::Violation(format!("{} watchers expected, {} handed over", m.watchers.len(), v.watchers.len())); }
            for (a, b) in m.watchers.iter().zip(&v.watchers) {
                let ok = match (&a.1, &b.1) { (Some(x), Some(y)) => same_value(x, y) && a.0 == b.0, (None, None) => true, _ => false };
                if !ok { return Res::Violation(format!("watcher of {}: expected {:?} observed {:?}", a.0, a.1, b.1)); }
                cov.add(if a.1.is_some() { "watchers live at the end" } else { "watchers gone at the end" }, 1);
            }
        }
    }
    if id == "C24" && m.tainted { return Res::Inconclusive("the text of a ring or image (which contains its address) was used".into()); }
    if id == "C24" {
        if hash2(case.host.start_ms, m.evals) % 8 == 0 { match crate::bound::apart(cov, hash2(m.evals, h(&m.log))) { Res::Ok => (), x => return x } }
        // the same case again under a different collection schedule: everything must repeat exactly
        let cap = 300 * m.evals + 200_000;
        let v1 = c.vm.as_ref().unwrap();
        let mut c2 = case.clone();
        c2.gc = if case.gc == GcMode::Never { GcMode::Every(7) } else { GcMode::Never };
        match run_vm(&c2, cap) {
            Err(e) => return Res::Violation(format!("second run refused: {e}")),
            Ok(v2) => {
                if let Some(d) = first_diff(V_ALL, &v1.log, &v2.log, false) { return Res::Violation(format!("under {:?} and {:?}: {d}", case.gc, c2.gc)); }
                if v1.dump != v2.dump || v1.steps != v2.steps { return Res::Violation(format!("different end state or step count under {:?} and {:?}", case.gc, c2.gc)); }
                cov.add("repeated runs compared", 1);
            }
        }
    }
    Res::Ok
}
/// serialised values, with reference numbers normalised
fn same_value(a: &str, b: &str) -> bool { norm(a) == norm(b) }
fn norm(s: &str) -> String {
    let mut out = String::new();
    let mut seen: Vec<String> = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        out.push(c);
        if c == '#' || c == '@' { let mut d = String::new(); while let Some(x) = it.peek() { if x.is_ascii_digit() { d.push(*x); it.next(); } else { break; } } if !d.is_empty() { let k = seen.iter().position(|x| *x == d).unwrap_or_else(|| { seen.push(d); seen.len() - 1 }); out += &format!("n{k}"); } }
    }
    out
}
macro_rules! dprop { ($name:ident, $id:literal) => { pub fn $name(cov: &mut Cov, seed: u64, idx: u64, _t: bool) -> Res { judge_case($id, &case_of($id, seed, idx), cov) } } }
dprop!(c01_progs, "C01"); dprop!(c03_progs, "C03"); dprop!(c04, "C04"); dprop!(c05, "C05"); dprop!(c06, "C06"); dprop!(c07_progs, "C07"); dprop!(c08, "C08");
dprop!(c13_progs, "C13"); dprop!(c14, "C14"); dprop!(c15, "C15"); dprop!(c16, "C16"); dprop!(c17, "C17"); dprop!(c18, "C18"); dprop!(c19, "C19"); dprop!(c20_progs, "C20");
dprop!(c25_progs, "C25"); dprop!(c26, "C26");
dprop!(c29, "C29");
pub fn c24(cov: &mut Cov, seed: u64, idx: u64, _t: bool) -> Res { let random = cfg_of("C24", seed).random; judge_drawn("C24", &case_of("C24", seed, idx), random, cov) }
dprop!(c22_progs, "C22");
// part of the cases are real projects, changed here and there
pub fn c01(cov: &mut Cov, seed: u64, idx: u64, t: bool) -> Res { if seed % 4 == 3 { let mut r = Rng::new(seed ^ 0x01); let n = *r.pick(&[0, 1, 2, 4, 8, 15]); crate::corpus::judge_one(cov, &mut r, n, V_RESULT) } else { c01_progs(cov, seed, idx, t) } }
pub fn c13(cov: &mut Cov, seed: u64, idx: u64, t: bool) -> Res { if seed % 8 == 5 { let mut r = Rng::new(seed ^ 0x13); let n = *r.pick(&[0, 1, 2, 4, 8]); crate::corpus::judge_one(cov, &mut r, n, V_SCHED) } else { c13_progs(cov, seed, idx, t) } }
pub fn c25(cov: &mut Cov, seed: u64, idx: u64, t: bool) -> Res { if idx < crate::bound::NESTED.len() as u64 { return crate::bound::nested(cov, idx); } if seed % 8 == 2 { return crate::refuse::refusals(cov, seed); } if seed % 4 == 1 { let mut r = Rng::new(seed ^ 0x25); let n = *r.pick(&[3, 5, 8, 15, 30]); crate::corpus::judge_one(cov, &mut r, n, V_RESULT) } else { c25_progs(cov, seed, idx, t) } }
pub fn c03(cov: &mut Cov, seed: u64, idx: u64, t: bool) -> Res {
    if seed % 4 == 1 { match crate::stored::tampered(cov, &mut Rng::new(seed ^ 0x03), case_of("C03", seed, idx).role) { Res::Ok => (), x => return x } }
    c03_progs(cov, seed, idx, t)
}
/// every date block at many moments, from one of a day to decades apart
fn dates(cov: &mut Cov, seed: u64) -> Res {
    let mut b = crate::battery::Battery::new();
    let mut c = case_of("C20", seed, 0);
    let mut r = Rng::new(seed ^ 0xda7e);
    let q = [TimeQuery::Year, TimeQuery::Month, TimeQuery::Date, TimeQuery::DayOfWeek, TimeQuery::Hour, TimeQuery::Minute, TimeQuery::Second, TimeQuery::UnixTimestampMs];
    let all = q.iter().map(|q| bare(EK::RealTime { query: q.clone() })).collect();
    b.setup = vec![bare_stmt(SK::Repeat { times: bx(num(48.0)), stmts: vec![bare_stmt(SK::Say { content: bx(bare(EK::MakeList { values: all })), duration: None })] })];
    let d = b.case(seed, GcMode::Debt);
    (c.role, c.plan, c.mcfg, c.gc) = (d.role, d.plan, ModelCfg { turn_cap: 200, ..Default::default() }, d.gc);
    c.host.time_mode = TimeMode::Real;
    c.host.max_dt = *r.pick(&[60_000, 3_600_000, 86_400_000, 86_400_000 * 40, 86_400_000 * 365, 10_000_000_000]);
    if c.host.start_ms < 1_000_000_000 || c.host.start_ms > 225_000_000_000_000 { c.host.start_ms = r.next() % (86_400_000 * 365 * 7000); }
    cov.add("moments of which all date blocks were read", 48);
    judge_case("C20", &c, cov)
}
pub fn c20(cov: &mut Cov, seed: u64, idx: u64, t: bool) -> Res { if seed % 32 == 9 { dates(cov, seed) } else { c20_progs(cov, seed, idx, t) } }
pub fn c22(cov: &mut Cov, seed: u64, idx: u64, t: bool) -> Res {
    if idx % 50 == 0 { match crate::api::notes(cov, &mut Rng::new(seed ^ 0x22)) { Res::Ok => (), x => return x } }
    c22_progs(cov, seed, idx, t)
}
#[allow(dead_code)] fn _u(_: HVal) {}
pub fn c07(cov: &mut Cov, seed: u64, idx: u64, t: bool) -> Res { if seed % 41 == 0 { crate::api::tables(cov, &mut Rng::new(seed ^ 0x77)) } else { c07_progs(cov, seed, idx, t) } }
