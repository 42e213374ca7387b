//! Random blocks (C31): draws observed on the real VM, under a fair source and under one that keeps returning extreme words.
use crate::battery::random_text;
use crate::check::*;
use crate::host::*;
use crate::model::*;
use crate::progs::*;
use crate::rng::*;
use crate::run::*;
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK};
use netsblox_vm::compact_str::CompactString;
use std::collections::{BTreeMap, BTreeSet};
use unicode_segmentation::UnicodeSegmentation;

fn cs(s: &str) -> CompactString { CompactString::new(s) }
fn e(k: EK) -> Expr { bare(k) }
fn mk(xs: Vec<Expr>) -> Expr { e(EK::MakeList { values: xs }) }

/// what one drawn number must be
#[derive(Clone, Copy, Debug)]
struct Draw { lo: f64, hi: f64, int: bool }
fn draw(a: f64, b: f64) -> Draw { Draw { lo: a.min(b), hi: a.max(b), int: a.round() == a && b.round() == b } }
#[derive(Debug)]
enum Want {
    /// one of these, and each of them sooner or later
    Each(BTreeSet<String>),
    /// a number
    One(Draw),
    /// numbers in this order, whatever the nesting
    Many(Vec<Draw>),
    /// so many letters, drawn separately, and each of these sooner or later at each place
    Letters(BTreeSet<String>, usize),
    Error,
}
struct Probe { stmts: Vec<Stmt>, shown: Expr, n: u32, want: Want, what: String }

fn bound(r: &mut Rng) -> f64 {
    match r.below(8) {
        0..=2 => r.range(-5, 6) as f64,
        3 => r.range(-1000, 1000) as f64 / 4.0,
        4 => (r.f01() - 0.5) * 1e6,
        5 => *r.pick(&[1e15, -1e15, 9007199254740992.0, -9007199254740992.0, 9007199254740994.0, 4503599627370496.5, 1e17, -1e17]),
        6 => *r.pick(&[1e300, -1e300, f64::MAX, f64::MIN, 1e-300, 5e-324, -0.0]),
        _ => r.range(-1_000_000, 1_000_000) as f64,
    }
}
/// the same number written in another way
fn spell(r: &mut Rng, x: f64) -> Expr {
    if r.pct(15) && x.abs() < 1e15 { txt(&format!(" {x} ")) } else { num(x) }
}
fn value_text(s: &str) -> String { format!("{s:?}") }
fn num_text(x: f64) -> String { format!("{x:?}") }

fn probe(r: &mut Rng) -> Probe {
    let none = |shown: Expr, n: u32, want: Want, what: String| Probe { stmts: vec![], shown, n, want, what };
    match r.below(16) {
        14 => {
            // the same list of bounds in several places: drawn separately
            let n = 1 + r.below(3);
            let xs: Vec<f64> = (0..n).map(|_| bound(r)).collect();
            let b = bound(r);
            let l = || var(global("l"));
            let (places, k) = match r.below(3) { 0 => (mk(vec![l(), l()]), 2), 1 => (mk(vec![l(), mk(vec![l(), l()])]), 3), _ => (mk(vec![mk(vec![l()]), l()]), 2) };
            let want = (0..k).flat_map(|_| xs.iter().map(|x| draw(*x, b))).collect();
            let fresh = bare_stmt(SK::Assign { var: global("l"), value: bx(mk(xs.iter().map(|x| num(*x)).collect())) });
            let (p, q) = if r.pct(50) { (places, num(b)) } else { (num(b), places) };
            Probe { stmts: vec![fresh], shown: e(EK::Random { a: bx(p), b: bx(q) }), n: 56, want: Want::Many(want), what: format!("random over {xs:?} in {k} places, {b:?}") }
        }
        15 => {
            let t = "abcdefghijklmnopqrstuvwxyz".chars().take(2 + r.below(20)).collect::<String>();
            let set: BTreeSet<String> = t.chars().map(|c| c.to_string()).collect();
            let l = || var(global("l"));
            let (places, k) = match r.below(4) { 0 => (mk(vec![l(), l()]), 2), 1 => (mk(vec![l(), mk(vec![l(), l()])]), 3), 2 => (mk(vec![txt(&t), txt(&t)]), 2), _ => (mk(vec![l(), txt(&t)]), 2) };
            let fresh = bare_stmt(SK::Assign { var: global("l"), value: bx(if r.pct(70) { mk(vec![txt(&t)]) } else { txt(&t) }) });
            Probe { stmts: vec![fresh], shown: e(EK::StrGetRandom { string: bx(places) }), n: set.len() as u32 * 34, want: Want::Letters(set, k), what: format!("any letter of {t:?} in {k} places") }
        }
        0..=2 => {
            let (a, b) = (r.range(-4, 5), r.range(-4, 5));
            let set: BTreeSet<String> = (a.min(b)..=a.max(b)).map(|x| num_text(x as f64)).collect();
            let (x, y) = (spell(r, a as f64), spell(r, b as f64));
            none(e(EK::Random { a: bx(x), b: bx(y) }), set.len() as u32 * 34, Want::Each(set), format!("random {a} {b}"))
        }
        3..=5 => {
            let (a, b) = (bound(r), bound(r));
            let (x, y) = (spell(r, a), spell(r, b));
            none(e(EK::Random { a: bx(x), b: bx(y) }), 60, Want::One(draw(a, b)), format!("random {a:?} {b:?}"))
        }
        6 => {
            // element by element, nested
            let n = r.below(4);
            let xs: Vec<f64> = (0..n).map(|_| bound(r)).collect();
            let b = bound(r);
            let l = mk(xs.iter().map(|x| num(*x)).collect());
            let (l, what) = if r.pct(40) { (mk(vec![l]), "nested ") } else { (l, "") };
            let (p, q) = if r.pct(50) { (l, num(b)) } else { (num(b), l) };
            none(e(EK::Random { a: bx(p), b: bx(q) }), 56, Want::Many(xs.iter().map(|x| draw(*x, b)).collect()), format!("random over {what}{xs:?} {b:?}"))
        }
        7 => {
            let (n, m) = (r.below(4), r.below(4));
            let xs: Vec<f64> = (0..n).map(|_| bound(r)).collect();
            let ys: Vec<f64> = (0..m).map(|_| bound(r)).collect();
            let l = |v: &[f64]| mk(v.iter().map(|x| num(*x)).collect());
            let want = xs.iter().zip(&ys).map(|(x, y)| draw(*x, *y)).collect();
            none(e(EK::Random { a: bx(l(&xs)), b: bx(l(&ys)) }), 56, Want::Many(want), format!("random over {xs:?} {ys:?}"))
        }
        8 => {
            // two evaluations in one expression
            let (a, b) = (bound(r), bound(r));
            let x = e(EK::Random { a: bx(num(a)), b: bx(num(b)) });
            none(mk(vec![x.clone(), x]), 56, Want::Many(vec![draw(a, b); 2]), format!("two random {a:?} {b:?}"))
        }
        9 => {
            let n = r.below(6);
            let items: Vec<(Expr, String)> = (0..n).map(|i| if r.pct(50) { (num(i as f64), num_text(i as f64)) } else { let t = format!("t{i}"); (txt(&t), value_text(&t)) }).collect();
            let set: BTreeSet<String> = items.iter().map(|x| x.1.clone()).collect();
            let l = mk(items.into_iter().map(|x| x.0).collect());
            none(e(EK::ListGetRandom { list: bx(l) }), n.max(1) as u32 * 34, if n == 0 { Want::Error } else { Want::Each(set) }, format!("any item of {n}"))
        }
        10 => {
            let t = if r.pct(20) { format!("{}", r.range(0, 9999)) } else if r.pct(10) { String::new() } else { random_text(r) };
            let set: BTreeSet<String> = t.graphemes(true).map(value_text).collect();
            let count = t.graphemes(true).count();
            none(e(EK::StrGetRandom { string: bx(txt(&t)) }), count.max(1).min(12) as u32 * 34, if set.is_empty() { Want::Error } else { Want::Each(set) }, format!("any letter of {t:?}"))
        }
        11 | 12 => {
            // insert or replace at any position
            let n = r.below(5);
            let insert = r.pct(50);
            let fresh = bare_stmt(SK::Assign { var: global("l"), value: bx(mk((0..n).map(|i| num(i as f64)).collect())) });
            let list = || bx(var(global("l")));
            let put = bare_stmt(if insert { SK::ListInsertRandom { list: list(), value: bx(num(99.0)) } } else { SK::ListAssignRandom { list: list(), value: bx(num(99.0)) } });
            let set: BTreeSet<String> = (0..if insert { n + 1 } else { n }).map(|k| {
                let mut v: Vec<f64> = (0..n).map(|i| i as f64).collect();
                if insert { v.insert(k, 99.0) } else { v[k] = 99.0 }
                format!("#1[{}]", v.iter().map(|x| num_text(*x)).collect::<Vec<_>>().join(","))
            }).collect();
            let k = set.len() as u32;
            Probe { stmts: vec![fresh, put], shown: *list(), n: k.max(1) * 34, want: if k == 0 { Want::Error } else { Want::Each(set) }, what: format!("{} at any position of {n}", if insert { "insert" } else { "replace" }) }
        }
        _ => {
            let bad = *r.pick(&["", "abc", "1 2", "--1", "NaN"]);
            let (p, q) = if r.pct(50) { (txt(bad), num(5.0)) } else { (num(5.0), txt(bad)) };
            let shown = match r.below(3) { 0 => e(EK::ListGetRandom { list: bx(num(3.0)) }), 1 => e(EK::ListGetRandom { list: bx(txt("abc")) }), _ => e(EK::Random { a: bx(p), b: bx(q) }) };
            none(shown, 3, Want::Error, format!("random over {bad:?}"))
        }
    }
}

/// the numbers of a serialised value, in order
fn numbers(s: &str) -> Option<Vec<f64>> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '#' { rest = rest[1..].trim_start_matches(|c: char| c.is_ascii_digit()); continue; }
        if matches!(c, '[' | ']' | ',') { rest = &rest[1..]; continue; }
        let n = rest.find([',', ']']).unwrap_or(rest.len());
        out.push(rest[..n].parse().ok()?);
        rest = &rest[n..];
    }
    Some(out)
}
/// draws fine enough that a repeated one is no coincidence
fn fine(d: &Draw) -> bool { let span = d.hi - d.lo; if d.int { span >= 1e13 && span < 9e15 } else { span.is_finite() && span > 0.05 * d.lo.abs().max(d.hi.abs()) && span > 1e-290 } }
fn check_draws(d: &Draw, xs: &[f64], fair: bool) -> Option<String> {
    for x in xs {
        if !(*x >= d.lo && *x <= d.hi) { return Some(format!("{x:?} is outside of {:?} to {:?}", d.lo, d.hi)); }
        if d.int && x.round() != *x { return Some(format!("{x:?} is no integer")); }
    }
    if d.lo == d.hi || !fair || xs.len() < 2 { return None; }
    if fine(d) { let mut s: Vec<u64> = xs.iter().map(|x| x.to_bits()).collect(); s.sort(); s.dedup(); if s.len() < xs.len() { return Some(format!("a value was drawn twice in {} draws between {:?} and {:?}", xs.len(), d.lo, d.hi)); } }
    if xs.len() >= 56 && (d.hi / 4.0 - d.lo / 4.0) > 0.0 && (!d.int || d.hi - d.lo >= 12.0) {
        // both halves are reached
        let mid = d.lo / 2.0 + d.hi / 2.0;
        if xs.iter().all(|x| *x < mid) || xs.iter().all(|x| *x > mid) { return Some(format!("{} draws between {:?} and {:?} all fell on one side", xs.len(), d.lo, d.hi)); }
    }
    None
}

pub fn c31(cov: &mut Cov, seed: u64, _idx: u64, _t: bool) -> Res {
    let r = &mut Rng::new(seed ^ 0x31);
    let fair = r.pct(60);
    let probes: Vec<Probe> = (0..4).map(|_| probe(r)).collect();
    let mut stmts = vec![];
    for (i, p) in probes.iter().enumerate() {
        let tag = format!("k{i}");
        let say = |x: Vec<Expr>| bare_stmt(SK::Say { content: bx(mk(x)), duration: None });
        let mut code: Vec<Stmt> = p.stmts.clone();
        code.push(say(vec![txt(&tag), p.shown.clone()]));
        let body = vec![bare_stmt(SK::TryCatch { code, var: local("err"), handler: vec![say(vec![txt(&tag), txt("!!")])] })];
        stmts.push(bare_stmt(SK::Warp { stmts: vec![bare_stmt(SK::Repeat { times: bx(num(p.n as f64)), stmts: body })] }));
    }
    let scripts = vec![ast::Script { hat: Some(Box::new(Hat { kind: HK::OnFlag, info: BlockInfo::none() })), stmts }];
    let ent = Entity { name: cs("Stage"), trans_name: cs("Stage"), fields: vec![], costumes: vec![], sounds: vec![], funcs: vec![], scripts, active_costume: None, visible: true, color: (0, 0, 0, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 };
    let role: &'static Role = Box::leak(Box::new(Role { name: cs("role"), notes: cs(""), stage_size: (480, 360), globals: vec![VariableDefInit { def: mk_def("l"), init: Value::Number(0.0) }], funcs: vec![], entities: vec![ent] }));
    let mut host = HostCfg::calm(seed);
    if !fair { host.extreme = *r.pick(&[30, 60, 95, 95]); }
    let extreme = host.extreme;
    let case = Case { role, plan: vec![(0, PlanInput::Start)], host, mcfg: ModelCfg { turn_cap: 500, ..Default::default() }, gc: GcMode::Debt, reload: false, layers: None, manual: None };
    let v = match run_vm(&case, 3_000_000) { Ok(v) => v, Err(e) => return Res::Violation(format!("refused by the compiler: {e}")) };
    if let Some(b) = v.broken.first() { return Res::Violation(b.clone()); }
    if v.end != VEnd::Idle { return Res::Violation(format!("the run ended with {:?}", v.end)); }
    let mut got: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for l in &v.log {
        let Some((_, s)) = l.split_once(" Say #0[\"k") else { continue };
        let Some((i, rest)) = s.split_once("\",") else { continue };
        got.entry(i.parse().unwrap_or(99)).or_default().push(rest[..rest.len() - 1].to_string());
    }
    for (i, p) in probes.iter().enumerate() {
        let obs = got.remove(&i).unwrap_or_default();
        let bad = |m: String| Res::Violation(clip(&format!("{}: {m}", p.what)));
        if obs.len() != p.n as usize { return bad(format!("{} evaluations gave {} results", p.n, obs.len())); }
        cov.add("draws", obs.len() as u64);
        for o in &obs { cov.distinct(hash2(hash_str(&p.what), hash_str(o))); }
        cov.sample(|| format!("{}: {}", p.what, obs.iter().take(8).cloned().collect::<Vec<_>>().join(" ")));
        let failed = |o: &String| o == "\"!!\"";
        match &p.want {
            Want::Error => { if let Some(o) = obs.iter().find(|o| !failed(o)) { return bad(format!("reported {o} where there is nothing to choose from")); } cov.add("errors", obs.len() as u64); }
            Want::Each(set) => {
                for o in &obs { if !set.contains(o) { return bad(format!("{o} is not among {set:?}")); } }
                if fair && obs.len() >= set.len() * 34 {
                    let seen: BTreeSet<&String> = obs.iter().collect();
                    if seen.len() < set.len() { return bad(format!("only {} of {} outcomes in {} evaluations", seen.len(), set.len(), obs.len())); }
                    cov.add("choices fully covered", 1);
                }
            }
            Want::One(d) => {
                let xs: Vec<f64> = match obs.iter().map(|o| o.parse().ok()).collect() { Some(x) => x, None => return bad(format!("not a number: {:?}", obs.iter().find(|o| o.parse::<f64>().is_err()))) };
                if let Some(m) = check_draws(d, &xs, fair) { return bad(m); }
                // a source of nothing but extreme words reaches both ends
                if extreme == 95 && xs.len() >= 56 && d.hi / 2.0 - d.lo / 2.0 < 1e307 {
                    let near = if d.int && d.lo >= -4503599627370496.0 && d.hi <= 4503599627370496.0 { 0.0 } else { (d.hi - d.lo) * 0.01 };
                    if !xs.iter().any(|x| *x <= d.lo + near) || !xs.iter().any(|x| *x >= d.hi - near) { return bad(format!("an end of {:?} to {:?} is not reached in {} extreme draws", d.lo, d.hi, xs.len())); }
                    cov.add("ends reached", 2);
                }
                cov.add(if d.int { "integer ranges" } else { "real ranges" }, 1);
            }
            Want::Letters(set, k) => {
                let mut seen: Vec<BTreeSet<String>> = vec![BTreeSet::new(); *k];
                let mut apart = false;
                for o in &obs {
                    let xs: Vec<String> = o.split('"').skip(1).step_by(2).map(|x| x.to_string()).collect();
                    if xs.len() != *k { return bad(format!("{k} letters expected: {o}")); }
                    if let Some(x) = xs.iter().find(|x| !set.contains(x.as_str())) { return bad(format!("{x:?} is not among {set:?}")); }
                    apart |= xs.iter().any(|x| *x != xs[0]);
                    for (c, x) in seen.iter_mut().zip(xs) { c.insert(x); }
                }
                if fair {
                    if !apart { return bad(format!("the letters of {k} places were the same in each of {} evaluations", obs.len())); }
                    if seen.iter().any(|c| c.len() < set.len()) { return bad(format!("not every letter was drawn in {} evaluations", obs.len())); }
                }
                cov.add("lists of letters", 1);
            }
            Want::Many(ds) => {
                let mut cols: Vec<Vec<f64>> = vec![vec![]; ds.len()];
                for o in &obs {
                    let Some(xs) = numbers(o) else { return bad(format!("not numbers: {o}")) };
                    if xs.len() != ds.len() { return bad(format!("{} numbers expected: {o}", ds.len())); }
                    for (c, x) in cols.iter_mut().zip(&xs) { c.push(*x); }
                    // separate draws
                    if fair { for i in 0..ds.len() { for j in 0..i { if fine(&ds[i]) && fine(&ds[j]) && xs[i] == xs[j] { return bad(format!("the same draw twice: {o}")); } } } }
                }
                for (d, xs) in ds.iter().zip(&cols) { if let Some(m) = check_draws(d, xs, fair) { return bad(m); } }
                cov.add("lists of draws", 1);
            }
        }
    }
    Res::Ok
}
