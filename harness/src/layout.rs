//! C02: the produced code is a gapless sequence of instructions whose targets are instruction starts, compiling is repeatable,
//! and what a project does and reports is the same whatever else the project holds.
use crate::check::*;
use crate::progs::{self, *};
use crate::props_diff::quiet;
use crate::rng::*;
use crate::run::*;
use netsblox_vm::ast::*;
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK};
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::compact_str::CompactString;

fn cs(s: &str) -> CompactString { CompactString::new(s) }
struct Pad { style: Option<usize>, next: i64, step: i64, texts: usize, seed: u64 }
impl Pad {
    fn info(&mut self) -> Box<BlockInfo> {
        let location = self.style.map(|s| { self.next += self.step; cs(&loc_text(s, self.next)) });
        Box::new(BlockInfo { comment: None, location })
    }
    fn lit(&mut self, r: &mut Rng) -> Expr {
        match r.below(6) {
            0 => num(r.range(-70, 70) as f64),
            1 => num(((r.next() as i64) >> (r.below(62) + 1)) as f64),
            2 => num((r.next() % 1_000_000) as f64 / 64.0),
            3 => { self.texts += 1; txt(&format!("filler {} {}", self.texts % 40, { let n = if r.pct(1) { 300 } else { 3 }; "x".repeat(n) })) }
            4 => { let k = r.next() % 30; txt(&format!("{}", (hash2(self.seed, k) as i32) >> k)) }
            _ => txt(*r.pick(TEXTS)),
        }
    }
    fn stmt(&mut self, r: &mut Rng, depth: u32) -> Stmt {
        let kind = match r.below(if depth > 0 { 7 } else { 4 }) {
            0 | 1 => SK::Say { content: bx(self.lit(r)), duration: None },
            2 => { let n = if r.pct(4) { r.below(300) } else { r.below(4) }; let values = (0..n).map(|_| self.lit(r)).collect(); let l = bx(bare(EK::MakeList { values })); let info = self.info(); SK::Say { content: bx(Expr { kind: EK::Add { values: l }, info }), duration: None } }
            3 => { let e = self.lit(r); let stmts = vec![bare_stmt(SK::Return { value: bx(e) })]; let info = self.info(); let closure = bx(Expr { kind: EK::Closure { kind: ClosureKind::Reporter, params: vec![mk_def("pp")], captures: vec![], stmts }, info }); SK::CallClosure { new_entity: None, closure, args: vec![num(1.0)] } }
            4 => { let n = r.below(4); let times = bx(self.lit(r)); SK::Repeat { times, stmts: (0..n).map(|_| self.stmt(r, depth - 1)).collect() } }
            5 => { let n = r.below(4); let condition = bx(self.lit(r)); SK::IfElse { condition, then: (0..n).map(|_| self.stmt(r, depth - 1)).collect(), otherwise: vec![] } }
            _ => { let n = r.below(3); SK::TryCatch { code: (0..n).map(|_| self.stmt(r, depth - 1)).collect(), var: local("pe"), handler: vec![] } }
        };
        let info = self.info();
        Stmt { kind, info }
    }
    /// statements that compile to about `bytes` bytes of code
    fn stmts(&mut self, r: &mut Rng, bytes: usize) -> Vec<Stmt> { (0..bytes / 12 + 1).map(|_| self.stmt(r, 2)).collect() }
}
/// every list of statements in a script or custom block, in order
fn bodies<'a>(stmts: &'a mut Vec<Stmt>, f: &mut dyn FnMut(&mut Vec<Stmt>)) {
    for s in stmts.iter_mut() {
        match &mut s.kind {
            SK::Warp { stmts } | SK::InfLoop { stmts } | SK::ForeachLoop { stmts, .. } | SK::ForLoop { stmts, .. } | SK::UntilLoop { stmts, .. } | SK::Repeat { stmts, .. } => bodies(stmts, f),
            SK::If { then, .. } => bodies(then, f),
            SK::IfElse { then, otherwise, .. } => { bodies(then, f); bodies(otherwise, f); }
            SK::TryCatch { code, handler, .. } => { bodies(code, f); bodies(handler, f); }
            _ => (),
        }
    }
    f(stmts);
}
fn all_bodies(role: &mut Role, f: &mut dyn FnMut(&mut Vec<Stmt>)) {
    for x in &mut role.funcs { bodies(&mut x.stmts, f); }
    for e in &mut role.entities { for x in &mut e.funcs { bodies(&mut x.stmts, f); } for s in &mut e.scripts { bodies(&mut s.stmts, f); } }
}
fn padded(role: &Role, style: Option<usize>, r: &mut Rng, thorough: bool) -> Role {
    let mut role = role.clone();
    let next = match r.below(4) { 0 => 100_000, 1 => 1_000_000_000, 2 => 1 << 40, _ => 2_000 };
    let mut p = Pad { style, next, step: *r.pick(&[1, 1, 3, 10007]), texts: 0, seed: r.next() };
    // about the sizes at which addresses and lengths get wider
    let base = *r.pick(&[0, 60, 128, 128, 1000, 8192, 16384, 16384, 16384, 40_000]);
    let mut total = if r.below(1000) < if thorough { 10 } else { 2 } { 2_097_152 / 2 + r.below(1_300_000) } else { base / 2 + r.below(base + 40) };
    let parts = 1 + r.below(4);
    for _ in 0..parts {
        let bytes = if r.pct(50) { total } else { r.below(total + 1) };
        total -= bytes;
        match r.below(5) {
            0 => { let stmts = p.stmts(r, bytes); let name = format!("pad{}", role.funcs.len()); let f = Function { name: cs(&name), trans_name: cs(&name), params: vec![], upvars: vec![], returns: false, stmts }; let at = r.below(role.funcs.len() + 1); role.funcs.insert(at, f); }
            1 => { let stmts = p.stmts(r, bytes); let e = r.below(role.entities.len()); let e = &mut role.entities[e]; let name = format!("padm{}", e.funcs.len()); let f = Function { name: cs(&name), trans_name: cs(&name), params: vec![mk_def("pa")], upvars: vec![], returns: false, stmts }; let at = r.below(e.funcs.len() + 1); e.funcs.insert(at, f); }
            2 | 3 => {
                let stmts = p.stmts(r, bytes);
                let e = r.below(role.entities.len());
                let e = &mut role.entities[e];
                let hat = if r.pct(50) { None } else { let info = p.info(); Some(Box::new(Hat { kind: HK::OnKey { key: cs("f") }, info })) };
                let at = r.below(e.scripts.len() + 1);
                e.scripts.insert(at, Script { hat, stmts });
            }
            _ => {
                // within a script: a branch that is never taken
                let mut n = 0;
                all_bodies(&mut role, &mut |_| n += 1);
                let (pick, mut i) = (r.below(n), 0);
                let then = p.stmts(r, bytes);
                let info = p.info();
                let s = Stmt { kind: SK::If { condition: bx(bare(EK::Value(Value::Bool(false)))), then }, info };
                let mut s = Some(s);
                let at = r.next() as usize;
                all_bodies(&mut role, &mut |b| { if i == pick { if let Some(s) = s.take() { let at = at % (b.len() + 1); b.insert(at, s); } } i += 1; });
            }
        }
    }
    role
}

/// the listing of the code against the code itself
fn listing(role: &Role, cov: &mut Cov) -> Result<usize, String> {
    let (bc, init, locs, info) = ByteCode::compile(role).map_err(|e| format!("refused: {e:?}"))?;
    let copy = role.clone();
    let (bc2, init2, locs2, info2) = ByteCode::compile(&copy).map_err(|e| format!("refused the second time: {e:?}"))?;
    let j = |x: serde_json::Result<String>| x.map_err(|e| e.to_string());
    let text = j(serde_json::to_string(&bc))?;
    if text != j(serde_json::to_string(&bc2))? { return Err("compiling the same project twice gives different code".into()); }
    if j(serde_json::to_string(&init))? != j(serde_json::to_string(&init2))? { return Err("compiling the same project twice gives different initial states".into()); }
    if j(serde_json::to_string(&locs))? != j(serde_json::to_string(&locs2))? { return Err("compiling the same project twice gives different locations".into()); }
    let mut entries: Vec<(String, usize)> = vec![];
    let flat = |i: &netsblox_vm::bytecode::ScriptInfo| { let mut v: Vec<(String, usize)> = i.funcs.iter().map(|f| (format!("fn {}", f.0.name), f.1)).collect(); for (e, s) in &i.entities { v.extend(s.funcs.iter().map(|f| (format!("{}.{}", e.name, f.0.name), f.1))); v.extend(s.scripts.iter().enumerate().map(|(n, f)| (format!("{} script {n}", e.name), f.1))); } v };
    if flat(&info) != flat(&info2) { return Err("compiling the same project twice gives different symbols".into()); }
    entries.extend(flat(&info));
    let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let code: Option<Vec<u8>> = v.get("code").and_then(|x| x.as_array()).map(|x| x.iter().filter_map(|b| b.as_u64().map(|b| b as u8)).collect());
    let size = bc.total_size();
    let mut out = vec![];
    bc.dump_code(&mut out).map_err(|e| e.to_string())?;
    let out = String::from_utf8(out).map_err(|e| e.to_string())?;
    let mut bytes: Vec<u8> = vec![];
    let mut starts = std::collections::HashSet::new();
    let mut targets = vec![];
    for l in out.lines() {
        let (addr, rest) = (l.get(..8).unwrap_or(""), l.get(11..).ok_or("short line in the listing")?);
        if let Ok(a) = addr.trim().parse::<usize>() {
            if a != bytes.len() { return Err(format!("the listing goes from byte {} to byte {a}", bytes.len())); }
            starts.insert(a);
        }
        let mut it = rest.as_bytes().chunks(3);
        let mut text_at = 0;
        for c in &mut it {
            match c { [b' ', a, b] if a.is_ascii_hexdigit() && b.is_ascii_hexdigit() => { bytes.push(u8::from_str_radix(std::str::from_utf8(&[*a, *b]).unwrap(), 16).unwrap()); text_at += 3; } _ => break }
        }
        let text = rest[text_at..].trim_start();
        // address operands come first, before any text the program holds
        if let Some((_, f)) = text.split_once(" { ") { for key in ["to: ", "goto: ", "pos: "] { if let Some(x) = f.strip_prefix(key) { if let Ok(t) = x.split([',', ' ']).next().unwrap_or("").parse::<usize>() { targets.push((text.to_string(), t)); } } } }
    }
    if let Some(code) = code { if code != bytes { return Err(format!("the listing shows {} bytes that differ from the {} bytes of code", bytes.len(), code.len())); } }
    let data: Option<Vec<u8>> = v.get("data").and_then(|x| x.as_array()).map(|x| x.iter().filter_map(|b| b.as_u64().map(|b| b as u8)).collect());
    let mut out = vec![];
    bc.dump_data(&mut out).map_err(|e| e.to_string())?;
    let out = String::from_utf8(out).map_err(|e| e.to_string())?;
    let mut listed: Vec<u8> = vec![];
    for l in out.lines() {
        let (addr, rest) = (l.get(..8).unwrap_or(""), l.get(11..).ok_or("short line in the listing of the data")?);
        if addr.trim().parse::<usize>().ok() != Some(listed.len()) { return Err(format!("the listing of the data goes from byte {} to byte {addr}", listed.len())); }
        for c in rest.as_bytes().chunks(3) { match c { [b' ', a, b] if a.is_ascii_hexdigit() && b.is_ascii_hexdigit() => listed.push(u8::from_str_radix(std::str::from_utf8(&[*a, *b]).unwrap(), 16).unwrap()), _ => break } }
    }
    if listed.len() + bytes.len() != size { return Err(format!("the listings show {} bytes of code and {} of data, {size} in all", bytes.len(), listed.len())); }
    if let Some(data) = data { if data != listed { return Err(format!("the listing of the data shows {} bytes that differ from the {} bytes of data", listed.len(), data.len())); } }
    cov.add("data bytes listed", listed.len() as u64);
    for (t, a) in &targets { if !starts.contains(a) { return Err(format!("{t} leads into the middle of an instruction")); } }
    for (t, a) in &entries { if !starts.contains(a) { return Err(format!("{t} starts in the middle of an instruction ({a})")); } }
    cov.add("instructions listed", starts.len() as u64);
    cov.add("instruction targets checked", (targets.len() + entries.len()) as u64);
    cov.max("largest code", bytes.len() as u64);
    Ok(size)
}

/// literals of every width, said one by one
fn literals(cov: &mut Cov, r: &mut Rng) -> Res {
    let mut stmts = vec![];
    for _ in 0..60 {
        let content = match r.below(7) {
            0 | 1 => { let k = 1i64 << r.below(34); num((if r.pct(50) { -k } else { k } + r.range(-2, 2)) as f64) }
            2 => num(*r.pick(&[i32::MAX as f64, i32::MIN as f64, i32::MAX as f64 + 1.0, i32::MIN as f64 - 1.0, 0.5, -0.5, 1e300, 5e-324, f64::MAX, 4503599627370496.5])),
            3 => { let k = 1i64 << r.below(34); txt(&format!("{}", if r.pct(50) { -k } else { k } + r.range(-2, 2))) }
            4 => txt(*r.pick(&["007", "+5", "-0", "0", "5.0", " 5", "1e3", "-", "", "2147483647", "2147483648", "-2147483649", "１２"])),
            5 => { let n = *r.pick(&[0, 1, 126, 127, 128, 129, 300, 16383, 16384, 16385]); let c = *r.pick(&["a", "ab", "é"]); txt(&c.repeat(n)) }
            _ => { let n = *r.pick(&[0, 1, 2, 126, 127, 128, 129, 255, 256, 300]); let mut v: Vec<Expr> = (0..n).map(|i| num(i as f64)).collect(); if n > 0 { v.pop(); v.push(txt("end")); } bare(EK::MakeList { values: v }) }
        };
        stmts.push(bare_stmt(SK::Say { content: bx(content), duration: None }));
    }
    let mut g = G::new(r.next(), quiet());
    let mut role = g.role();
    role.entities[0].scripts.insert(0, Script { hat: Some(Box::new(Hat { kind: HK::OnFlag, info: BlockInfo::none() })), stmts });
    let (mut case, _) = G::new(r.next(), quiet()).case_styled();
    case.role = Box::leak(Box::new(role));
    case.plan.truncate(1);
    let c = compare(&case, V_RESULT);
    match c.verdict { Verdict::Differ(d) => Res::Violation(format!("literals: {d}")), Verdict::Inconclusive(m) => Res::Inconclusive(m.into()), Verdict::Same => { cov.add("literals said", 60); Res::Ok } }
}

pub fn c02(cov: &mut Cov, seed: u64, idx: u64, thorough: bool) -> Res {
    let mut r = Rng::new(seed ^ 0xc02);
    if seed % 8 == 3 { return crate::refuse::locations(cov, seed); }
    if idx % 16 == 0 { return literals(cov, &mut r); }
    let mut cfg = GenCfg { located: if r.pct(75) { 2 } else { 0 }, errors: 6, budget: 30, inputs: 2, ..GenCfg::base() };
    if r.pct(50) { cfg.max_scripts = 6; cfg.max_funcs = 8; }
    let located = cfg.located == 2;
    let (mut case, style) = progs::G::new(seed, cfg).case_styled();
    case.gc = GcMode::Debt;
    let small = match listing(case.role, cov) { Ok(n) => n, Err(e) => return Res::Violation(e) };
    // the model bounds the run
    let m = run_model(&case);
    if m.end == crate::model::End::Fuel { return Res::Inconclusive("the program exceeds the exploration budget".into()); }
    if m.tainted { return Res::Inconclusive("the text of a ring or image (which contains its address) was used".into()); }
    let cap = 300 * m.evals + 200_000;
    let v1 = match run_vm(&case, cap) { Ok(v) => v, Err(e) => return Res::Violation(e) };
    if v1.end == VEnd::Steps { return Res::Inconclusive("the program exceeds the exploration budget".into()); }
    let big = padded(case.role, located.then_some(style), &mut r, thorough);
    let large = match listing(&big, cov) { Ok(n) => n, Err(e) => return Res::Violation(format!("with other code added: {e}")) };
    let mut c2 = case.clone();
    let boxed = Box::new(big);
    // the run borrows the project only while it is compiled
    let leaked: &'static Role = Box::leak(boxed);
    c2.role = leaked;
    let v2 = match run_vm(&c2, cap * 4 + 200_000) { Ok(v) => v, Err(e) => return Res::Violation(format!("with other code added: {e}")) };
    if let Some(d) = first_diff(V_ALL, &v1.log, &v2.log, false) { return Res::Violation(format!("with other code added ({small} to {large} bytes): {d}")); }
    if v1.dump != v2.dump { return Res::Violation(format!("with other code added ({small} to {large} bytes): different final state")); }
    cov.add("log events compared", v1.log.len() as u64);
    cov.add(match large { 0..128 => "projects below 128 bytes", 128..16384 => "projects of 128 bytes to 16 KiB", 16384..2097152 => "projects of 16 KiB to 2 MiB", _ => "projects above 2 MiB" }, 1);
    if v1.log.len() >= 3 && cov.distinct(hash2(hash_str(&v1.log.join(";")), large as u64)) { cov.sample(|| format!("{small} bytes padded to {large} bytes: {}", v1.log.iter().take(6).cloned().collect::<Vec<_>>().join(" ; "))); }
    Res::Ok
}
