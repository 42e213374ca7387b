//! Batteries of expressions over edge-case values (C09 to C12): every expression is evaluated on the real VM inside its own
//! try block and reported; results are compared with the reference operations, and algebraic laws that need no reference at
//! all are checked on what the VM reported.
use crate::check::*;
use crate::host::*;
use crate::model::*;
use crate::progs::*;
use crate::rng::*;
use crate::run::*;
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK};
use netsblox_vm::compact_str::CompactString;

pub enum Law {
    /// these results must be the same
    Same(usize, usize),
    /// these results must be the same, or both errors
    SameAnswer(usize, usize),
    /// these results must be the same up to the known loss of the last place of a number of 16 or more digits
    SameJson(usize, usize),
    /// the same, for a comparison: yes unless the value holds such a number
    YesJson(usize, usize),
    /// these two answers must be opposite (or both be errors)
    Opposite(usize, usize),
    /// the answer must be yes
    Yes(usize),
    /// the answer must be yes unless the other result is an error
    YesIfOk(usize, usize),
    /// when all three are answers, exactly one is yes; and either all are errors or none is
    OneOf3(usize, usize, usize),
    /// when both are answers: either one implies the other
    Implies(usize, usize),
    /// the result must be an error
    Fails(usize),
    /// numeric result (or list of them) within range
    Within(usize, f64, f64),
}
pub struct Battery { pub globals: Vec<(String, Value)>, pub setup: Vec<Stmt>, pub exprs: Vec<Expr>, pub laws: Vec<(Law, String)>, pub approx: bool }

fn cs(s: &str) -> CompactString { CompactString::new(s) }
fn g(i: usize) -> Expr { var(global(&format!("v{i}"))) }
fn mk(xs: Vec<Expr>) -> Box<Expr> { bx(bare(EK::MakeList { values: xs })) }
fn e(k: EK) -> Expr { bare(k) }

pub const NUMS: &[f64] = &[0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 4.0, -4.0, 7.0, -7.0, 10.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, 0.1, 0.3, -0.25, 1e-300, 5e-324, 100.0, 255.0, 256.0, 1e10, 4503599627370497.5, 9007199254740992.0, 9007199254740993.0, -9007199254740991.0, 1e16, 1e21, -1e21, 1e22, 123456789012345680000.0, 1e308, -1e308, 1.7976931348623157e308, 45.0, 30.0, 360.0, 128.0, 65.0, 1e-7, 1.25e-5];
pub const NUMTEXTS: &[&str] = &["5", "-5", "+5", " 7 ", "\t3\n", "1e3", "1E-2", "0x1F", "0X1f", "-0x10", "0b101", "0o17", "0B2", "0x", "0xg", "0x8000000000000000", "0x7fffffffffffffff", "0x-5", "0x+5", ".5", "5.", ".", "-", "+", "--5", "1_000", "1,000", "inf", "-inf", "infinity", "nan", "NaN", "1e400", "", " ", "abc", "5a", "٣", "５", "1 2", "true", "0.1", "1e-400", "00012", "-0", "9007199254740993", "1e", "e5", "0e0"];
pub const TEXTS: &[&str] = &["", "a", "A", "b", "hello", "HELLO", "Hello World", "straße", "STRASSE", "é", "e\u{301}", "É", "İ", "i̇", "ß", "ﬁ", "👍", "👍🏽", "👨‍👩‍👧", "🇩🇪🇫🇷", "日本語", "नमस्ते", "a\tb", "a\r\nb", "x,y", "\"", "\"\"", "a\"b", "line1\nline2", "\n", "\r", "\t", "  ", " a ", "1\u{a0}2", "\u{0}", "\u{feff}x", "a\u{200d}b", "z̷a̴l̵g̶o̷", "ab,cd;ef", "--", "a--b--", "true", "false", "[1,2]", "{\"a\":1}", "null", "\"text\"", "1,2\n3,4"];

pub fn numeric(r: &mut Rng) -> f64 { match r.below(6) { 0 => r.range(-20, 20) as f64, 1 => (r.f01() - 0.5) * 20.0, 2 => (r.range(-2000, 2000) as f64) / 4.0, _ => *r.pick(NUMS) } }
pub fn random_text(r: &mut Rng) -> String {
    if r.pct(60) { return r.pick(TEXTS).to_string(); }
    let n = r.below(6);
    (0..n).map(|_| match r.below(9) { 0 => *r.pick(&['"', ',', '\n', '\r', '\t', ' ', ';', '\\', '/']), 1 => *r.pick(&['é', 'ß', '日', '👍', '\u{301}', '\u{200d}', '🏽', '\u{1f1e9}']), 2 => char::from_u32(r.below(0x300) as u32).unwrap_or('x'), 3 => *r.pick(&['0', '1', '9', '.', '-', 'e', 'x']), _ => *r.pick(&['a', 'b', 'c', 'A', 'B', 'z', ' ']) }).collect()
}
pub struct Vals { pub next_ref: usize, pub closed: Vec<usize> }
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Num, Text, Any }
impl Vals {
    pub fn scalar(&mut self, r: &mut Rng, k: Kind) -> Value {
        match (k, r.below(12)) {
            (Kind::Num, 0..=7) | (Kind::Any, 0..=3) | (Kind::Text, 0) => Value::Number(numeric(r)),
            (Kind::Num, 8 | 9) | (Kind::Any, 4 | 5) | (Kind::Text, 1) => Value::String(cs(r.pick(NUMTEXTS))),
            (Kind::Num, 10) | (Kind::Any, 6) => Value::Bool(r.pct(50)),
            _ => Value::String(cs(&random_text(r))),
        }
    }
    /// lists with declared sharing; `open`: lists being built, which the list may contain (cycles)
    pub fn any(&mut self, r: &mut Rng, k: Kind, depth: u32, open: &mut Vec<usize>, cycles: bool) -> Value {
        if depth == 0 || r.pct(45) { return self.scalar(r, k); }
        if !self.closed.is_empty() && r.pct(15) { return Value::Ref(RefId(*r.pick(&self.closed))); }
        if cycles && !open.is_empty() && r.pct(12) { return Value::Ref(RefId(*r.pick(open))); }
        self.list(r, k, depth, open, cycles)
    }
    pub fn list(&mut self, r: &mut Rng, k: Kind, depth: u32, open: &mut Vec<usize>, cycles: bool) -> Value {
        let id = if r.pct(40) { self.next_ref += 1; Some(self.next_ref) } else { None };
        if let Some(id) = id { open.push(id); }
        let n = *r.pick(&[0, 1, 2, 2, 3, 3, 4]);
        let v = (0..n).map(|_| self.any(r, k, depth - 1, open, cycles)).collect();
        if let Some(id) = id { open.pop(); self.closed.push(id); }
        Value::List(v, id.map(RefId))
    }
    pub fn value(&mut self, r: &mut Rng, k: Kind, cycles: bool) -> Value { let d = *r.pick(&[0, 1, 1, 2, 2, 3]); self.any(r, k, d, &mut vec![], cycles) }
}

impl Battery {
    pub fn new() -> Battery { Battery { globals: vec![], setup: vec![], exprs: vec![], laws: vec![], approx: false } }
    pub fn push(&mut self, x: Expr) -> usize { self.exprs.push(x); self.exprs.len() - 1 }
    pub fn law(&mut self, l: Law, what: &str) { self.laws.push((l, what.into())); }
    pub fn case(&mut self, seed: u64, scheme: GcMode) -> Case {
        let mut stmts = std::mem::take(&mut self.setup);
        for x in std::mem::take(&mut self.exprs) {
            stmts.push(bare_stmt(SK::TryCatch { code: vec![bare_stmt(SK::Say { content: bx(e(EK::MakeList { values: vec![x] })), duration: None })], var: local("err"), handler: vec![bare_stmt(SK::Say { content: bx(e(EK::MakeList { values: vec![txt("!!"), var(local("err"))] })), duration: None })] }));
        }
        let scripts = vec![ast::Script { hat: Some(Box::new(Hat { kind: HK::OnFlag, info: BlockInfo::none() })), stmts }];
        let ent = Entity { name: cs("Stage"), trans_name: cs("Stage"), fields: vec![], costumes: vec![VariableDefInit { def: mk_def("cos"), init: Value::Image(std::rc::Rc::new((vec![1], None, cs("cos")))) }, VariableDefInit { def: mk_def("cos2"), init: Value::Image(std::rc::Rc::new((vec![1], None, cs("cos2")))) }], sounds: (0..2).map(|i| VariableDefInit { def: mk_def(&format!("snd{i}")), init: Value::Audio(std::rc::Rc::new((vec![i], cs("snd")))) }).collect(), funcs: vec![], scripts, active_costume: Some(0), visible: true, color: (0, 0, 0, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 };
        let other = Entity { name: cs("other"), trans_name: cs("other"), costumes: vec![], sounds: vec![], active_costume: None, scripts: vec![], ..ent.clone() };
        let globals = self.globals.drain(..).map(|(n, init)| VariableDefInit { def: mk_def(&n), init }).collect();
        let role = Box::leak(Box::new(Role { name: cs("role"), notes: cs(""), stage_size: (480, 360), globals, funcs: vec![], entities: vec![ent, other] }));
        Case { role, plan: vec![(0, PlanInput::Start)], host: HostCfg::calm(seed), mcfg: ModelCfg { turn_cap: 50, ..Default::default() }, gc: scheme, reload: false, layers: None, manual: None }
    }
}

/// payloads of the Say lines, in order
fn says(log: &[String]) -> Vec<String> {
    log.iter().filter(|l| l.starts_with('C')).map(|l| l.split_once(" Say ").map(|x| x.1.to_string()).unwrap_or_default()).collect()
}
fn is_err(s: &str) -> bool { s.starts_with("#0[\"!!\"") }
fn yes(s: &str) -> Option<bool> { match s { "#0[T]" => Some(true), "#0[F]" => Some(false), _ => None } }
fn numbers(s: &str) -> Option<Vec<f64>> {
    let mut out = vec![];
    let mut rest = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '#' { while it.peek().is_some_and(|x| x.is_ascii_digit()) { it.next(); } continue; }
        if c.is_ascii_digit() || c == '-' { let mut t = c.to_string(); while let Some(x) = it.peek() { if x.is_ascii_digit() || matches!(x, '.' | 'e' | '-') { t.push(*x); it.next(); } else { break; } } out.push(t.parse().ok()?); }
        else if !matches!(c, '[' | ']' | ',') { rest.push(c); }
    }
    if rest.is_empty() { Some(out) } else { None }
}
/// equal up to rounding in numbers
fn near(a: &str, b: &str) -> bool {
    if a == b { return true; }
    match (numbers(a), numbers(b)) {
        (Some(x), Some(y)) => {
            let shape = |s: &str| s.chars().filter(|c| matches!(c, '[' | ']' | ',' | '#')).collect::<String>();
            shape(a) == shape(b) && x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| (p - q).abs() <= 1e-9 * (1.0 + p.abs().max(q.abs())))
        }
        _ => false,
    }
}

/// a text without its numbers, and these, with whether they have 15 or more digits
fn long_numbers(s: &str) -> (String, Vec<(f64, bool)>) {
    let (mut rest, mut nums, mut tok) = (String::new(), vec![], String::new());
    for c in s.chars().chain(std::iter::once('\u{0}')) {
        if c.is_ascii_digit() || (matches!(c, '.' | '-' | '+' | 'e' | 'E') && (!tok.is_empty() || c == '-')) { tok.push(c); continue; }
        let digits = tok.split(['e', 'E']).next().unwrap_or("").chars().filter(|c| c.is_ascii_digit()).count();
        match tok.parse::<f64>() { Ok(x) => { nums.push((x, digits >= 15)); rest.push('N'); } _ => rest.push_str(&tok) }
        tok.clear();
        rest.push(c);
    }
    (rest, nums)
}
fn long_number(s: &str) -> bool { long_numbers(s).1.iter().any(|x| x.1) }
fn ulp(a: &str, b: &str) -> bool {
    let ((x, p), (y, q)) = (long_numbers(a), long_numbers(b));
    x == y && p.len() == q.len() && p.iter().zip(&q).all(|(a, b)| a.0.to_bits() == b.0.to_bits() || (a.1 || b.1) && (a.0.to_bits() as i64 - b.0.to_bits() as i64).abs() <= 2)
}

pub fn judge_battery(mut b: Battery, seed: u64, gc: GcMode, cov: &mut Cov) -> Res {
    let laws = std::mem::take(&mut b.laws);
    let approx = b.approx;
    let n = b.exprs.len();
    let descr: Vec<String> = b.exprs.iter().map(|x| clip(&format!("{:?}", x.kind))).collect();
    let case = b.case(seed, gc);
    let m = run_model(&case);
    if m.end == End::Fuel { return Res::Inconclusive("a result is larger than the exploration budget".into()); }
    let v = match run_vm(&case, 400 * m.evals + 200_000) { Ok(v) => v, Err(x) => return Res::Violation(format!("the program was refused by the compiler: {x}")) };
    if v.end != VEnd::Idle { return Res::Violation(format!("the battery did not finish: {:?}", v.end)); }
    let (a, c) = (says(&m.log), says(&v.log));
    let operands = hash_str(&v.dump.join(";"));
    if c.len() != n { return Res::Violation(format!("{} results for {n} expressions: {:?}", c.len(), v.log.last())); }
    if a.len() != n { return Res::Inconclusive("the reference did not finish".into()); }
    for i in 0..n {
        cov.add(if is_err(&c[i]) { "results that are errors" } else { "results" }, 1);
        if a[i] != c[i] && !(approx && near(&a[i], &c[i])) { return Res::Violation(format!("{}: expected {} observed {} (globals {})", descr[i], clip(&a[i]), clip(&c[i]), clip(&v.dump.join("; ")))); }
        if cov.distinct(hash2(operands, hash2(hash_str(&c[i]), hash_str(&descr[i])))) { cov.sample(|| format!("{} = {}", descr[i], c[i])); }
    }
    if m.dump != v.dump { return Res::Violation(format!("operands changed: expected {} observed {}", clip(&m.dump.join("; ")), clip(&v.dump.join("; ")))); }
    for (l, what) in &laws {
        let bad = match *l {
            Law::SameAnswer(i, j) => (c[i] != c[j] && !(is_err(&c[i]) && is_err(&c[j]))).then(|| format!("{} but {}", c[i], c[j])),
            Law::SameJson(i, j) => if c[i] != c[j] && ulp(&c[i], &c[j]) { cov.add("numbers of 16 or more digits off in the last place after json (known finding)", 1); None } else { (c[i] != c[j]).then(|| format!("{} but {}", c[i], c[j])) },
            Law::YesJson(i, j) => (!is_err(&c[j]) && yes(&c[i]) != Some(true) && !long_number(&c[j])).then(|| format!("{} for {}", c[i], c[j])),
            Law::Same(i, j) => (c[i] != c[j]).then(|| format!("{} but {}", c[i], c[j])),
            Law::Opposite(i, j) => match (yes(&c[i]), yes(&c[j])) { (Some(x), Some(y)) if x != y => None, (None, None) if is_err(&c[i]) && is_err(&c[j]) => None, _ => Some(format!("{} and {}", c[i], c[j])) },
            Law::Yes(i) => (yes(&c[i]) != Some(true)).then(|| c[i].clone()),
            Law::YesIfOk(i, j) => (!is_err(&c[j]) && yes(&c[i]) != Some(true)).then(|| format!("{} for {}", c[i], c[j])),
            Law::OneOf3(i, j, k) => { let x: Vec<Option<bool>> = [i, j, k].iter().map(|z| yes(&c[*z])).collect(); if x.iter().all(|z| z.is_some()) { (x.iter().filter(|z| **z == Some(true)).count() != 1).then(|| format!("{x:?}")) } else { None } }
            Law::Implies(i, j) => (yes(&c[i]) == Some(true) && yes(&c[j]) == Some(false)).then(|| format!("{} but {}", c[i], c[j])),
            Law::Fails(i) => (!is_err(&c[i])).then(|| c[i].clone()),
            Law::Within(i, lo, hi) => match numbers(&c[i]) { Some(x) if !is_err(&c[i]) => x.iter().find(|x| !(**x >= lo && **x <= hi)).map(|x| x.to_string()), _ => None },
        };
        cov.add("laws checked", 1);
        if let Some(x) = bad { return Res::Violation(format!("law '{what}' fails: {} (globals {})", clip(&x), clip(&v.dump.join("; ")))); }
    }
    Res::Ok
}
fn gc_of(r: &mut Rng) -> GcMode { *r.pick(&[GcMode::Never, GcMode::Debt, GcMode::Debt, GcMode::Every(2)]) }
fn odd(r: &mut Rng, b: &mut Battery) { odd_named(r, b, "odd"); }
fn odd_named(r: &mut Rng, b: &mut Battery, name: &str) {
    // values that are never valid operands
    let at = |l: EK, i: f64| EK::ListGet { list: bx(e(l)), index: bx(num(i)) };
    let k = match r.below(13) {
        0 | 1 => EK::This, 2 => EK::Entity { name: cs("other"), trans_name: cs("other") },
        3 | 4 => EK::Closure { kind: ClosureKind::Reporter, params: vec![], captures: vec![], stmts: vec![] },
        5 | 6 => EK::Costume, 7 => at(EK::CostumeList, 2.0), 8 => at(EK::SoundList, 1.0), 9 => at(EK::SoundList, 2.0),
        10 | 11 => EK::UnknownBlock { name: cs("nativeCallSyscall"), args: vec![txt("native"), e(EK::MakeList { values: vec![] })] },
        _ => EK::MakeList { values: vec![e(EK::This), e(EK::Costume)] },
    };
    b.globals.push((name.into(), Value::Number(0.0)));
    b.setup.push(bare_stmt(SK::Assign { var: global(name), value: bx(e(k)) }));
}

pub fn c09(cov: &mut Cov, seed: u64, _idx: u64, _t: bool) -> Res {
    let mut r = Rng::new(seed);
    let mut b = Battery::new();
    let mut vs = Vals { next_ref: 0, closed: vec![] };
    let nv = 5;
    for i in 0..nv { let cyc = r.pct(10); let v = vs.value(&mut r, Kind::Num, cyc); b.globals.push((format!("v{i}"), v)); }
    odd(&mut r, &mut b);
    let r = &mut r;
    fn operand(r: &mut Rng, nv: usize, d: u32) -> Expr {
        match r.below(if d > 0 { 10 } else { 7 }) {
            0..=3 => g(r.below(nv)),
            4 | 5 => num(numeric(r)),
            6 => if r.pct(20) { var(global("odd")) } else { e(EK::MakeList { values: (0..r.below(4)).map(|_| if r.pct(50) { g(r.below(nv)) } else { num(numeric(r)) }).collect() }) },
            _ => exact(r, nv, d - 1),
        }
    }
    fn exact(r: &mut Rng, nv: usize, d: u32) -> Expr {
        if r.pct(10) {
            // lists made of the same few values, in different places of the two sides
            let pool: Vec<usize> = (0..2 + r.below(2)).map(|_| r.below(nv)).collect();
            let n = 2 + r.below(4);
            let side = |r: &mut Rng| mk((0..n).map(|_| if r.pct(10) { num(numeric(r)) } else { g(*r.pick(&pool)) }).collect());
            let (left, right) = (side(r), side(r));
            return e(match r.below(4) { 0 | 1 => EK::Sub { left, right }, 2 => EK::Div { left, right }, _ => EK::Mod { left, right } });
        }
        let mut o = |r: &mut Rng| bx(operand(r, nv, d));
        let many = |r: &mut Rng| { let n = r.below(5); if r.pct(85) { mk((0..n).map(|_| operand(r, nv, d)).collect()) } else { bx(g(r.below(nv))) } };
        e(match r.below(15) {
            0 => EK::Add { values: many(r) }, 1 => EK::Mul { values: many(r) }, 2 => EK::Min { values: many(r) }, 3 => EK::Max { values: many(r) },
            4 => EK::Sub { left: o(r), right: o(r) }, 5 | 6 => EK::Mod { left: o(r), right: o(r) }, 7 => EK::Div { left: o(r), right: o(r) },
            8 => EK::Neg { value: o(r) }, 9 => EK::Abs { value: o(r) }, 10 => EK::Floor { value: o(r) }, 11 => EK::Ceil { value: o(r) }, 12 => EK::Round { value: o(r) }, 13 => EK::Sqrt { value: o(r) },
            _ if r.pct(15) => { let a = if r.pct(30) { (1u64 << 40) as f64 * (r.below(21) as f64 - 10.0) } else { 0.0 } + if r.pct(60) { r.below(4096) as f64 / 4096.0 } else { 0.0 } + if r.pct(40) { r.below(4) as f64 / 65536.0 / 65536.0 / 64.0 * if r.pct(50) { -1.0 } else { 1.0 } } else { 0.0 }; let a = if a.abs() < 64.0 { a } else { a.round() }; EK::Range { start: bx(num(a)), stop: bx(num(a + r.range(-24, 24) as f64 / 4.0)) } }
            _ if r.pct(10) => { let (k, sg) = (9007199254740992.0f64, if r.pct(50) { 1.0 } else { -1.0 }); let (a, b) = (k + r.range(-6, 6) as f64, k + r.range(-6, 8) as f64); EK::Range { start: bx(num(sg * a)), stop: bx(num(sg * b)) } }
            _ => EK::Range { start: bx(num(r.range(-6, 6) as f64 + if r.pct(30) { 0.5 } else { 0.0 })), stop: bx(if r.pct(80) { num(r.range(-6, 6) as f64 / 2.0) } else { g(r.below(nv)) }) },
        })
    }
    for _ in 0..12 { let x = exact(r, nv, 2); b.push(x); }
    b.approx = r.pct(40);
    if b.approx {
        for _ in 0..6 {
            let o = |r: &mut Rng| bx(if r.pct(50) { num((r.f01() - 0.5) * *r.pick(&[2.0, 20.0, 700.0])) } else { operand(r, nv, 0) });
            let x = match r.below(9) {
                0 => EK::Sin { value: o(r) }, 1 => EK::Cos { value: o(r) }, 2 => EK::Tan { value: bx(num(*r.pick(&[0.0, 30.0, 45.0, -45.0, 60.0, 135.0, 12.5, 200.0, 721.0]))) }, 3 => EK::Asin { value: o(r) }, 4 => EK::Acos { value: o(r) }, 5 => EK::Atan { value: o(r) },
                6 if r.pct(30) => { let odd = |r: &mut Rng| bx(match r.below(3) { 0 => var(global("odd")), 1 => operand(r, nv, 0), _ => num((r.f01() - 0.5) * 9.0) }); EK::Atan2 { y: odd(r), x: odd(r) } }
                7 if r.pct(30) => { let odd = |r: &mut Rng| bx(match r.below(3) { 0 => var(global("odd")), 1 => operand(r, nv, 0), _ => num(r.f01() * 100.0 + 0.01) }); EK::Log { value: odd(r), base: odd(r) } }
                6 => EK::Atan2 { y: bx(num((r.f01() - 0.5) * 9.0)), x: bx(num((r.f01() - 0.5) * 9.0)) },
                7 => EK::Log { value: bx(num(r.f01() * 100.0 + 0.01)), base: bx(num(*r.pick(&[2.0, 10.0, std::f64::consts::E, 0.5, 7.0]))) },
                _ => EK::Pow { base: bx(if r.pct(70) { num(r.f01() * 10.0) } else { num(r.range(-5, 5) as f64) }), power: bx(num(if r.pct(50) { r.range(-4, 6) as f64 } else { (r.f01() - 0.5) * 6.0 })) },
            };
            b.push(e(x));
        }
        // trigonometry is in degrees, and inverse functions invert
        for (k, x, want) in [(0, 30.0, 0.5), (1, 60.0, 0.5), (0, 90.0, 1.0), (1, 180.0, -1.0)] { let i = b.push(e(if k == 0 { EK::Sin { value: bx(num(x)) } } else { EK::Cos { value: bx(num(x)) } })); b.law(Law::Within(i, want - 1e-9, want + 1e-9), "sine and cosine of common angles in degrees"); }
        let a = r.f01() * 178.0 - 89.0;
        let i = b.push(e(EK::Asin { value: bx(e(EK::Sin { value: bx(num(a)) })) })); b.law(Law::Within(i, a - 1e-4, a + 1e-4), "asin undoes sin");
        let i = b.push(e(EK::Atan { value: bx(e(EK::Tan { value: bx(num(a)) })) })); b.law(Law::Within(i, a - 1e-4, a + 1e-4), "atan undoes tan");
    }
    // laws on scalars: sign and size of a modulus, rounding distance
    let (x, y) = (numeric(r), *r.pick(&[1.0, 2.0, 3.0, 0.5, 7.0, 360.0, -1.0, -2.0, -3.5, -360.0, 10.0]));
    if x.abs() < 1e15 {
        let i = b.push(e(EK::Mod { left: bx(num(x)), right: bx(num(y)) }));
        b.law(if y > 0.0 { Law::Within(i, 0.0, y) } else { Law::Within(i, y, 0.0) }, "a modulus lies between zero and the divisor");
        let i = b.push(e(EK::Abs { value: bx(e(EK::Sub { left: bx(e(EK::Round { value: bx(num(x)) })), right: bx(num(x)) })) }));
        b.law(Law::Within(i, 0.0, 0.5), "rounding moves by at most a half");
    }
    let gc = gc_of(r);
    judge_battery(b, seed, gc, cov)
}

pub fn c10(cov: &mut Cov, seed: u64, _idx: u64, _t: bool) -> Res {
    let mut r = Rng::new(seed);
    let mut b = Battery::new();
    let mut vs = Vals { next_ref: 0, closed: vec![] };
    let nv = 5;
    let cyclic = r.pct(15);
    for i in 0..nv {
        let k = *r.pick(&[Kind::Any, Kind::Num, Kind::Text]);
        // often a near copy of the previous value, so that equality is not the rare case
        let v = if i > 0 && r.pct(45) { twist(&mut r, &b.globals[i - 1].1) } else { vs.value(&mut r, k, cyclic) };
        b.globals.push((format!("v{i}"), v));
    }
    odd(&mut r, &mut b);
    odd_named(&mut r, &mut b, "odd2");
    let r = &mut r;
    for _ in 0..3 {
        let i = r.below(nv);
        let o = |n: &str| var(global(n));
        let (x, y) = match r.below(50) {
            0..=2 => (o("odd"), g(i)), 3 => (g(i), o("odd2")), 4 | 5 => (o("odd"), o("odd2")), 6 => (o("odd2"), o("odd2")),
            7 => (e(EK::MakeList { values: vec![g(i), o("odd")] }), e(EK::MakeList { values: vec![g(i), o(if r.pct(50) { "odd" } else { "odd2" })] })),
            _ => (g(i), g(r.below(nv))),
        };
        let c = |k: fn(Box<Expr>, Box<Expr>) -> EK, x: &Expr, y: &Expr| e(k(bx(x.clone()), bx(y.clone())));
        let eq: fn(Box<Expr>, Box<Expr>) -> EK = |left, right| EK::Eq { left, right };
        let ne: fn(Box<Expr>, Box<Expr>) -> EK = |left, right| EK::Neq { left, right };
        let lt: fn(Box<Expr>, Box<Expr>) -> EK = |left, right| EK::Less { left, right };
        let le: fn(Box<Expr>, Box<Expr>) -> EK = |left, right| EK::LessEq { left, right };
        let gt: fn(Box<Expr>, Box<Expr>) -> EK = |left, right| EK::Greater { left, right };
        let ge: fn(Box<Expr>, Box<Expr>) -> EK = |left, right| EK::GreaterEq { left, right };
        let id: fn(Box<Expr>, Box<Expr>) -> EK = |left, right| EK::Identical { left, right };
        let (a1, a2, a3) = (b.push(c(eq, &x, &y)), b.push(c(eq, &y, &x)), b.push(c(ne, &x, &y)));
        let (l1, l2, l3, l4) = (b.push(c(lt, &x, &y)), b.push(c(le, &x, &y)), b.push(c(gt, &x, &y)), b.push(c(ge, &x, &y)));
        let (k1, k2) = (b.push(c(gt, &y, &x)), b.push(c(lt, &y, &x)));
        let s1 = b.push(c(id, &x, &y));
        let refl = b.push(c(eq, &x, &x));
        b.law(Law::YesIfOk(refl, refl), "a value equals itself");
        b.law(Law::SameAnswer(a1, a2), "equality is symmetric");
        b.law(Law::Opposite(a1, a3), "not-equal is the complement of equal");
        b.law(Law::OneOf3(l1, a1, l3), "exactly one of <, = and > holds");
        b.law(Law::Opposite(l1, l4), ">= is the complement of <");
        b.law(Law::Opposite(l3, l2), "<= is the complement of >");
        b.law(Law::SameAnswer(l1, k1), "a < b exactly when b > a");
        b.law(Law::SameAnswer(l3, k2), "a > b exactly when b < a");
        let idr = b.push(c(id, &x, &x));
        if !matches!(x.kind, EK::MakeList { .. }) { b.law(Law::Yes(idr), "a value is identical to itself"); } // (each evaluation makes a new list)
        let _ = s1;
        // find and contains use the same equality
        let l: Vec<Expr> = vec![y.clone(), txt("\u{1}never"), y.clone()];
        let f = b.push(e(EK::Eq { left: bx(e(EK::ListFind { list: mk(l.clone()), value: bx(x.clone()) })), right: bx(num(1.0)) }));
        let ct = b.push(e(EK::ListContains { list: mk(vec![txt("\u{1}never"), y.clone()]), value: bx(x.clone()) }));
        b.law(Law::Implies(a1, f), "find finds an equal item");
        b.law(Law::Implies(f, a1), "find finds only equal items");
        b.law(Law::Implies(a1, ct), "contains an equal item");
        b.law(Law::Implies(ct, a1), "contains only when an item is equal");
    }
    // transitivity on scalars
    let (p, q, s) = (g(r.below(nv)), g(r.below(nv)), g(r.below(nv)));
    for x in [e(EK::Min { values: mk(vec![p.clone(), q.clone(), s.clone()]) }), e(EK::Max { values: mk(vec![p, q, s]) })] { b.push(x); }
    let gc = gc_of(r);
    judge_battery(b, seed, gc, cov)
}
/// the same value written differently, or changed in one place
fn twist(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Number(x) => match r.below(4) { 0 => Value::String(cs(&format!("{x}"))), 1 => Value::String(cs(&format!(" {x:?} "))), 2 => Value::Number(*x), _ => Value::Number(x + 1.0) },
        Value::String(s) => match r.below(4) { 0 => Value::String(cs(&s.to_uppercase())), 1 => Value::String(cs(&s.to_lowercase())), 2 => Value::String(s.clone()), _ => Value::String(cs(&format!("{s}a"))) },
        Value::Bool(b) => if r.pct(50) { Value::Bool(*b) } else { Value::String(cs(&b.to_string())) },
        Value::List(xs, _) => { let mut v: Vec<Value> = xs.iter().map(|x| if r.pct(70) { twist(r, x) } else { x.clone() }).collect(); if r.pct(15) { v.pop(); } if r.pct(10) { v.push(Value::Number(1.0)); } Value::List(strip(v), None) }
        v => v.clone(),
    }
}
/// inner declared ids may appear only once
fn strip(v: Vec<Value>) -> Vec<Value> { v.into_iter().map(|x| match x { Value::List(v, _) => Value::List(strip(v), None), x => x }).collect() }

/// join writes numbers of very many digits out in full, everything else uses an exponent
fn one_form(v: &Value) -> bool { match v { Value::Number(x) => x.abs() < 1e15 && (*x == 0.0 || x.abs() > 1e-4), _ => true } }
pub fn c11(cov: &mut Cov, seed: u64, _idx: u64, _t: bool) -> Res {
    let mut r = Rng::new(seed);
    let mut b = Battery::new();
    let mut vs = Vals { next_ref: 0, closed: vec![] };
    let nv = 5;
    for i in 0..nv { let cyc = r.pct(5); let v = if i < 3 { vs.scalar(&mut r, Kind::Text) } else { vs.value(&mut r, Kind::Text, cyc) }; b.globals.push((format!("v{i}"), v)); }
    odd(&mut r, &mut b);
    let r = &mut r;
    let split = |t: Expr, m: TextSplitMode| e(EK::TextSplit { text: bx(t), mode: m });
    for _ in 0..10 {
        let t = |r: &mut Rng| if r.pct(5) { var(global("odd")) } else if r.pct(75) { g(r.below(nv)) } else if r.pct(40) { txt(*r.pick(&["007", "+5", "-0", "5.0", " 5", "5 ", "1e3", "0x1F", "-", "+", ".5", "5.", "00", "--1", "2147483648", "-9223372036854775808", "9007199254740993", "１２", "1_000", "Infinity", "true"])) } else { txt(&random_text(r)) };
        let idx = |r: &mut Rng| match r.below(8) { 0 => num(0.0), 1 => num(numeric(r)), 2 => e(EK::MakeList { values: vec![num(1.0), num(r.range(0, 4) as f64)] }), 3 => g(r.below(nv)), _ => num(r.range(1, 6) as f64) };
        let x = match r.below(12) {
            0 => EK::StrLen { value: bx(t(r)) },
            1 => EK::StrGet { string: bx(t(r)), index: bx(idx(r)) },
            2 => EK::StrGetLast { string: bx(t(r)) },
            3 => EK::StrCat { values: mk((0..r.below(4)).map(|_| t(r)).filter(|x| !format!("{:?}", x.kind).contains("odd")).collect()) },
            4 => EK::UnicodeToChar { value: bx(match r.below(4) { 0 => num(*r.pick(&[0.0, 65.0, 0xd800 as f64, 0xdfff as f64, 0xe000 as f64, 0x10ffff as f64, 0x110000 as f64, -1.0, 1.5, 4294967296.0, 4294967361.0, 1e300, 0x1f44d as f64])), 1 => num(r.below(0x11_1000) as f64), 2 => g(r.below(nv)), _ => e(EK::MakeList { values: vec![num(72.0), num(105.0)] }) }) },
            5 => EK::CharToUnicode { value: bx(t(r)) },
            6 => EK::TextSplit { text: bx(t(r)), mode: TextSplitMode::Letter },
            7 => EK::TextSplit { text: bx(t(r)), mode: TextSplitMode::Word },
            8 => EK::TextSplit { text: bx(t(r)), mode: match r.below(3) { 0 => TextSplitMode::Tab, 1 => TextSplitMode::CR, _ => TextSplitMode::LF } },
            9 | 10 => EK::TextSplit { text: bx(t(r)), mode: TextSplitMode::Custom(bx(match r.below(4) { 0 => t(r), 1 => txt(*r.pick(&["", ",", "a", "\n", "--", "é", " ", "\u{301}", "ab", "👍"])), 2 => e(EK::MakeList { values: vec![txt(","), txt(" ")] }), _ => txt(",") })) },
            _ => EK::ListLines { value: match r.below(4) {
                0 => bx(split(t(r), TextSplitMode::LF)),
                1 => bx(split(t(r), TextSplitMode::Custom(bx(txt(*r.pick(&["", "a", ",", " "])))))),
                2 => bx(t(r)),
                _ => { let n = r.below(6); let items = (0..n).map(|_| match r.below(4) { 0 => txt(""), 1 => txt(*r.pick(&["\n", "a\n", "\na", "\r", "\u{301}"])), 2 => num(numeric(r)), _ => t(r) }).filter(|x| !format!("{:?}", x.kind).contains("odd")).collect(); mk(items) }
            } },
        };
        b.push(e(x));
    }
    for i in 0..3 {
        // letter i is item i of the letters; the length is their number; joined again they are the text
        let letters = split(g(i), TextSplitMode::Letter);
        let all = b.push(letters.clone());
        let l = b.push(e(EK::Identical { left: bx(e(EK::StrLen { value: bx(g(i)) })), right: bx(e(EK::ListLen { value: bx(letters.clone()) })) }));
        b.law(Law::YesIfOk(l, all), "the length of a text is the number of its letters");
        let j = b.push(e(EK::Identical { left: bx(e(EK::StrCat { values: bx(letters.clone()) })), right: bx(e(EK::StrCat { values: mk(vec![g(i)]) })) }));
        if one_form(&b.globals[i].1) { b.law(Law::YesIfOk(j, all), "joining the letters gives the text"); }
        let k = r.range(1, 4) as f64;
        let (p, q) = (b.push(e(EK::StrGet { string: bx(g(i)), index: bx(num(k)) })), b.push(e(EK::ListGet { list: bx(letters), index: bx(num(k)) })));
        b.law(Law::Same(p, q), "letter i of a text is item i of its letters");
        // a custom separator between the pieces restores the text
        let sep = *r.pick(&[",", "a", "\n", " ", "--", "é", "ab", "\t"]);
        let pieces = split(g(i), TextSplitMode::Custom(bx(txt(sep))));
        let ok = b.push(pieces.clone());
        let joined = e(EK::Combine { f: bx(e(EK::Closure { kind: ClosureKind::Reporter, params: vec![mk_def("p"), mk_def("q")], captures: vec![], stmts: vec![bare_stmt(SK::Return { value: bx(e(EK::StrCat { values: mk(vec![var(local("p")), txt(sep), var(local("q"))]) })) })] })), list: bx(pieces) });
        let y = b.push(e(EK::Identical { left: bx(joined), right: bx(e(EK::StrCat { values: mk(vec![g(i)]) })) }));
        if one_form(&b.globals[i].1) { b.law(Law::YesIfOk(y, ok), "joining the pieces with the separator gives the text"); }
        // unicode of and as letter
        let cp = loop { let c = match r.below(3) { 0 => r.below(128) as u32, 1 => r.below(0x3000) as u32, _ => r.below(0x110000) as u32 }; if char::from_u32(c).is_some() { break c as f64; } };
        let y = b.push(e(EK::Identical { left: bx(e(EK::CharToUnicode { value: bx(e(EK::UnicodeToChar { value: bx(num(cp)) })) })), right: bx(num(cp)) }));
        b.law(Law::Yes(y), "unicode of (unicode as letter) gives the code point");
    }
    for bad in [-1.0, 0.5, 1114112.0, 55296.0 + r.below(2048) as f64, 4294967296.0 + r.below(100) as f64] { let i = b.push(e(EK::UnicodeToChar { value: bx(num(bad)) })); b.law(Law::Fails(i), "there is no such code point"); }
    let gc = gc_of(r);
    judge_battery(b, seed, gc, cov)
}

pub fn c12_blocks(cov: &mut Cov, seed: u64) -> Res {
    let mut r = Rng::new(seed);
    let mut b = Battery::new();
    let mut vs = Vals { next_ref: 0, closed: vec![] };
    // tables and nested values
    for i in 0..2 {
        let (rows, cols) = if r.pct(90) { (1 + r.below(3), 1 + r.below(3)) } else { (1 + r.below(20), 1 + r.below(20)) };
        let mut t: Vec<Value> = vec![];
        for _ in 0..rows { let c = (0..cols).map(|_| if r.pct(80) { Value::String(cs(&random_text(&mut r))) } else { Value::Number(numeric(&mut r)) }).collect(); t.push(Value::List(c, None)); }
        // a table of one empty cell has no csv text of its own
        if rows == 1 && cols == 1 { if let Value::List(c, _) = &mut t[0] { c.push(Value::String(cs("z"))); } }
        b.globals.push((format!("v{i}"), Value::List(t, None)));
    }
    for i in 2..6 {
        if i == 5 && r.pct(20) {
            // cells and rows mixed
            let mut t: Vec<Value> = (0..1 + r.below(20)).map(|_| if r.pct(80) { Value::String(cs(&random_text(&mut r))) } else { Value::Number(numeric(&mut r)) }).collect();
            for _ in 0..1 + r.below(2) { let at = r.below(t.len() + 1); t.insert(at, Value::List((0..r.below(3)).map(|_| Value::String(cs(&random_text(&mut r)))).collect(), None)); }
            b.globals.push((format!("v{i}"), Value::List(t, None)));
            continue
        }
        let cyc = r.pct(15); let v = vs.value(&mut r, Kind::Any, cyc); b.globals.push((format!("v{i}"), v));
    }
    for i in 6..9 {
        let t = match r.below(4) {
            0 => random_text(&mut r),
            1 => { let n = r.below(10); (0..n).map(|_| *r.pick(&['"', ',', '\n', 'a', '\r', ' ', '1'])).collect() }
            2 => { let n = r.below(12); (0..n).map(|_| *r.pick(&["[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", "true", "-0", "1e5", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", " ", "\"\\n\""])).collect() }
            _ => r.pick(&["[1,[2,\"x\"],{\"a\":[true]}]", "{}", "[]", "1e999", "-1", "\"\\ud800\"", "[1,]", "nul", "123456789012345678901234567890", "\"é\"", "[null]", "{\"a\":1,\"a\":2}", "tru", "\"a", "[[[[[[1]]]]]]", " [1] ", "1 2", "0x10"]).to_string(),
        };
        b.globals.push((format!("v{i}"), Value::String(cs(&t))));
    }
    odd(&mut r, &mut b);
    let r = &mut r;
    for i in 0..9 {
        b.push(e(EK::ListCsv { value: bx(g(i)) }));
        b.push(e(EK::ListJson { value: bx(g(i)) }));
        b.push(e(EK::TextSplit { text: bx(g(i)), mode: TextSplitMode::Csv }));
        b.push(e(EK::TextSplit { text: bx(g(i)), mode: TextSplitMode::Json }));
    }
    for i in 0..2 {
        let csv = e(EK::ListCsv { value: bx(g(i)) });
        let j = b.push(e(EK::Eq { left: bx(e(EK::TextSplit { text: bx(csv), mode: TextSplitMode::Csv })), right: bx(g(i)) }));
        b.law(Law::Yes(j), "a table survives csv");
        // exactly, not only up to case
        let csv = e(EK::ListCsv { value: bx(g(i)) });
        let (p, q) = (b.push(e(EK::ListJson { value: bx(e(EK::TextSplit { text: bx(csv), mode: TextSplitMode::Csv })) })), b.push(e(EK::ListJson { value: bx(texts_of(&b.globals[i].1)) })));
        b.law(Law::Same(p, q), "a table survives csv, cell by cell");
    }
    for i in 0..6 {
        let json = e(EK::ListJson { value: bx(g(i)) });
        let ok = b.push(json.clone());
        let j = b.push(e(EK::ListJson { value: bx(e(EK::TextSplit { text: bx(json.clone()), mode: TextSplitMode::Json })) }));
        b.law(Law::SameJson(ok, j), "a value survives json");
        let q = b.push(e(EK::Eq { left: bx(e(EK::TextSplit { text: bx(json), mode: TextSplitMode::Json })), right: bx(g(i)) }));
        b.law(Law::YesJson(q, ok), "a value read back from json equals the original");
    }
    let gc = gc_of(r);
    judge_battery(b, seed, gc, cov)
}
/// the table with every cell as text
fn texts_of(v: &Value) -> Expr {
    match v {
        Value::List(xs, _) => e(EK::MakeList { values: xs.iter().map(texts_of).collect() }),
        Value::Number(x) => e(EK::StrCat { values: bx(e(EK::TextSplit { text: bx(num(*x)), mode: TextSplitMode::Letter })) }),
        v => e(EK::Value(v.clone())),
    }
}
