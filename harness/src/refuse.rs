//! C25: constructs the VM does not support are refused by the compiler, wherever in the project they stand; nothing is dropped
//! silently and nothing panics. C02/C04: whatever form block locations have, the location table gives back exactly what was put in.
use crate::check::*;
use crate::progs::*;
use crate::rng::*;
use netsblox_vm::ast::*;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK};
use netsblox_vm::bytecode::{ByteCode, CompileError};
use std::rc::Rc;

fn cs(x: &str) -> CompactString { CompactString::from(x) }
fn lists(s: &mut Vec<Stmt>, out: &mut Vec<*mut Vec<Stmt>>) {
    out.push(s);
    for x in s.iter_mut() {
        match &mut x.kind {
            SK::Warp { stmts } | SK::InfLoop { stmts } | SK::ForeachLoop { stmts, .. } | SK::ForLoop { stmts, .. } | SK::UntilLoop { stmts, .. } | SK::Repeat { stmts, .. } => lists(stmts, out),
            SK::If { then, .. } => lists(then, out),
            SK::IfElse { then, otherwise, .. } => { lists(then, out); lists(otherwise, out); }
            SK::TryCatch { code, handler, .. } => { lists(code, out); lists(handler, out); }
            SK::Say { content, .. } | SK::Think { content, .. } => in_expr(content, out),
            SK::Assign { value, .. } | SK::AddAssign { value, .. } | SK::Return { value } => in_expr(value, out),
            SK::CallFn { args, .. } => for a in args { in_expr(a, out) },
            SK::CallClosure { closure, args, .. } | SK::ForkClosure { closure, args } => { in_expr(closure, out); for a in args { in_expr(a, out) } }
            _ => (),
        }
    }
}
fn in_expr(e: &mut Expr, out: &mut Vec<*mut Vec<Stmt>>) {
    match &mut e.kind {
        EK::Closure { stmts, .. } => lists(stmts, out),
        EK::Add { values } | EK::Mul { values } | EK::StrCat { values } => in_expr(values, out),
        EK::MakeList { values } => for v in values { in_expr(v, out) },
        EK::Map { f, list } | EK::Keep { f, list } | EK::FindFirst { f, list } | EK::Combine { f, list } => { in_expr(f, out); in_expr(list, out) }
        EK::CallClosure { closure, args, .. } => { in_expr(closure, out); for a in args { in_expr(a, out) } }
        EK::CallFn { args, .. } => for a in args { in_expr(a, out) },
        _ => (),
    }
}
/// a place where statements of the project stand (of a script with a hat, of a custom block, inside of loops and rings); its depth is not looked at
fn place<'a>(role: &'a mut Role, r: &mut Rng) -> Option<&'a mut Vec<Stmt>> {
    let mut all: Vec<*mut Vec<Stmt>> = vec![];
    for f in role.funcs.iter_mut() { lists(&mut f.stmts, &mut all); }
    for e in role.entities.iter_mut() {
        for f in e.funcs.iter_mut() { lists(&mut f.stmts, &mut all); }
        for s in e.scripts.iter_mut().filter(|s| s.hat.is_some()) { lists(&mut s.stmts, &mut all); }
    }
    if all.is_empty() { return None; }
    let p = *r.pick(&all);
    // the other pointers are not used again
    Some(unsafe { &mut *p })
}
fn bad_stmt(r: &mut Rng) -> (&'static str, SK) {
    let n = |x: f64| bx(num(x));
    let ub = |name: &str, args: Vec<Expr>| SK::UnknownBlock { name: cs(name), args };
    let nul = |s: &str, r: &mut Rng| -> CompactString { let i = r.below(s.len() + 1); let mut t = s.to_string(); t.insert(i, '\0'); cs(&t) };
    match r.below(14) {
        6 => ("a syscall without its arguments", ub("nativeRunSyscall", vec![txt("open")])),
        7 => ("a syscall of three inputs", ub("nativeRunSyscall", vec![txt("open"), bare(EK::MakeList { values: vec![] }), num(1.0)])),
        8 => ("a syscall without a name", ub("nativeRunSyscall", vec![])),
        9 => ("a null character in a service", SK::CallRpc { host: None, service: nul("Sv", r), rpc: cs("r"), args: vec![] }),
        10 => ("a null character in a procedure", SK::CallRpc { host: None, service: cs("Sv"), rpc: nul("rp", r), args: vec![(cs("a"), num(1.0))] }),
        11 => ("a null character in a host", SK::CallRpc { host: Some(nul("ho", r)), service: cs("Sv"), rpc: cs("r"), args: vec![] }),
        12 => ("a null character in an argument's name", SK::CallRpc { host: None, service: cs("Sv"), rpc: cs("r"), args: vec![(cs("a"), num(1.0)), (nul("b", r), num(1.0))] }),
        13 => ("a null character in a kind of message", SK::SendNetworkMessage { target: bx(txt("t")), msg_type: nul("m", r), values: vec![(cs("a"), num(1.0))] }),
        0 => ("stamp", SK::Stamp), 1 => ("write", SK::Write { content: bx(txt("q")), font_size: n(12.0) }), 2 => ("go to the mouse", SK::GotoMouse),
        3 => ("go to a random place", SK::GotoRandom), 4 => ("bounce off the edge", SK::BounceOffEdge), _ => ("point in a random direction", SK::SetHeadingRandom),
    }
}
fn bad_expr(r: &mut Rng) -> (&'static str, EK) {
    let t = |s: &str| bx(txt(s));
    let this = || bx(bare(EK::This));
    let ty = |ty| EK::TypeQuery { value: Box::new(num(3.0)), ty };
    match r.below(31) {
        25 => ("a null character in a field", EK::NetworkMessageReply { target: t("q"), msg_type: cs("m"), values: vec![(cs("a\0"), num(1.0))] }),
        26 => ("a null character in a service", EK::CallRpc { host: None, service: cs("\0"), rpc: cs("r"), args: vec![] }),
        27 => ("a syscall without its arguments", EK::UnknownBlock { name: cs("nativeCallSyscall"), args: vec![txt("open")] }),
        28 => ("a syscall of three inputs", EK::UnknownBlock { name: cs("nativeCallSyscall"), args: vec![txt("open"), bare(EK::MakeList { values: vec![] }), num(1.0)] }),
        29 => ("a syscall error with an input", EK::UnknownBlock { name: cs("nativeSyscallError"), args: vec![num(1.0)] }),
        30 => ("a reference in the code", EK::Value(Value::Ref(RefId(3)))),
        0 => ("mouse x", EK::MouseX), 1 => ("mouse y", EK::MouseY), 2 => ("stage width", EK::StageWidth), 3 => ("stage height", EK::StageHeight),
        4 => ("latitude", EK::Latitude), 5 => ("longitude", EK::Longitude), 6 => ("key down", EK::KeyDown { key: t("a") }),
        7 => ("image of a sprite", EK::ImageOfEntity { entity: this() }), 8 => ("image of the drawings", EK::ImageOfDrawings),
        9 => ("touching a sprite", EK::IsTouchingEntity { entity: this() }), 10 => ("touching the mouse", EK::IsTouchingMouse), 11 => ("touching the edge", EK::IsTouchingEdge), 12 => ("touching the drawings", EK::IsTouchingDrawings),
        13 => ("costume width", EK::CostumeWidth { costume: t("c") }), 14 => ("costume height", EK::CostumeHeight { costume: t("c") }), 15 => ("costume pixels", EK::CostumePixels { costume: t("c") }),
        16 => ("sound duration", EK::SoundDuration { sound: t("s") }), 17 => ("sound rate", EK::SoundSampleRate { sound: t("s") }), 18 => ("sound samples", EK::SoundSamples { sound: t("s") }),
        19 => ("sound channels", EK::SoundChannelCount { sound: t("s") }),
        20 => ("is it a command ring", ty(ValueType::Command)), 21 => ("is it a reporter ring", ty(ValueType::Reporter)), 22 => ("is it a predicate ring", ty(ValueType::Predicate)),
        23 => ("an image in the code", EK::Value(Value::Image(Rc::new((vec![1, 2], None, cs("i")))))),
        _ => ("a sound in the code", EK::Value(Value::List(vec![Value::Number(1.0), Value::Audio(Rc::new((vec![1, 2], cs("a"))))], None))),
    }
}
/// the unsupported block itself or inside of a supported one
fn wrapped(r: &mut Rng, e: EK) -> Stmt {
    let mut e = bare(e);
    for _ in 0..r.below(4) {
        e = bare(match r.below(9) {
            0 => EK::Add { values: bx(bare(EK::MakeList { values: vec![num(1.0), e] })) },
            1 => EK::Not { value: bx(e) },
            2 => EK::Conditional { condition: bx(bare(EK::Value(Value::Bool(true)))), then: bx(num(1.0)), otherwise: bx(e) },
            3 => EK::Map { f: bx(bare(EK::Closure { kind: ClosureKind::Reporter, params: vec![], captures: vec![], stmts: vec![bare_stmt(SK::Return { value: bx(e) })] })), list: bx(bare(EK::MakeList { values: vec![] })) },
            4 => EK::MakeList { values: vec![num(1.0), e, num(2.0)] },
            5 => EK::ListGet { list: bx(bare(EK::MakeList { values: vec![num(1.0)] })), index: bx(e) },
            6 => EK::Eq { left: bx(num(1.0)), right: bx(e) },
            7 => EK::CallRpc { host: None, service: cs("S"), rpc: cs("r"), args: vec![(cs("a"), e)] },
            _ => EK::TextSplit { text: bx(txt("a,b")), mode: TextSplitMode::Custom(bx(e)) },
        });
    }
    bare_stmt(match r.below(7) {
        0 => SK::Say { content: bx(e), duration: None },
        1 => SK::Throw { error: bx(e) },
        2 => SK::If { condition: bx(bare(EK::Value(Value::Bool(false)))), then: vec![bare_stmt(SK::Think { content: bx(e), duration: None })] },
        3 => SK::Repeat { times: bx(e), stmts: vec![] },
        4 => SK::SendLocalMessage { target: None, msg_type: bx(e), wait: false },
        5 => SK::SetX { value: bx(e) },
        _ => SK::UnknownBlock { name: cs("u"), args: vec![num(0.0), e] },
    })
}
fn kind(e: &CompileError) -> &'static str {
    match e {
        CompileError::UnsupportedStmt { .. } => "a statement", CompileError::UnsupportedExpr { .. } => "an expression", CompileError::UnsupportedEvent { .. } => "an event",
        CompileError::BadKeycode { .. } => "a key", CompileError::InvalidLocation { .. } => "a location", CompileError::UndefinedRef { .. } => "a reference", CompileError::InvalidBlock { .. } => "a block of the wrong form", _ => "something else",
    }
}

pub fn refusals(cov: &mut Cov, seed: u64) -> Res {
    let mut r = Rng::new(seed ^ 0x4ef5);
    let case = case(r.next(), GenCfg { budget: *r.pick(&[15, 40, 80]), ..GenCfg::base() });
    let mut role: Role = case.role.clone();
    match ByteCode::compile(&role) { Ok(_) => cov.add("supported projects compiled", 1), Err(e) => return Res::Violation(format!("a project of supported blocks is refused: {e:?}").chars().take(600).collect()) }
    let at = r.below(role.entities.len());
    let hat = |k: HK| Script { hat: Some(Box::new(Hat { kind: k, info: BlockInfo::none() })), stmts: vec![bare_stmt(SK::Say { content: bx(num(1.0)), duration: None })] };
    let (what, must): (String, bool) = match r.below(10) {
        0..=2 => { let (w, s) = bad_stmt(&mut r); let Some(p) = place(&mut role, &mut r) else { return Res::Inconclusive("no place for a block".into()) }; let i = r.below(p.len() + 1); p.insert(i, bare_stmt(s)); (w.into(), true) }
        3..=6 => { let (w, e) = bad_expr(&mut r); let s = wrapped(&mut r, e); let Some(p) = place(&mut role, &mut r) else { return Res::Inconclusive("no place for a block".into()) }; let i = r.below(p.len() + 1); p.insert(i, s); (w.into(), true) }
        7 => {
            let (w, k) = match r.below(9) { 0 => ("mouse down", HK::MouseDown), 1 => ("mouse up", HK::MouseUp), 2 => ("mouse enter", HK::MouseEnter), 3 => ("mouse leave", HK::MouseLeave), 4 => ("scroll up", HK::ScrollUp), 5 => ("scroll down", HK::ScrollDown), 6 => ("dropped", HK::Dropped), 7 => ("stopped", HK::Stopped), _ => ("when", HK::When { condition: bx(bare(EK::Value(Value::Bool(true)))) }) };
            let scripts = &mut role.entities[at].scripts; let i = r.below(scripts.len() + 1); scripts.insert(i, hat(k)); (format!("a script started by {w}"), true)
        }
        8 => {
            let k = *r.pick(&["", "up", "ab", "space ", "any", "F1", "\u{1F600}x", "enterr", "  "]);
            let scripts = &mut role.entities[at].scripts; let i = r.below(scripts.len() + 1); scripts.insert(i, hat(HK::OnKey { key: cs(k) })); (format!("a script started by the key {k:?}"), true)
        }
        _ => {
            // references nobody defines, within the initial values
            let v = Value::Ref(RefId(1 << 40));
            let v = match r.below(3) { 0 => v, 1 => Value::List(vec![Value::Number(1.0), v], None), _ => Value::List(vec![Value::List(vec![v], Some(RefId(77777)))], Some(RefId(77778))) };
            let d = VariableDefInit { def: mk_def("u\u{1}ndef"), init: v };
            if r.pct(50) { role.globals.push(d); } else { role.entities[at].fields.push(d); }
            ("a value nobody defines".into(), true)
        }
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match ByteCode::compile(&role) { Ok(_) => None, Err(e) => { let _ = format!("{e:?}"); Some(kind(&e)) } }));
    match res {
        Err(_) => Res::Violation(format!("the compiler panics at {what}: {}", LAST.lock().map(|x| x.clone()).unwrap_or_default())),
        Ok(None) if must => Res::Violation(format!("the compiler accepts {what}, which the VM does not support")),
        Ok(None) => Res::Ok,
        Ok(Some(k)) => { cov.add(&format!("refused because of {k}"), 1); cov.distinct(hash2(hash_str(&what), role.entities.len() as u64)); Res::Ok }
    }
}

/// every block gets a location of some form; either the table is refused, or each lookup gives one of them, and each of the blocks which can fail is found
pub fn locations(cov: &mut Cov, seed: u64) -> Res {
    let mut r = Rng::new(seed ^ 0x10c5);
    let most = *r.pick(&[3, 10, 60]); let n = 1 + r.below(most);
    let pre = *r.pick(&["", "x", "item_", "a b ", "\u{e9}\u{4e16}", "--", "_", "0x", "\0", "+"]);
    let sep = *r.pick(&["_", ":", " ", "\u{2192}", ", ", "\0", "."]);
    let suf = *r.pick(&["", "", "", "!", ")", "\u{e9}", " end"]);
    let range = r.below(6);
    let parts = 1 + r.below(3);
    let odd = r.pct(25);
    let mut texts: Vec<String> = vec![];
    for _ in 0..n {
        let mut t = pre.to_string();
        let k = if r.pct(20) { 1 + r.below(4) } else { parts };
        for j in 0..k {
            if j > 0 { t.push_str(sep); }
            let v: i128 = match range { 0 => r.below(10) as i128, 1 => r.below(100000) as i128 - 50, 2 => r.next() as i64 as i128, 3 => *r.pick(&[isize::MIN as i128, isize::MAX as i128, 0, -1, 1]), 4 => *r.pick(&[isize::MAX as i128, isize::MAX as i128 - 1, 5]), _ => *r.pick(&[127, 128, 16383, 16384, 16382, 129, 126]) };
            t.push_str(&v.to_string());
        }
        t.push_str(suf);
        if odd && r.pct(15) {
            t = match r.below(12) {
                0 => String::new(), 1 => pre.into(), 2 => format!("{pre}007"), 3 => format!("{pre}-0"), 4 => format!("{pre}--5"), 5 => format!("{pre}9223372036854775808"), 6 => format!("{pre}1{sep}"), 7 => format!("{pre}1{sep}{sep}2"),
                8 => format!("{pre}1;2{suf}"), 9 => "\u{1F600}".into(), 10 => format!("{pre}1-2"), _ => format!("{}1", suf),
            };
        }
        texts.push(t);
    }
    let fail = |t: &str, i: usize| Stmt { kind: SK::Say { content: bx(Expr { kind: EK::Neg { value: bx(txt("x")) }, info: BlockInfo::none() }), duration: if i % 5 == 0 { Some(bx(num(0.0))) } else { None } }, info: Box::new(BlockInfo { comment: None, location: Some(cs(t)) }) };
    let base = case(r.next(), GenCfg { located: 0, budget: 10, ..GenCfg::base() });
    let mut role: Role = base.role.clone();
    let at = r.below(role.entities.len());
    role.entities[at].scripts.push(Script { hat: Some(Box::new(Hat { kind: HK::OnFlag, info: BlockInfo::none() })), stmts: texts.iter().enumerate().map(|(i, t)| fail(t, i)).collect() });
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match ByteCode::compile(&role) {
        Ok((code, _, locs, _)) => {
            let size = code.total_size();
            let mut seen: Vec<String> = vec![];
            for pos in 0..size + 8 { if let Some(l) = locs.lookup(pos) { if seen.last().map(|x| x.as_str()) != Some(&*l) { seen.push(l.to_string()); } } }
            Ok(seen)
        }
        Err(CompileError::InvalidLocation { loc }) => Err(Ok(loc.to_string())),
        Err(e) => Err(Err(format!("{e:?}"))),
    }));
    let mut want = texts.clone();
    want.dedup();
    match res {
        Err(_) => Res::Violation(format!("the compiler panics at the locations {texts:?}: {}", LAST.lock().map(|x| x.clone()).unwrap_or_default())),
        Ok(Err(Err(e))) => Res::Violation(format!("locations {texts:?}: {e}")),
        Ok(Err(Ok(l))) => if texts.contains(&l) { cov.add("location forms refused", 1); Res::Ok } else { Res::Violation(format!("the location named as invalid, {l:?}, is none of the project's: {texts:?}")) },
        Ok(Ok(seen)) if seen == want => { cov.add("locations given back", seen.len() as u64); cov.distinct(hash_str(&seen.join(";"))); Res::Ok }
        Ok(Ok(seen)) => Res::Violation(format!("the blocks are at {want:?}, the table says {seen:?}")),
    }
}
