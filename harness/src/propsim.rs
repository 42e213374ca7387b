//! Sprite properties (C21): every transition of the real `Properties`, reached through blocks and directly, against a reference.
use crate::check::*;
use crate::host::*;
use crate::model::*;
use crate::mval;
use crate::progs::*;
use crate::rng::*;
use crate::run::*;
use crate::sys::{completion, RKey, Sys, C};
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK};
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::runtime::{Color, Number, Properties, Property};

fn cs(s: &str) -> CompactString { CompactString::new(s) }
fn e(k: EK) -> Expr { bare(k) }

const PROPS: [Property; 24] = {
    use Property::*;
    [XPos, YPos, Heading, Size, PenSize, PenColorH, PenColorS, PenColorV, PenColorT, Tempo, Volume, Balance, ColorH, ColorS, ColorV, ColorT, Fisheye, Whirl, Pixelate, Mosaic, Negative, Visible, PenDown, PenColor]
};
const COLOR: usize = 23;
/// the stored properties: 21 numbers and 2 booleans, in the order of `PROPS`
#[derive(Clone, Debug)]
struct St { n: [f64; 21], b: [bool; 2] }
impl St {
    fn read(p: &Properties) -> St {
        let f = &p.effects;
        St { n: [p.pos.0, p.pos.1, p.heading, p.size, p.pen_size, p.pen_color_h, p.pen_color_s, p.pen_color_v, p.pen_color_t, p.tempo, p.volume, p.balance, f.color_h, f.color_s, f.color_v, f.color_t, f.fisheye, f.whirl, f.pixelate, f.mosaic, f.negative].map(|x| x.get()), b: [p.visible, p.pen_down] }
    }
}
/// what a property of that index does with a number outside of its range
#[derive(Clone, Copy, PartialEq)]
enum Rng_ { Free, Circle, Percent, NotNegative }
fn range(i: usize) -> Rng_ { match i { 2 | 5 | 12 => Rng_::Circle, 6..=8 | 13..=15 => Rng_::Percent, 3 | 4 => Rng_::NotNegative, _ => Rng_::Free } }
fn fit(i: usize, x: f64) -> Option<f64> {
    if !x.is_finite() { return None; }
    Some(match range(i) { Rng_::Free => x, Rng_::Circle => x.rem_euclid(360.0), Rng_::Percent => if x < 0.0 { 0.0 } else if x > 100.0 { 100.0 } else { x }, Rng_::NotNegative => if x < 0.0 { 0.0 } else { x } })
}
#[derive(Clone, Debug)]
enum A { Num(f64), Bool(bool), Text(String), List }
impl A {
    fn num(&self) -> Option<f64> { match self { A::Num(x) => Some(*x), A::Text(t) => mval::parse_num(t).filter(|x| x.is_finite()), _ => None } }
    fn expr(&self) -> Expr { match self { A::Num(x) => num(*x), A::Bool(b) => e(EK::Value(Value::Bool(*b))), A::Text(t) => txt(t), A::List => e(EK::MakeList { values: vec![num(1.0)] }) } }
}
#[derive(Clone, Debug)]
enum Op { Set(usize, A), Change(usize, A), Clear, Goto(A, A), Point(A, A), Forward(A) }

/// hue, saturation, brightness and transparency of a colour, from its definition
fn hsvt(c: u32) -> [f64; 4] {
    let [a, r, g, b] = c.to_be_bytes().map(|x| x as f64 / 255.0);
    let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
    let d = mx - mn;
    let h = if d == 0.0 { 0.0 } else if mx == r { 60.0 * ((g - b) / d).rem_euclid(6.0) } else if mx == g { 60.0 * ((b - r) / d + 2.0) } else { 60.0 * ((r - g) / d + 4.0) };
    [h, if mx == 0.0 { 0.0 } else { 100.0 * d / mx }, 100.0 * mx, 100.0 * (1.0 - a)]
}
/// channels (0-255, not rounded) of a colour given by hue, saturation, brightness and transparency
fn channels(h: f64, s: f64, v: f64, t: f64) -> [f64; 4] {
    let (s, v, t) = (s.clamp(0.0, 100.0) / 100.0, v.clamp(0.0, 100.0) / 100.0, t.clamp(0.0, 100.0) / 100.0);
    let f = |n: f64| { let k = (n + h.rem_euclid(360.0) / 60.0).rem_euclid(6.0); 255.0 * (v - v * s * k.min(4.0 - k).clamp(0.0, 1.0)) };
    [255.0 * (1.0 - t), f(5.0), f(3.0), f(1.0)]
}
/// the states and the outcome after an operation; `scale`: how far off the numbers may be
fn step(s: &St, op: &Op) -> Result<(St, [f64; 21]), ()> {
    let mut n = s.clone();
    let mut tol = [0.0; 21];
    let near = |x: f64| 1e-9 * (1.0 + x.abs());
    let set = |n: &mut St, tol: &mut [f64; 21], i: usize, raw: f64| -> Result<(), ()> { n.n[i] = fit(i, raw).ok_or(())?; tol[i] = if range(i) == Rng_::Circle { 1e-9 + raw.abs() * 1e-15 } else { near(raw) * 1e-3 }; Ok(()) };
    match op {
        Op::Set(i, a) | Op::Change(i, a) if *i == 21 || *i == 22 => { let A::Bool(b) = a else { return Err(()) }; let k = i - 21; n.b[k] = if let Op::Set(..) = op { *b } else { n.b[k] ^ *b }; }
        Op::Set(COLOR, a) => { let c = a.num().ok_or(())?; let k = hsvt(c as u32); for j in 0..4 { n.n[5 + j] = k[j]; tol[5 + j] = 2e-3; } }
        Op::Change(COLOR, _) => return Err(()),
        Op::Set(i, a) => { let x = a.num().ok_or(())?; set(&mut n, &mut tol, *i, x)?; }
        Op::Change(i, a) => { let x = a.num().ok_or(())?; let y = s.n[*i] + x; set(&mut n, &mut tol, *i, y)?; }
        Op::Clear => n.n[12..21].fill(0.0),
        Op::Goto(a, b) => { n.n[0] = a.num().ok_or(())?; n.n[1] = b.num().ok_or(())?; }
        Op::Point(a, b) => {
            let (dx, dy) = (a.num().ok_or(())? - s.n[0], b.num().ok_or(())? - s.n[1]);
            let h = dx.atan2(dy).to_degrees();
            if !h.is_finite() { return Err(()); }
            n.n[2] = h.rem_euclid(360.0); tol[2] = 1e-9;
        }
        Op::Forward(a) => {
            let d = a.num().ok_or(())?;
            let h = s.n[2].to_radians();
            let (x, y) = (s.n[0] + h.sin() * d, s.n[1] + h.cos() * d);
            if !x.is_finite() || !y.is_finite() { return Err(()); }
            n.n[0] = x; n.n[1] = y;
            for i in 0..2 { tol[i] = 1e-9 * (1.0 + d.abs() + s.n[i].abs()); }
        }
    }
    Ok((n, tol))
}
fn close(i: usize, want: f64, got: f64, tol: f64) -> bool {
    let d = (want - got).abs();
    if range(i) == Rng_::Circle { d.min((360.0 - d).abs()) <= tol } else { d <= tol }
}
fn in_range(i: usize, x: f64) -> bool { match range(i) { Rng_::Free => x.is_finite(), Rng_::Circle => (0.0..360.0).contains(&x), Rng_::Percent => (0.0..=100.0).contains(&x), Rng_::NotNegative => x >= 0.0 && x.is_finite() } }
/// checks one observed state; the colour is checked when it was observed
fn agree(want: &St, tol: &[f64; 21], got: &St, what: &str) -> Option<String> {
    for i in 0..21 {
        if !in_range(i, got.n[i]) { return Some(format!("{what}: {:?} is {:?}, out of its range", PROPS[i], got.n[i])); }
        if !close(i, want.n[i], got.n[i], tol[i]) { return Some(format!("{what}: {:?} expected {:?} observed {:?}", PROPS[i], want.n[i], got.n[i])); }
    }
    for i in 0..2 { if want.b[i] != got.b[i] { return Some(format!("{what}: {:?} expected {} observed {}", PROPS[21 + i], want.b[i], got.b[i])); } }
    None
}
/// the colour read from a state: up to one step per channel, and exactly the one which was set
fn color_ok(s: &St, got: f64, exact: Option<u32>, what: &str) -> Option<String> {
    if got != got.trunc() || !(0.0..4294967296.0).contains(&got) { return Some(format!("{what}: the colour is {got:?}")); }
    if let Some(c) = exact { if c as f64 != got { return Some(format!("{what}: the colour set is {c:#010x}, the one read {:#010x}", got as u32)); } return None; }
    let w = channels(s.n[5], s.n[6], s.n[7], s.n[8]);
    for (w, g) in w.iter().zip((got as u32).to_be_bytes()) { if (w - g as f64).abs() > 0.501 { return Some(format!("{what}: colour {:#010x} where hue {} saturation {} brightness {} transparency {} make {w:?}", got as u32, s.n[5], s.n[6], s.n[7], s.n[8])); } }
    None
}
fn amount(r: &mut Rng) -> A {
    match r.below(20) {
        0..=5 => A::Num(r.range(-400, 800) as f64),
        6..=8 => A::Num((r.f01() - 0.5) * 300.0),
        9 | 10 => A::Num(*r.pick(&[0.0, 90.0, 180.0, 270.0, 360.0, -90.0, 720.0, 100.0, 99.5, -0.5, 100.5, 359.99, 45.0])),
        11 => A::Num(*r.pick(&[1e-14, -1e-14, -1e-20, 1e10, -1e10, 5e-324, -5e-324, 0.1, 0.2, 0.3, -0.3])),
        12 => A::Num(*r.pick(&[1e15, -1e15, 1e300, -1e300, f64::MAX, f64::MIN, 1e308])),
        13..=15 => A::Num(*r.pick(&[0.1, 0.2, 0.3, -0.1, -0.2, -0.3, 10.0, -10.0, 0.7, -0.7])),
        16 => A::Text(format!("{}", r.range(-400, 800))),
        17 => A::Text(r.pick(&[" 12 ", "-7.5", "1e2", "0x10"]).to_string()),
        18 => match r.below(4) { 0 => A::Text(r.pick(&["", "abc", "--1", "NaN", "inf"]).to_string()), 1 => A::Bool(true), 2 => A::Bool(false), _ => A::List },
        _ => A::Num(r.below(361) as f64),
    }
}
fn color(r: &mut Rng) -> u32 { match r.below(4) { 0 => u32::from_be_bytes([255, r.next() as u8, r.next() as u8, r.next() as u8]), 1 => { let g = r.next() as u8; u32::from_be_bytes([r.next() as u8, g, g, g]) } 2 => { let x = r.pick(&[0u8, 255, 1, 254, 128]).clone(); let y = *r.pick(&[0u8, 255, 1, 254, 127]); let z = r.next() as u8; u32::from_be_bytes([255, x, y, z]).rotate_left(0) } _ => r.next() as u32 } }
/// operations that have a block, or any
fn op(r: &mut Rng, blocks: bool) -> Op {
    match r.below(12) {
        0..=4 if blocks => { let i = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 15, 16, 17, 18, 19, 20]); let a = amount(r); if r.pct(40) { Op::Set(i, a) } else { Op::Change(i, a) } }
        0..=4 => { let i = r.below(24); let a = if i == COLOR && r.pct(80) { A::Num(color(r) as f64) } else { match i { 21 | 22 if r.pct(70) => A::Bool(r.pct(50)), _ => amount(r) } }; if r.pct(50) { Op::Set(i, a) } else { Op::Change(i, a) } }
        5 => Op::Set(COLOR, A::Num(color(r) as f64)),
        6 => { let i = 21 + r.below(2); Op::Set(i, A::Bool(r.pct(50))) }
        7 => if r.pct(30) { Op::Clear } else { Op::Change(2, amount(r)) },
        8 => Op::Goto(amount(r), amount(r)),
        9 => Op::Point(amount(r), amount(r)),
        _ => Op::Forward(amount(r)),
    }
}
fn stmt(r: &mut Rng, op: &Op) -> Stmt {
    let pair = |a: &A, b: &A| bx(e(EK::MakeList { values: vec![a.expr(), b.expr()] }));
    let eff = |i: usize| { use EffectKind::*; match i { 12 => Color, 13 => Saturation, 14 => Brightness, 15 => Ghost, 16 => Fisheye, 17 => Whirl, 18 => Pixelate, 19 => Mosaic, _ => Negative } };
    let attr = |i: usize| { use PenAttribute::*; match i { 4 => Size, 5 => Hue, 6 => Saturation, 7 => Brightness, _ => Transparency } };
    bare_stmt(match op {
        Op::Set(i, a) => { let v = bx(a.expr()); match i {
            0 => SK::SetX { value: v }, 1 => SK::SetY { value: v }, 2 => SK::SetHeading { value: v }, 3 => SK::SetSize { value: v },
            4 => if r.pct(50) { SK::SetPenSize { value: v } } else { SK::SetPenAttr { attr: attr(4), value: v } },
            5..=8 => SK::SetPenAttr { attr: attr(*i), value: v },
            21 => SK::SetVisible { value: matches!(a, A::Bool(true)) }, 22 => SK::SetPenDown { value: matches!(a, A::Bool(true)) },
            23 => { let [q, r, g, b] = (a.num().unwrap() as u32).to_be_bytes(); SK::SetPenColor { color: (r, g, b, q) } }
            _ => SK::SetEffect { kind: eff(*i), value: v },
        } }
        Op::Change(i, a) => { let v = bx(a.expr()); match i {
            0 => SK::ChangeX { delta: v }, 1 => SK::ChangeY { delta: v },
            2 => match a { A::Num(x) if r.pct(50) => SK::TurnLeft { angle: bx(num(-x)) }, A::Text(_) | A::Bool(_) | A::List if mval::parse_num(match a { A::Text(t) => t, _ => "" }).is_none() && r.pct(50) => SK::TurnLeft { angle: v }, _ => SK::TurnRight { angle: v } },
            3 => SK::ChangeSize { delta: v },
            4 => if r.pct(50) { SK::ChangePenSize { delta: v } } else { SK::ChangePenAttr { attr: attr(4), delta: v } },
            5..=8 => SK::ChangePenAttr { attr: attr(*i), delta: v },
            _ => SK::ChangeEffect { kind: eff(*i), delta: v },
        } }
        Op::Clear => SK::ClearEffects,
        Op::Goto(a, b) => if r.pct(60) { SK::GotoXY { x: bx(a.expr()), y: bx(b.expr()) } } else { SK::Goto { target: pair(a, b) } },
        Op::Point(a, b) => if r.pct(60) { SK::PointTowardsXY { x: bx(a.expr()), y: bx(b.expr()) } } else { SK::PointTowards { target: pair(a, b) } },
        Op::Forward(a) => SK::Forward { distance: bx(a.expr()) },
    })
}
/// the properties that blocks can read, in a fixed order
fn reads() -> Vec<(usize, Expr)> {
    use EffectKind::*;
    use PenAttribute as P;
    let ef = |k| e(EK::Effect { kind: k });
    let pa = |k| e(EK::PenAttr { attr: k });
    vec![(0, e(EK::XPos)), (1, e(EK::YPos)), (2, e(EK::Heading)), (3, e(EK::Size)), (4, pa(P::Size)), (5, pa(P::Hue)), (6, pa(P::Saturation)), (7, pa(P::Brightness)), (8, pa(P::Transparency)),
        (12, ef(Color)), (13, ef(Saturation)), (14, ef(Brightness)), (15, ef(Ghost)), (16, ef(Fisheye)), (17, ef(Whirl)), (18, ef(Pixelate)), (19, ef(Mosaic)), (20, ef(Negative)), (21, e(EK::IsVisible)), (22, e(EK::PenDown))]
}
fn say(tag: &str) -> Stmt { bare_stmt(SK::Say { content: bx(e(EK::MakeList { values: std::iter::once(txt(tag)).chain(reads().into_iter().map(|x| x.1)).collect() })), duration: None }) }
fn script(r: &mut Rng, ops: &[Op], clone_at: Option<usize>) -> Vec<Stmt> {
    let mut out = vec![say("0")];
    for (i, o) in ops.iter().enumerate() {
        if clone_at == Some(i) { out.push(bare_stmt(SK::Clone { target: bx(e(EK::This)) })); }
        out.push(bare_stmt(SK::TryCatch { code: vec![stmt(r, o), say("ok")], var: local("err"), handler: vec![say("!!")] }));
    }
    out
}

fn blocks(cov: &mut Cov, seed: u64) -> Res {
    let r = &mut Rng::new(seed ^ 0x21);
    let flag = |k: HK| Some(Box::new(Hat { kind: k, info: BlockInfo::none() }));
    let n = r.below(3) + 1;
    let mut ents = vec![];
    let mut plans: Vec<(String, St, Vec<Op>, Option<usize>, Vec<Op>)> = vec![];
    for i in 0..=n {
        let name = if i == 0 { "Stage".to_string() } else { format!("s{i}") };
        let k = r.below(9) + 1;
        let ops: Vec<Op> = (0..k).map(|_| op(r, true)).collect();
        let at = if i > 0 && r.pct(40) { Some(r.below(ops.len())) } else { None };
        let cops: Vec<Op> = if at.is_some() { (0..r.below(5)).map(|_| op(r, true)).collect() } else { vec![] };
        let mut scripts = vec![ast::Script { hat: flag(HK::OnFlag), stmts: script(r, &ops, at) }];
        if at.is_some() { scripts.push(ast::Script { hat: flag(HK::OnClone), stmts: script(r, &cops, None) }); }
        let c = color(r);
        let [a, cr, cg, cb] = c.to_be_bytes();
        let (pos, heading, scale, visible) = if r.pct(50) { ((0.0, 0.0), 90.0, 1.0, true) } else { (((r.range(-200, 200)) as f64, r.range(-200, 200) as f64), if r.pct(30) { r.range(-800, 800) as f64 / 2.0 } else if r.pct(8) { *r.pick(&[-1e-20, -1e-300, -0.0, -360.0, 1e-20, -1e-14]) } else { r.below(360) as f64 }, r.below(40) as f64 / 8.0, r.pct(50)) };
        let k = hsvt(c);
        let mut st = St { n: [0.0; 21], b: [visible, false] };
        st.n[0] = pos.0; st.n[1] = pos.1; st.n[2] = match heading.rem_euclid(360.0) { h if h < 360.0 => h, _ => 0.0 }; st.n[3] = scale * 100.0; st.n[4] = 1.0; st.n[9] = 60.0; st.n[10] = 100.0;
        for j in 0..4 { st.n[5 + j] = k[j]; }
        plans.push((name.clone(), st, ops, at, cops));
        ents.push(Entity { name: cs(&name), trans_name: cs(&name), fields: vec![], costumes: vec![], sounds: vec![], funcs: vec![], scripts, active_costume: None, visible, color: (cr, cg, cb, a), pos, heading, scale });
    }
    let role: &'static Role = Box::leak(Box::new(Role { name: cs("role"), notes: cs(""), stage_size: (480, 360), globals: vec![], funcs: vec![], entities: ents }));
    let mut host = HostCfg::calm(seed);
    host.live = true;
    if r.pct(30) { host.delay_pct = 20; host.max_delay = 2; }
    let case = Case { role, plan: vec![(0, PlanInput::Start)], host, mcfg: ModelCfg { turn_cap: 100_000, ..Default::default() }, gc: GcMode::Debt, reload: r.pct(20), layers: None, manual: None };
    let v = match run_vm(&case, 3_000_000) { Ok(v) => v, Err(e) => return Res::Violation(format!("refused by the compiler: {e}")) };
    if let Some(b) = v.broken.first() { return Res::Violation(b.clone()); }
    if v.end != VEnd::Idle { return Res::Violation(format!("the run ended with {:?}", v.end)); }
    for (name, init, ops, at, cops) in &plans {
        let orig = v.said.iter().find(|x| x.2 == *name && x.1.is_none()).map(|x| x.0);
        let Some(orig) = orig else { return Res::Violation(format!("{name} said nothing")) };
        let mut start = init.clone();
        for (ops, clone) in [(ops, false), (cops, true)] {
            if clone && at.is_none() { continue; }
            let said: Vec<&Vec<HVal>> = v.said.iter().filter(|x| if clone { x.1 == Some(orig) } else { x.0 == orig }).map(|x| &x.3).collect();
            if said.len() != ops.len() + 1 { return Res::Violation(format!("{name}: {} reports for {} operations", said.len(), ops.len())); }
            let mut st = start.clone();
            let mut tol = [2e-3; 21];
            if clone { tol = [0.0; 21]; }
            let mut from = st.clone();
            let mut cloned = None;
            for (i, s) in said.iter().enumerate() {
                let what = if i == 0 { format!("{name} at first") } else { format!("{name} after {:?} on {:?}", ops[i - 1], from) };
                let mut outcome = "0";
                if i > 0 {
                    if *at == Some(i - 1) && !clone { cloned = Some(st.clone()); }
                    from = st.clone();
                    match step(&st, &ops[i - 1]) { Ok((n, t)) => { st = n; tol = t; outcome = "ok"; } Err(()) => { tol = [0.0; 21]; outcome = "!!"; } }
                }
                if s[0] != HVal::Text(outcome.into()) { return Res::Violation(format!("{what}: ended as {:?} instead of {outcome}", s[0])); }
                // what blocks cannot read is taken as expected
                let mut got = st.clone();
                for ((k, _), v) in reads().iter().zip(&s[1..]) {
                    match v { HVal::Num(x) if *k < 21 => got.n[*k] = *x, HVal::Bool(b) if *k >= 21 => got.b[*k - 21] = *b, _ => return Res::Violation(format!("{what}: {:?} reads as {v:?}", PROPS[*k])) }
                }
                if let Some(m) = agree(&st, &tol, &got, &what) { return Res::Violation(m); }
                cov.distinct(hash2(hash_str(&format!("{got:?}")), hash_str(&format!("{from:?}"))));
                cov.add(match outcome { "ok" => "block updates checked", "!!" => "block updates refused", _ => "initial states checked" }, 1);
                st = got;
            }
            if clone { cov.add("clones checked", 1); }
            if let Some(c) = cloned { start = c; }
        }
    }
    cov.sample(|| plans.iter().map(|p| format!("{}: {:?}", p.0, p.2)).collect::<Vec<_>>().join("; "));
    Res::Ok
}
fn vm_value(a: &A) -> netsblox_vm::runtime::Value<'static, C, Sys> {
    use netsblox_vm::runtime::Value as V;
    match a { A::Num(x) => V::Number(Number::new(*x).unwrap()), A::Bool(b) => V::Bool(*b), A::Text(t) => V::Text(t.as_str().into()), A::List => V::Native(std::rc::Rc::new(crate::sys::Nat(1))) }
}
/// the public functions of `Properties`, in any order
fn direct(cov: &mut Cov, seed: u64) -> Res {
    let r = &mut Rng::new(seed ^ 0x2121);
    let mut p = Properties::default();
    let mut seq = 0;
    let mut exact: Option<u32> = None;
    for _ in 0..60 {
        let o = op(r, false);
        let o = match o { Op::Goto(a, b) if a.num().is_none() || b.num().is_none() => continue, Op::Point(a, b) if a.num().is_none() || b.num().is_none() => continue, Op::Forward(a) if a.num().is_none() => continue, o => o };
        let before = St::read(&p);
        seq += 1;
        let k = RKey(seq);
        let nn = |a: &A| Number::new(a.num().unwrap()).unwrap();
        match &o {
            Op::Set(i, a) => { p.perform_set_property::<C, Sys>(k, PROPS[*i], vm_value(a)); }
            Op::Change(i, a) => { p.perform_change_property::<C, Sys>(k, PROPS[*i], vm_value(a)); }
            Op::Clear => { p.perform_clear_effects::<C, Sys>(k); }
            Op::Goto(a, b) => { p.perform_goto_xy::<C, Sys>(k, nn(a), nn(b)); }
            Op::Point(a, b) => { p.perform_point_towards_xy::<C, Sys>(k, nn(a), nn(b)); }
            Op::Forward(a) => { p.perform_forward::<C, Sys>(k, nn(a)); }
        }
        let what = format!("{o:?} on {before:?}");
        let done = match completion(seq) { Ok(x) => x, Err(m) => return Res::Violation(format!("{what}: {m}")) };
        let after = St::read(&p);
        let (want, tol) = match step(&before, &o) { Ok(x) => { if done.is_err() { return Res::Violation(format!("{what}: refused with {done:?}")); } x } Err(()) => { if done.is_ok() { return Res::Violation(format!("{what}: accepted")); } (before.clone(), [0.0; 21]) } };
        if let Some(m) = agree(&want, &tol, &after, &what) { return Res::Violation(m); }
        match &o { Op::Set(COLOR, a) if done.is_ok() => exact = a.num().map(|x| x as u32), Op::Set(5..=8, _) | Op::Change(5..=8, _) => exact = None, _ => () }
        // reading returns what is stored and changes nothing
        for i in 0..24 {
            if !r.pct(20) && i != COLOR { continue; }
            seq += 1;
            p.perform_get_property::<C, Sys>(RKey(seq), PROPS[i]);
            let got = match completion(seq) { Ok(Ok(Some(x))) => x, x => return Res::Violation(format!("{what}: reading {:?} gave {x:?}", PROPS[i])) };
            let ok = match &got { HVal::Bool(b) if i == 21 || i == 22 => *b == after.b[i - 21], HVal::Num(x) if i == COLOR => { if let Some(m) = color_ok(&after, *x, exact, &what) { return Res::Violation(m); } true } HVal::Num(x) if i < 21 => *x == after.n[i], _ => false };
            if !ok { return Res::Violation(format!("{what}: {:?} reads as {got:?} of {after:?}", PROPS[i])); }
            cov.add("reads checked", 1);
        }
        if let Some(m) = agree(&after, &[0.0; 21], &St::read(&p), "after reading") { return Res::Violation(m); }
        // laws on the observed state
        if let Op::Point(a, b) = &o { if done.is_ok() {
            let (x, y) = (a.num().unwrap(), b.num().unwrap());
            let (dx, dy) = (x - before.n[0], y - before.n[1]);
            let d = (dx * dx + dy * dy).sqrt();
            if d.is_finite() && d > 1e-6 && d > 1e-9 * before.n[0].abs().max(before.n[1].abs()) {
                let mut q = p;
                seq += 1;
                q.perform_forward::<C, Sys>(RKey(seq), Number::new(d).unwrap());
                let _ = completion(seq);
                let (ex, ey) = (q.pos.0.get() - x, q.pos.1.get() - y);
                if (ex * ex + ey * ey).sqrt() > 1e-6 * (1.0 + d + before.n[0].abs() + before.n[1].abs()) { return Res::Violation(format!("{what}: going forward by the distance ends at {:?}", (q.pos.0.get(), q.pos.1.get()))); }
                cov.add("approach law checked", 1);
            }
        } }
        cov.distinct(hash2(hash_str(&format!("{o:?}")), hash_str(&format!("{after:?}"))));
        cov.add(if done.is_ok() { "direct updates checked" } else { "direct updates refused" }, 1);
    }
    Res::Ok
}
/// all colours in `lo..hi` (red, green, blue), with some alpha; and as many random hue/saturation/brightness triples
fn colours(cov: &mut Cov, lo: u32, hi: u32, seed: u64) -> Res {
    let r = &mut Rng::new(seed ^ 0xc0);
    for x in lo..hi {
        let [_, cr, cg, cb] = x.to_be_bytes();
        let c = Color { r: cr, g: cg, b: cb, a: (mix(x as u64) >> 20) as u8 };
        let (h, s, v, a) = c.to_hsva();
        if Color::from_hsva(h, s, v, a) != c { return Res::Violation(format!("{c:?} is {:?} and comes back as {:?}", (h, s, v, a), Color::from_hsva(h, s, v, a))); }
        if x % 16 == 0 {
            let k = hsvt(u32::from_be_bytes([c.a, c.r, c.g, c.b]));
            let d = (k[0] - h as f64).abs();
            if !(0.0..=360.0).contains(&h) || d.min((360.0 - d).abs()) > 1e-3 || (k[1] - s as f64 * 100.0).abs() > 1e-3 || (k[2] - v as f64 * 100.0).abs() > 1e-3 || (k[3] - (1.0 - a as f64) * 100.0).abs() > 1e-3 { return Res::Violation(format!("{c:?} is {:?} instead of {k:?}", (h, s, v, a))); }
            let (h, s, v, a) = (*r.pick(&[r.clone().f01() * 720.0 - 360.0, r.clone().below(13) as f64 * 60.0 - 360.0, r.clone().f01() * 60.0]), r.f01() * 1.2 - 0.1, r.f01() * 1.2 - 0.1, r.f01() * 1.2 - 0.1);
            let g = Color::from_hsva(h as f32, s as f32, v as f32, a as f32);
            let w = channels(h, s * 100.0, v * 100.0, 100.0 - a * 100.0);
            for (w, g) in w.iter().zip([g.a, g.r, g.g, g.b]) { if (w - g as f64).abs() > 0.51 { return Res::Violation(format!("hue {h} saturation {s} brightness {v} alpha {a} give {g:?}, expected {w:?}")); } }
            cov.add("hue triples checked", 1);
        }
    }
    cov.add("colours converted there and back", (hi - lo) as u64);
    Res::Ok
}
pub const CASES: u64 = 20000;
pub fn c21(cov: &mut Cov, seed: u64, idx: u64, _t: bool) -> Res {
    let all = 1u64 << 24;
    if idx < CASES { match colours(cov, (all * idx / CASES) as u32, (all * (idx + 1) / CASES) as u32, seed) { Res::Ok => (), x => return x } }
    match direct(cov, seed) { Res::Ok => (), x => return x }
    blocks(cov, seed)
}
