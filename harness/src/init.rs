//! C23: the state right after instantiation, compared with what the project declares.
use crate::battery::*;
use crate::check::*;
use crate::host::*;
use crate::progs::*;
use crate::rng::*;
use crate::run::*;
use crate::sys::*;
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{HatKind as HK, StmtKind as SK};
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::project::{Input, Project, ProjectStep};
use netsblox_vm::runtime::{Color, Settings};
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

fn cs(s: &str) -> CompactString { CompactString::new(s) }
type ImgLit = Rc<(Vec<u8>, Option<(f64, f64)>, CompactString)>;
type SndLit = Rc<(Vec<u8>, CompactString)>;

/// numbers have no signed zero
fn z(x: f64) -> f64 { x + 0.0 }

struct Gen { vals: Vals, imgs: Vec<ImgLit>, snds: Vec<SndLit> }
impl Gen {
    fn num(r: &mut Rng) -> f64 { let x = numeric(r); if x.is_finite() { x } else { 1.0 } }
    fn image(&mut self, r: &mut Rng, name: &str) -> ImgLit {
        let content = (0..r.below(5)).map(|_| r.below(256) as u8).collect();
        let x = Rc::new((content, if r.pct(50) { Some((Self::num(r), Self::num(r))) } else { None }, cs(name)));
        self.imgs.push(x.clone());
        x
    }
    fn sound(&mut self, r: &mut Rng, name: &str) -> SndLit { let x = Rc::new(((0..r.below(4)).map(|_| r.below(256) as u8).collect(), cs(name))); self.snds.push(x.clone()); x }
    /// puts images, sounds and constants into some places of a value
    fn mix(&mut self, r: &mut Rng, v: Value) -> Value {
        match v {
            Value::List(xs, id) => Value::List(xs.into_iter().map(|x| self.mix(r, x)).collect(), id),
            Value::Ref(_) => v,
            v => match r.below(14) {
                0 if !self.imgs.is_empty() => Value::Image(r.pick(&self.imgs).clone()),
                1 if !self.snds.is_empty() => Value::Audio(r.pick(&self.snds).clone()),
                2 => Value::Constant(if r.pct(50) { Constant::E } else { Constant::Pi }),
                _ => v,
            },
        }
    }
    fn value(&mut self, r: &mut Rng) -> Value { let v = self.vals.value(r, Kind::Any, true); self.mix(r, v) }
}

/// which lists are defined where, by id
fn define<'a>(v: &'a Value, defs: &mut HashMap<usize, &'a Value>) {
    if let Value::List(xs, id) = v { if let Some(id) = id { defs.insert(id.0, v); } for x in xs { define(x, defs); } }
}
/// serialises declared values the way a running project is serialised; the same thing met twice is numbered once
struct ASer<'a> { defs: HashMap<usize, &'a Value>, seen: HashMap<usize, usize>, n: usize }
impl<'a> ASer<'a> {
    fn mark(&mut self, key: usize, out: &mut String) -> bool {
        let n = self.n;
        match self.seen.get(&key) { Some(i) => { write!(out, "#{i}").unwrap(); false } None => { self.seen.insert(key, n); self.n += 1; write!(out, "#{n}").unwrap(); true } }
    }
    fn go(&mut self, v: &'a Value, out: &mut String) {
        match v {
            Value::Bool(x) => write!(out, "{}", if *x { "T" } else { "F" }).unwrap(),
            Value::Number(x) => write!(out, "{:?}", z(*x)).unwrap(),
            Value::Constant(Constant::E) => write!(out, "{:?}", std::f64::consts::E).unwrap(),
            Value::Constant(Constant::Pi) => write!(out, "{:?}", std::f64::consts::PI).unwrap(),
            Value::String(x) => write!(out, "{:?}", x.as_str()).unwrap(),
            Value::Image(x) => if self.mark(Rc::as_ptr(x) as *const () as usize, out) { write!(out, "img({:?},{:?},{:?})", x.2.as_str(), x.0, x.1.map(|c| (z(c.0), z(c.1)))).unwrap() },
            Value::Audio(x) => if self.mark(Rc::as_ptr(x) as *const () as usize, out) { write!(out, "snd({:?},{:?})", x.1.as_str(), x.0).unwrap() },
            Value::Ref(id) => { let d = self.defs[&id.0]; self.go(d, out) }
            Value::List(xs, _) => if self.mark(v as *const Value as usize, out) {
                out.push('[');
                for x in xs { self.go(x, out); out.push(','); }
                out.push(']');
            },
        }
    }
    fn val(&mut self, v: &'a Value) -> String { let mut s = String::new(); self.go(v, &mut s); s }
}
struct VSer { seen: HashMap<usize, usize>, n: usize }
impl VSer {
    fn mark(&mut self, key: usize, out: &mut String) -> bool {
        let n = self.n;
        match self.seen.get(&key) { Some(i) => { write!(out, "#{i}").unwrap(); false } None => { self.seen.insert(key, n); self.n += 1; write!(out, "#{n}").unwrap(); true } }
    }
    fn img(&mut self, x: &Rc<netsblox_vm::runtime::Image>, out: &mut String) { if self.mark(Rc::as_ptr(x) as *const () as usize, out) { write!(out, "img({:?},{:?},{:?})", x.name.as_str(), x.content, x.center.map(|c| (c.0.get(), c.1.get()))).unwrap() } }
    fn snd(&mut self, x: &Rc<netsblox_vm::runtime::Audio>, out: &mut String) { if self.mark(Rc::as_ptr(x) as *const () as usize, out) { write!(out, "snd({:?},{:?})", x.name.as_str(), x.content).unwrap() } }
    fn go(&mut self, v: &Val<'_>, out: &mut String) {
        use netsblox_vm::runtime::Value as V;
        match v {
            V::Bool(x) => write!(out, "{}", if *x { "T" } else { "F" }).unwrap(),
            V::Number(x) => write!(out, "{:?}", x.get()).unwrap(),
            V::Text(x) => write!(out, "{:?}", x.as_str()).unwrap(),
            V::Image(x) => self.img(x, out),
            V::Audio(x) => self.snd(x, out),
            V::List(x) => if self.mark(Gc::as_ptr(*x) as *const () as usize, out) { out.push('['); for v in x.borrow().iter() { self.go(v, out); out.push(','); } out.push(']'); },
            x => write!(out, "?{x:?}").unwrap(),
        }
    }
    fn val(&mut self, v: &Val<'_>) -> String { let mut s = String::new(); self.go(v, &mut s); s }
}

fn declared(role: &Role) -> Vec<String> {
    let mut defs = HashMap::new();
    for g in &role.globals { define(&g.init, &mut defs); }
    for e in &role.entities { for f in &e.fields { define(&f.init, &mut defs); } }
    let mut s = ASer { defs, seen: HashMap::new(), n: 0 };
    let mut out = vec![format!("project {}", role.name)];
    let mut vars: Vec<_> = role.globals.iter().collect();
    vars.sort_by(|a, b| a.def.name.cmp(&b.def.name));
    for g in vars { out.push(format!("global {} = {}", g.def.name, s.val(&g.init))); }
    for (i, e) in role.entities.iter().enumerate() {
        out.push(format!("entity {} stage {}", e.name, i == 0));
        let mut vars: Vec<_> = e.fields.iter().collect();
        vars.sort_by(|a, b| a.def.name.cmp(&b.def.name));
        for f in vars { out.push(format!("field {} = {}", f.def.name, s.val(&f.init))); }
        for c in &e.costumes { out.push(format!("costume {} = {}", c.def.name, s.val(&c.init))); }
        for c in &e.sounds { out.push(format!("sound {} = {}", c.def.name, s.val(&c.init))); }
        out.push(format!("wears {}", e.active_costume.and_then(|i| e.costumes.get(i)).map(|c| s.val(&c.init)).unwrap_or("-".into())));
        out.push(format!("at {:?} heading {:?} size {:?} visible {} color {:?}", (z(e.pos.0), z(e.pos.1)), z(match e.heading.rem_euclid(360.0) { h if h < 360.0 => h, _ => 0.0 }), z(e.scale * 100.0), e.visible, e.color));
    }
    out
}
fn observed<'gc>(proj: &Project<'gc, C, Sys>) -> Vec<String> {
    let g = proj.get_global_context();
    let g = g.borrow();
    let mut s = VSer { seen: HashMap::new(), n: 0 };
    let mut out = vec![format!("project {}", g.proj_name.as_str())];
    let mut vars: Vec<_> = g.globals.iter().collect();
    vars.sort_by(|a, b| a.0.cmp(b.0));
    for (k, v) in vars { out.push(format!("global {k} = {}", s.val(&v.get()))); }
    for (_, e) in g.entities.iter() {
        let e = e.borrow();
        out.push(format!("entity {} stage {}", e.name.as_str(), e.state.stage));
        let mut vars: Vec<_> = e.fields.iter().collect();
        vars.sort_by(|a, b| a.0.cmp(b.0));
        for (k, v) in vars { out.push(format!("field {k} = {}", s.val(&v.get()))); }
        for (k, v) in e.costume_list.iter() { let mut t = String::new(); s.img(v, &mut t); out.push(format!("costume {k} = {t}")); }
        for (k, v) in e.sound_list.iter() { let mut t = String::new(); s.snd(v, &mut t); out.push(format!("sound {k} = {t}")); }
        let worn = e.costume.as_ref().map(|v| { let mut t = String::new(); s.img(v, &mut t); t }).unwrap_or("-".into());
        out.push(format!("wears {worn}"));
        let p = &e.state.init;
        let c = Color::from_hsva(p.pen_color_h.get() as f32, p.pen_color_s.get() as f32 / 100.0, p.pen_color_v.get() as f32 / 100.0, 1.0 - p.pen_color_t.get() as f32 / 100.0);
        out.push(format!("at {:?} heading {:?} size {:?} visible {} color {:?}", (p.pos.0.get(), p.pos.1.get()), p.heading.get(), p.size.get(), p.visible, (c.r, c.g, c.b, c.a)));
    }
    out
}
fn diff(a: &[String], b: &[String]) -> Option<String> {
    for i in 0..a.len().max(b.len()) { if a.get(i) != b.get(i) { return Some(clip(&format!("expected {} observed {}", a.get(i).map(|x| clip(x)).unwrap_or("nothing more".into()), b.get(i).map(|x| clip(x)).unwrap_or("nothing more".into())))); } }
    None
}

pub fn c23(cov: &mut Cov, seed: u64, _idx: u64, _t: bool) -> Res {
    let r = &mut Rng::new(seed ^ 0x23);
    let mut g = Gen { vals: Vals { next_ref: *r.pick(&[0, 0, 41, 100000]), closed: vec![] }, imgs: vec![], snds: vec![] };
    let ne = 1 + r.below(4);
    let mut medias = vec![];
    for e in 0..ne {
        let costumes: Vec<VariableDefInit> = (0..r.below(4)).map(|i| {
            let n = format!("c{i}{}", *r.pick(&["", " é", "\"", ""]));
            let img = if !g.imgs.is_empty() && r.pct(15) { r.pick(&g.imgs).clone() } else { let own = if r.pct(90) { n.clone() } else { "other name".into() }; g.image(r, &own) };
            VariableDefInit { def: mk_def(&n), init: Value::Image(img) }
        }).collect();
        let sounds: Vec<VariableDefInit> = (0..r.below(3)).map(|i| {
            let n = format!("s{i}");
            let snd = if !g.snds.is_empty() && r.pct(15) { r.pick(&g.snds).clone() } else { g.sound(r, &n) };
            VariableDefInit { def: mk_def(&n), init: Value::Audio(snd) }
        }).collect();
        medias.push((format!("{}{}", if e == 0 { "Stage" } else { "sprite" }, if e == 0 { String::new() } else { format!("{}", ne - e) }), costumes, sounds));
    }
    let var_name = |r: &mut Rng, i: usize| match r.below(4) { 0 => format!("v {}", 9 - i), 1 => format!("é{i}"), 2 => format!("{i}"), _ => format!("v{i}") };
    // values are declared in any order: references go back and forth between globals and sprites
    let nf: Vec<usize> = (0..ne).map(|_| r.below(4)).collect();
    let ng = r.below(6);
    let total = ng + nf.iter().sum::<usize>();
    let mut vals: Vec<Value> = (0..total).map(|_| g.value(r)).collect();
    r.shuffle(&mut vals);
    if r.pct(40) && !g.vals.closed.is_empty() { for v in &mut vals { if r.pct(25) && !matches!(v, Value::List(..)) { *v = Value::Ref(RefId(*r.pick(&g.vals.closed))); } } }
    let mut it = vals.into_iter();
    let globals: Vec<VariableDefInit> = (0..ng).map(|i| VariableDefInit { def: mk_def(&var_name(r, i)), init: it.next().unwrap() }).collect();
    let mut entities = vec![];
    for (e, (name, costumes, sounds)) in medias.into_iter().enumerate() {
        let fields: Vec<VariableDefInit> = (0..nf[e]).map(|i| VariableDefInit { def: mk_def(&var_name(r, i)), init: it.next().unwrap() }).collect();
        // the script changes everything it can reach (for the second instance)
        let mut stmts = vec![];
        for (v, l) in globals.iter().map(|g| (g, VarLocation::Global)).chain(fields.iter().map(|f| (f, VarLocation::Field))) {
            let vr = VariableRef { name: v.def.name.clone(), trans_name: v.def.name.clone(), location: l };
            if matches!(v.init, Value::List(..) | Value::Ref(_)) { stmts.push(bare_stmt(SK::ListInsertLast { list: bx(var(vr.clone())), value: bx(num(77.0)) })); }
            if r.pct(50) { stmts.push(bare_stmt(SK::Assign { var: vr, value: bx(txt("changed")) })); }
        }
        stmts.push(bare_stmt(SK::NextCostume));
        let active_costume = match r.below(3) { 0 => None, _ if r.pct(8) => Some(costumes.len() + r.below(3)), _ if costumes.is_empty() => None, _ => Some(r.below(costumes.len())) };
        let byte = |r: &mut Rng| *r.pick(&[0u8, 255, 1, 254, 127, 128, 0, 255]) ^ if r.pct(50) { r.below(256) as u8 } else { 0 };
        entities.push(Entity {
            name: cs(&name), trans_name: cs(&name), fields, costumes, sounds, funcs: vec![], scripts: vec![ast::Script { hat: Some(Box::new(Hat { kind: HK::OnFlag, info: BlockInfo::none() })), stmts }],
            active_costume, visible: r.pct(50), color: (byte(r), byte(r), byte(r), byte(r)), pos: (Gen::num(r), Gen::num(r)), heading: *r.pick(&[90.0, 0.0, 180.0, 359.5, 45.25, -90.0, -0.5, 360.0, 450.0, -720.25, -1e-20, -1e-300, -0.0, 1e-20, 359.99999999999994]), scale: *r.pick(&[1.0, 0.5, 2.0, 0.0, 1.25]),
        });
    }
    let role = Role { name: cs(&random_text(r)), notes: cs(""), stage_size: (480, 360), globals, funcs: vec![], entities };
    let want = declared(&role);
    let (mut bc, mut init, _) = match compile(&role, false) { Ok(x) => x, Err(e) => return Res::Violation(clip(&format!("refused: {e}; {:?}", role.globals))) };
    if r.pct(40) {
        // through the serialised form (as a tree: the text reader of this build may lose the last place of a number, see C12)
        let back = (|| -> serde_json::Result<_> { Ok((serde_json::from_value(serde_json::to_value(&bc)?)?, serde_json::from_value(serde_json::to_value(&init)?)?)) })();
        match back { Ok(x) => (bc, init) = x, Err(e) => return Res::Violation(format!("not reloaded: {e}")) }
        cov.add("reloaded projects", 1);
    }
    let bc: Rc<ByteCode> = Rc::new(bc);
    let sys = Rc::new(Sys::new(Host::new(HostCfg::calm(seed))));
    #[derive(Collect)]
    #[collect(no_drop)]
    struct Two<'gc> { a: Project<'gc, C, Sys>, b: Project<'gc, C, Sys> }
    let mut arena = Arena::<Rootable![Two<'_>]>::new(|mc| Two {
        a: Project::from_init(mc, &init, bc.clone(), Settings::default(), sys.clone()),
        b: Project::from_init(mc, &init, bc.clone(), Settings::default(), sys.clone()),
    });
    let first = arena.mutate(|_, t| diff(&want, &observed(&t.a)).or_else(|| diff(&want, &observed(&t.b))));
    if let Some(d) = first { return Res::Violation(d); }
    cov.add("declared facts compared", want.len() as u64);
    for l in &want { if l.contains('#') || l.starts_with("at ") { cov.distinct(hash_str(l)); } }
    for l in &want { if l.contains('[') { cov.add("declared lists", l.matches('[').count() as u64); } }
    cov.add("shared or cyclic references", want.iter().map(|l| l.matches('#').count() as u64 - l.matches('[').count().min(l.matches('#').count()) as u64).sum());
    cov.sample(|| want.join(" ; "));
    // run one instance: the other one stays as declared
    arena.mutate_root(|mc, t| { t.a.input(mc, Input::Start); for _ in 0..3000 { if let ProjectStep::Idle = t.a.step(mc) { break; } } });
    arena.collect_all();
    let (changed, second) = arena.mutate(|_, t| (diff(&want, &observed(&t.a)).is_some(), diff(&want, &observed(&t.b))));
    if let Some(d) = second { return Res::Violation(format!("after running another instance: {d}")); }
    if changed { cov.add("instances unaffected by a running one", 1); }
    // and a third one made now starts afresh
    let third = arena.mutate_root(|mc, _| diff(&want, &observed(&Project::from_init(mc, &init, bc.clone(), Settings::default(), sys.clone()))));
    match third { Some(d) => Res::Violation(format!("a later instance: {d}")), None => Res::Ok }
}
