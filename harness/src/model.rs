//! Reference interpreter for block programs: an independent tree-walking reading of the source AST, with a model of
//! the project scheduler. It is run against the same scripted host as the real VM and produces the same event log.
use crate::host::*;
use crate::mval::*;
use netsblox_vm::ast::{self, Entity as AE, Expr, ExprKind as EK, HatKind as HK, Role, Stmt, StmtKind as SK};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::task::{Context, Poll, Waker};
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Copy, Debug)]
pub struct ModelCfg { pub limit: usize, pub rpc_soft: bool, pub sys_soft: bool, pub fuel: u64, pub turn_cap: u64, pub alloc_cap: u64 }
impl Default for ModelCfg { fn default() -> Self { ModelCfg { limit: 1024, rpc_soft: false, sys_soft: false, fuel: 300_000, turn_cap: 1500, alloc_cap: 400_000 } } }

pub struct MErr { pub custom: bool, pub text: String, pub cur: Option<&'static str>, pub trace: Vec<(Option<&'static str>, Rc<Frame>)> }
pub enum Ctl { Ret(V), Err(Box<MErr>), Abort, Fuel }
pub type R<T> = Result<T, Ctl>;
impl From<String> for Ctl {
    fn from(s: String) -> Ctl { if s == FUEL { Ctl::Fuel } else { Ctl::Err(Box::new(MErr { custom: false, text: s, cur: None, trace: vec![] })) } }
}
fn custom(s: String) -> Ctl { Ctl::Err(Box::new(MErr { custom: true, text: s, cur: None, trace: vec![] })) }
fn fail<T>(s: &str) -> R<T> { Err(Ctl::from(s.to_string())) }

pub struct Frame { pub locals: RefCell<BTreeMap<String, Cel>>, pub ent: Rc<Ent>, pub lex: Option<&'static AE> }
pub struct P {
    pub raw: u64, pub disp: Option<u64>, pub w: Rc<World>,
    tokens: Cell<usize>, warp: Cell<u32>, frames: RefCell<Vec<Rc<Frame>>>,
    sys_err: RefCell<Option<V>>, rpc_err: RefCell<Option<V>>, answer: RefCell<Option<V>>, message: RefCell<Option<V>>,
    reply_key: RefCell<Option<(String, String)>>,
}
impl P {
    fn frame(&self) -> Rc<Frame> { self.frames.borrow().last().unwrap().clone() }
}
pub struct World {
    pub role: &'static Role, pub host: Rc<RefCell<Host>>, pub cfg: ModelCfg,
    pub globals: RefCell<BTreeMap<String, Cel>>, pub ents: RefCell<BTreeMap<String, Rc<Ent>>>,
    fuel: Cell<u64>, slot: RefCell<Option<Eff>>, timer: Cell<u64>, pub evals: Cell<u64>,
    pub tainted: Cell<bool>,
    next_raw: Cell<u64>,
    pub cov: RefCell<BTreeMap<&'static str, u64>>,
}
impl World {
    fn fresh(&self) -> u64 { let x = self.next_raw.get(); self.next_raw.set(x + 1); x }
    fn note(&self, k: &'static str) { *self.cov.borrow_mut().entry(k).or_insert(0) += 1; }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum StopK { Current, All, Others, MyOthers }
enum Eff {
    Yield,
    Broadcast { msg: Rc<str>, barrier: Option<Rc<()>>, targets: Option<Vec<Rc<Ent>>> },
    Fork { clo: Rc<Clo>, frame: Rc<Frame> },
    Cloned(Rc<Ent>), Deleted(Rc<Ent>), Stop(StopK),
    Watch { create: bool, name: String, ent: Rc<Ent>, cell: Cel },
    Pause,
}
struct Pend(bool);
impl Future for Pend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } }
}
async fn emit(p: &P, e: Eff) { *p.w.slot.borrow_mut() = Some(e); Pend(false).await }
async fn yield_(p: &P) { if p.warp.get() == 0 { emit(p, Eff::Yield).await } else { p.w.note("yield suppressed by warp") } }

type BF<T> = Pin<Box<dyn Future<Output = T>>>;
type PF = (Rc<P>, Rc<Frame>);

pub fn cel(v: V) -> Cel { Rc::new(RefCell::new(v)) }
fn lookup(p: &P, f: &Frame, name: &str) -> R<Cel> {
    if let Some(x) = f.locals.borrow().get(name) { return Ok(x.clone()); }
    if let Some(x) = f.ent.fields.borrow().get(name) { return Ok(x.clone()); }
    if let Some(x) = p.w.globals.borrow().get(name) { return Ok(x.clone()); }
    fail(&format!("UndefinedVariable {{ name: {name:?} }}"))
}
fn declare(f: &Frame, name: &str, v: V) { f.locals.borrow_mut().insert(name.into(), cel(v)); }
fn locate<T>(r: R<T>, loc: Option<&'static str>) -> R<T> {
    match r { Err(Ctl::Err(mut e)) => { if e.cur.is_none() { e.cur = loc; } Err(Ctl::Err(e)) } r => r }
}

fn lit(v: &ast::Value) -> R<V> {
    Ok(match v {
        ast::Value::Bool(x) => V::Bool(*x),
        ast::Value::Number(x) => V::Num(chk(*x)?),
        ast::Value::Constant(ast::Constant::E) => V::Num(std::f64::consts::E),
        ast::Value::Constant(ast::Constant::Pi) => V::Num(std::f64::consts::PI),
        ast::Value::String(x) => text(x),
        ast::Value::List(x, _) => list(x.iter().map(lit).collect::<R<_>>()?),
        _ => unreachable!(),
    })
}

// ---- host operations ----------------------------------------------------------------------------------------------------

fn issue(p: &P, tag: char, desc: &dyn Fn(&mut MSer) -> String, given: Option<V>, feature: &str) -> R<u64> {
    let mut g = p.w.host.borrow_mut();
    let h = &mut *g;
    let pl = h.plabel(p.raw, p.disp);
    let pl = match p.tokens.get() { 0 => pl, n => format!("{pl}~{n}") };
    let el = elabel(h, &p.frame().ent);
    let d = desc(&mut MSer::new(h));
    let given = given.map(|v| match v { V::Bool(x) => HVal::Bool(x), V::Num(x) => HVal::Num(x), V::Text(x) => HVal::Text(x.to_string()), V::Nat(x) => HVal::Native(*x), _ => unreachable!() });
    match h.issue(tag, p.raw, &pl, &el, &d, given) {
        Ok(n) => Ok(n),
        Err(PerfErr::NotSupported) => fail(&format!("NotSupported {{ feature: {feature} }}")),
        Err(PerfErr::Custom(m)) => Err(custom(m)),
    }
}
async fn finish(p: &P, n: u64) -> R<Result<V, String>> {
    let mut waited = false;
    loop {
        let r = p.w.host.borrow_mut().poll(n, p.raw);
        match r {
            None => { waited = true; emit(p, Eff::Yield).await }
            Some(x) => {
                p.w.note(if waited { "op completed later" } else { "op completed at once" });
                return match x {
                    Out::Ok(v) => Ok(Ok(V::from_h(&v))),
                    Out::Soft(m) => { p.w.note("op failed softly"); Ok(Err(m)) }
                    Out::PollNs => { p.w.note("op failed hard"); fail("NotSupported { feature: Input }") }
                    Out::PollCustom(m) => { p.w.note("op failed hard"); Err(custom(m)) }
                };
            }
        }
    }
}
fn promoted<T>(m: String) -> R<T> { fail(&format!("Promoted {{ error: {m:?} }}")) }
async fn command(p: &P, feature: &str, desc: &dyn Fn(&mut MSer) -> String) -> R<()> {
    let n = issue(p, 'C', desc, None, feature)?;
    match finish(p, n).await? { Ok(_) => Ok(()), Err(m) => promoted(m) }
}
async fn request(p: &P, feature: &str, given: Option<V>, desc: &dyn Fn(&mut MSer) -> String) -> R<V> {
    let n = issue(p, 'R', desc, given, feature)?;
    match finish(p, n).await? { Ok(v) => Ok(v), Err(m) => promoted(m) }
}
async fn request_soft(p: &P, feature: &str, given: Option<V>, desc: &dyn Fn(&mut MSer) -> String, soft: bool, last: fn(&P) -> &RefCell<Option<V>>) -> R<V> {
    let n = issue(p, 'R', desc, given, feature)?;
    match finish(p, n).await? {
        Ok(v) => { *last(p).borrow_mut() = None; Ok(v) }
        Err(m) if soft => { let v = text(&m); *last(p).borrow_mut() = Some(v.clone()); Ok(v) }
        Err(m) => promoted(m),
    }
}
fn prop_h(v: &V) -> Option<HVal> { Some(match v { V::Bool(x) => HVal::Bool(*x), V::Num(x) => HVal::Num(*x), V::Text(x) => HVal::Text(x.to_string()), _ => return None }) }
async fn set_prop(p: &P, prop: &str, v: V) -> R<()> {
    let ent = p.frame().ent.clone();
    command(p, &format!("SetProperty {{ prop: {prop} }}"), &|s| {
        let d = format!("set {prop} {}", s.val(&v));
        if let Some(h) = prop_h(&v) { ent.props.borrow_mut().insert(prop.into(), h); }
        d
    }).await
}
async fn chg_prop(p: &P, prop: &str, v: V) -> R<()> { command(p, &format!("ChangeProperty {{ prop: {prop} }}"), &|s| format!("chg {prop} {}", s.val(&v))).await }
async fn get_prop(p: &P, prop: &str) -> R<V> {
    let given = match p.frame().ent.props.borrow().get(prop) { Some(x) => V::from_h(x), None => V::Num(0.0) };
    request(p, &format!("GetProperty {{ prop: {prop} }}"), Some(given), &|_| format!("get {prop}")).await
}
fn effect(k: &ast::EffectKind) -> &'static str {
    use ast::EffectKind::*;
    match k { Color => "ColorH", Saturation => "ColorS", Brightness => "ColorV", Ghost => "ColorT", Fisheye => "Fisheye", Whirl => "Whirl", Pixelate => "Pixelate", Mosaic => "Mosaic", Negative => "Negative" }
}
fn pen_attr(k: &ast::PenAttribute) -> &'static str {
    use ast::PenAttribute::*;
    match k { Size => "PenSize", Hue => "PenColorH", Saturation => "PenColorS", Brightness => "PenColorV", Transparency => "PenColorT" }
}
async fn print(p: &P, style: &str, v: V) -> R<()> {
    let shown = if matches!(&v, V::Text(s) if s.is_empty()) { None } else { Some(v) };
    command(p, "Print", &|s| format!("{style} {}", shown.as_ref().map(|x| s.val(x)).unwrap_or("-".into()))).await
}
fn now(p: &P) -> R<u64> { match p.w.host.borrow().time_ms() { Some(x) => Ok(x), None => fail("NotSupported { feature: ArbitraryTime }") } }
async fn sleep(p: &P, v: &V) -> R<()> {
    let ms = as_num(v)? * 1000.0;
    if ms <= 0.0 { emit(p, Eff::Yield).await; return Ok(()); }
    let until = now(p)?.saturating_add(ms as u64);
    while now(p)? < until { emit(p, Eff::Yield).await; }
    Ok(())
}

// ---- calls ---------------------------------------------------------------------------------------------------------------

async fn call_body(p: Rc<P>, fr: Rc<Frame>, upvars: &'static [ast::VariableRef], body: &'static [Stmt]) -> R<V> {
    let limit = p.w.cfg.limit;
    if p.frames.borrow().len() >= limit { p.w.note("calls refused at the limit"); return fail(&format!("CallDepthLimit {{ limit: {limit} }}")); }
    let (warp, tokens) = (p.warp.get(), p.tokens.get());
    let parent = p.frame();
    p.frames.borrow_mut().push(fr.clone());
    p.w.note("calls");
    let run = async {
        for u in upvars {
            let target = as_text(&lookup(&p, &fr, &u.name)?.borrow())?;
            let cell = match parent.locals.borrow().get(&*target) { Some(c) => c.clone(), None => return fail(&format!("UndefinedVariable {{ name: {:?} }}", u.name.as_str())) };
            fr.locals.borrow_mut().insert(u.name.to_string(), cell);
        }
        stmts(p.clone(), fr.clone(), body).await
    };
    let v = match run.await {
        Ok(()) => text(""),
        Err(Ctl::Ret(v)) => v,
        Err(Ctl::Err(mut e)) => { let cur = e.cur.take(); e.trace.push((cur, fr)); return Err(Ctl::Err(e)); }
        Err(x) => return Err(x),
    };
    p.frames.borrow_mut().pop();
    p.warp.set(warp);
    p.tokens.set(p.tokens.get().min(tokens));
    Ok(v)
}
fn clo_frame(v: &V, args: Vec<V>, ent: Option<Rc<Ent>>) -> R<(Rc<Clo>, BTreeMap<String, Cel>, Option<Rc<Ent>>)> {
    let V::Clo(c) = v else { return Err(conv(v, "Closure").into()) };
    if c.params.len() != args.len() { return fail(&format!("ClosureArgCount {{ expected: {}, got: {} }}", c.params.len(), args.len())); }
    let mut locals: BTreeMap<String, Cel> = c.captures.iter().cloned().collect();
    for (k, v) in c.params.iter().zip(args) { locals.insert(k.clone(), cel(v)); }
    Ok((c.clone(), locals, ent))
}
async fn call_clo(p: Rc<P>, f: Rc<Frame>, new_ent: Option<V>, clo: V, args: Vec<V>) -> R<V> {
    let (c, locals, _) = clo_frame(&clo, args, None)?;
    let ent = match new_ent { Some(v) => as_ent(&v)?, None => f.ent.clone() };
    let fr = Rc::new(Frame { locals: RefCell::new(locals), ent, lex: c.lex });
    call_body(p, fr, &[], c.body).await
}
async fn call_fn(p: Rc<P>, f: Rc<Frame>, func: &'static ast::FnRef, args: &'static [Expr], upvars: &'static [ast::VariableRef]) -> R<V> {
    for u in upvars { declare(&f, &u.trans_name, V::Num(0.0)); } // the block's own output variables exist before its inputs are evaluated
    let vals = evals(p.clone(), f.clone(), args).await?;
    let find = |fs: &'static [ast::Function]| fs.iter().find(|x| x.trans_name == func.trans_name);
    let (target, lex) = match func.location {
        ast::FnLocation::Method => (f.lex.and_then(|e| find(&e.funcs)), f.lex),
        ast::FnLocation::Global => (find(&p.w.role.funcs), None),
    };
    let target = target.expect("generated call to a missing function");
    let mut locals = BTreeMap::new();
    for (d, v) in target.params.iter().zip(vals) { locals.insert(d.trans_name.to_string(), cel(v)); }
    let fr = Rc::new(Frame { locals: RefCell::new(locals), ent: f.ent.clone(), lex });
    call_body(p, fr, &target.upvars, &target.stmts).await
}

// ---- statements -----------------------------------------------------------------------------------------------------------

fn tick(p: &P) -> R<()> {
    let x = p.w.fuel.get();
    p.w.evals.set(p.w.evals.get() + 1);
    if x == 0 { return Err(Ctl::Fuel); }
    p.w.fuel.set(x - 1);
    alloc_check()?;
    Ok(())
}
fn stmts(p: Rc<P>, f: Rc<Frame>, s: &'static [Stmt]) -> BF<R<()>> {
    Box::pin(async move {
        for s in s {
            let r = stmt(p.clone(), f.clone(), s).await;
            locate(r, s.info.location.as_deref())?;
        }
        Ok(())
    })
}
async fn ev(pf: &PF, e: &'static Expr) -> R<V> { eval(pf.0.clone(), pf.1.clone(), e).await }
async fn body(pf: &PF, s: &'static [Stmt]) -> R<()> { stmts(pf.0.clone(), pf.1.clone(), s).await }
fn stmt(p: Rc<P>, f: Rc<Frame>, s: &'static Stmt) -> BF<R<()>> {
    let pf: PF = (p, f);
    Box::pin(async move {
        let (p, f) = (&pf.0, &pf.1);
        tick(p)?;
        match &s.kind {
            SK::DeclareLocals { vars } => for v in vars { declare(f, &v.trans_name, V::Num(0.0)); }
            SK::Assign { var, value } => { let v = ev(&pf, value).await?; *lookup(p, f, &var.trans_name)?.borrow_mut() = v; }
            SK::AddAssign { var, value } => {
                let b = ev(&pf, value).await?;
                let c = lookup(p, f, &var.trans_name)?;
                let r = add(&c.borrow(), &b)?;
                *c.borrow_mut() = r;
            }
            SK::ShowVar { var } | SK::HideVar { var } => {
                let cell = lookup(p, f, &var.trans_name)?;
                emit(p, Eff::Watch { create: matches!(&s.kind, SK::ShowVar { .. }), name: var.trans_name.to_string(), ent: f.ent.clone(), cell }).await;
            }
            SK::Pause => emit(p, Eff::Pause).await,
            SK::Warp { stmts } => {
                p.warp.set(p.warp.get() + 1);
                body(&pf, stmts).await?;
                p.warp.set(p.warp.get() - 1);
            }
            SK::InfLoop { stmts } => loop { tick(p)?; body(&pf, stmts).await?; yield_(p).await; },
            SK::UntilLoop { condition, stmts } => loop {
                tick(p)?;
                if as_bool(&ev(&pf, condition).await?)? { break; }
                body(&pf, stmts).await?;
                yield_(p).await;
            },
            SK::WaitUntil { condition } => loop {
                tick(p)?;
                if as_bool(&ev(&pf, condition).await?)? { break; }
                p.w.note("wait-until retried");
                yield_(p).await;
            },
            SK::Repeat { times, stmts } => {
                let mut n = ev(&pf, times).await?;
                loop {
                    tick(p)?;
                    if !relate(&n, &V::Num(0.0), Rel::Gt)? { break; }
                    body(&pf, stmts).await?;
                    n = sub(&n, &V::Num(1.0))?;
                    yield_(p).await;
                }
            }
            SK::ForLoop { var, start, stop, stmts } => {
                let a = as_num(&ev(&pf, start).await?)?;
                let b = as_num(&ev(&pf, stop).await?)?;
                declare(f, &var.name, V::Num(0.0));
                let delta = if a > b { -1.0 } else { 1.0 };
                let mut n = chk(b - a)?.abs();
                let mut i = a;
                while n >= 0.0 {
                    tick(p)?;
                    *lookup(p, f, &var.trans_name)?.borrow_mut() = V::Num(i);
                    body(&pf, stmts).await?;
                    n -= 1.0;
                    i = chk(i + delta)?;
                    yield_(p).await;
                }
            }
            SK::ForeachLoop { var, items, stmts } => {
                let items: Vec<V> = as_list(&ev(&pf, items).await?)?.borrow().clone();
                declare(f, &var.name, V::Num(0.0));
                for v in items {
                    tick(p)?;
                    *lookup(p, f, &var.trans_name)?.borrow_mut() = v;
                    body(&pf, stmts).await?;
                    yield_(p).await;
                }
            }
            SK::If { condition, then } => if as_bool(&ev(&pf, condition).await?)? { body(&pf, then).await? },
            SK::IfElse { condition, then, otherwise } => body(&pf, if as_bool(&ev(&pf, condition).await?)? { then } else { otherwise }).await?,
            SK::TryCatch { code, var, handler } => {
                let (warp, nf, tokens) = (p.warp.get(), p.frames.borrow().len(), p.tokens.get());
                match body(&pf, code).await {
                    Err(Ctl::Err(e)) => {
                        p.w.note(if p.frames.borrow().len() > nf { "caught across calls" } else { "caught" });
                        p.warp.set(warp);
                        p.frames.borrow_mut().truncate(nf);
                        p.tokens.set(p.tokens.get().min(tokens));
                        declare(f, &var.trans_name, text(&e.text));
                        body(&pf, handler).await?;
                    }
                    r => r?,
                }
            }
            SK::Throw { error } => { let m = as_text(&ev(&pf, error).await?)?; return Err(custom(m.to_string())); }
            SK::Return { value } => { let v = ev(&pf, value).await?; return Err(Ctl::Ret(v)); }
            SK::Stop { mode } => match mode {
                ast::StopMode::ThisBlock => return Err(Ctl::Ret(text(""))),
                ast::StopMode::ThisScript => { emit(p, Eff::Stop(StopK::Current)).await; return Err(Ctl::Abort); }
                ast::StopMode::All => { emit(p, Eff::Stop(StopK::All)).await; return Err(Ctl::Abort); }
                ast::StopMode::AllButThisScript => emit(p, Eff::Stop(StopK::Others)).await,
                ast::StopMode::OtherScriptsInSprite => emit(p, Eff::Stop(StopK::MyOthers)).await,
                _ => unreachable!(),
            },
            SK::ListInsert { list, value, index } => {
                let (v, i, l) = (ev(&pf, value).await?, ev(&pf, index).await?, ev(&pf, list).await?);
                let l = as_list(&l)?;
                let n = l.borrow().len();
                let set = indices(&i, n + 1)?;
                alloc_note(set.len());
                for i in set.into_iter().rev() { l.borrow_mut().insert(i, v.clone()); }
            }
            SK::ListInsertLast { list, value } => { let (v, l) = (ev(&pf, value).await?, ev(&pf, list).await?); alloc_note(1); as_list(&l)?.borrow_mut().push(v); }
            SK::ListRemove { list, index } => {
                let (i, l) = (ev(&pf, index).await?, ev(&pf, list).await?);
                let l = as_list(&l)?;
                let n = l.borrow().len();
                for i in indices(&i, n)?.into_iter().rev() { l.borrow_mut().remove(i); }
            }
            SK::ListRemoveLast { list } => { let l = as_list(&ev(&pf, list).await?)?; if l.borrow_mut().pop().is_none() { return Err(oob(1, 0).into()); } }
            SK::ListRemoveAll { list } => as_list(&ev(&pf, list).await?)?.borrow_mut().clear(),
            SK::ListAssign { list, value, index } => {
                let (i, l, v) = (ev(&pf, index).await?, ev(&pf, list).await?, ev(&pf, value).await?);
                let l = as_list(&l)?;
                let n = l.borrow().len();
                for i in indices(&i, n)? { l.borrow_mut()[i] = v.clone(); }
            }
            SK::ListInsertRandom { list, value } => { let (v, l) = (ev(&pf, value).await?, ev(&pf, list).await?); let l = as_list(&l)?; let n = l.borrow().len(); let i = drawn(p, n + 1)?; alloc_note(1); l.borrow_mut().insert(i, v); }
            SK::ListAssignRandom { list, value } => { let (l, v) = (ev(&pf, list).await?, ev(&pf, value).await?); let l = as_list(&l)?; let n = l.borrow().len(); let i = drawn(p, n)?; l.borrow_mut()[i] = v; }
            SK::ListAssignLast { list, value } => {
                let (l, v) = (ev(&pf, list).await?, ev(&pf, value).await?);
                let l = as_list(&l)?;
                match l.borrow_mut().last_mut() { Some(x) => *x = v, None => return Err(oob(1, 0).into()) }
            }
            SK::Sleep { seconds } => { p.w.note("waits"); let v = ev(&pf, seconds).await?; sleep(p, &v).await? }
            SK::Say { content, duration } | SK::Think { content, duration } => {
                let style = if matches!(&s.kind, SK::Say { .. }) { "Say" } else { "Think" };
                let v = ev(&pf, content).await?;
                print(p, style, v).await?;
                if let Some(d) = duration {
                    let d = ev(&pf, d).await?;
                    sleep(p, &d).await?;
                    print(p, style, text("")).await?;
                }
            }
            SK::Ask { prompt } => {
                let v = ev(&pf, prompt).await?;
                let shown = if matches!(&v, V::Text(s) if s.is_empty()) { None } else { Some(v) };
                let r = request(p, "Input", None, &|s| format!("ask {}", shown.as_ref().map(|x| s.val(x)).unwrap_or("-".into()))).await?;
                *p.answer.borrow_mut() = Some(r);
            }
            SK::SetCostume { costume } => {
                let v = ev(&pf, costume).await?;
                let new = match &v {
                    V::Image(i) => Some(i.clone()),
                    V::Text(s) if s.is_empty() => None,
                    V::Text(s) => match f.ent.costumes.iter().find(|c| c.0 == **s) { Some(c) => Some(c.1.clone()), None => { p.w.note("costume unknown"); return fail(&format!("UndefinedCostume {{ name: {:?} }}", &**s)) } },
                    _ => return Err(conv(&v, "Image").into()),
                };
                set_costume(p, f, new).await?
            }
            SK::NextCostume => {
                let cur = f.ent.costume.borrow().clone();
                if let Some(i) = cur.and_then(|c| f.ent.costumes.iter().position(|x| Rc::ptr_eq(&x.1, &c))) {
                    let new = f.ent.costumes[(i + 1) % f.ent.costumes.len()].1.clone();
                    set_costume(p, f, Some(new)).await?
                }
            }
            SK::PlaySound { sound, blocking } => {
                let v = ev(&pf, sound).await?;
                let snd = match &v {
                    V::Audio(i) => Some(i.clone()),
                    V::Text(s) if s.is_empty() => None,
                    V::Text(s) => match f.ent.sounds.iter().find(|c| c.0 == **s) { Some(c) => Some(c.1.clone()), None => return fail(&format!("UndefinedSound {{ name: {:?} }}", &**s)) },
                    _ => return Err(conv(&v, "Audio").into()),
                };
                if let Some(x) = snd { p.w.note("sound played"); command(p, &format!("PlaySound {{ blocking: {blocking} }}"), &|_| format!("sound {} {blocking}", x.label())).await? }
            }
            SK::PlayNotes { notes, beats, blocking } => { let (n, b) = (ev(&pf, notes).await?, ev(&pf, beats).await?); play_notes(p, n, b, *blocking).await? }
            SK::Rest { beats } => { let b = ev(&pf, beats).await?; play_notes(p, list(vec![]), b, true).await? }
            SK::StopSounds => command(p, "StopSounds", &|_| "stop-sounds".into()).await?,
            SK::Forward { distance } => { let d = as_num(&ev(&pf, distance).await?)?; command(p, "Forward", &|_| format!("forward {d:?}")).await? }
            SK::SetX { value } => { let v = ev(&pf, value).await?; set_prop(p, "XPos", v).await? }
            SK::ChangeX { delta } => { let v = ev(&pf, delta).await?; chg_prop(p, "XPos", v).await? }
            SK::SetY { value } => { let v = ev(&pf, value).await?; set_prop(p, "YPos", v).await? }
            SK::ChangeY { delta } => { let v = ev(&pf, delta).await?; chg_prop(p, "YPos", v).await? }
            SK::GotoXY { x, y } => {
                let (x, y) = (ev(&pf, x).await?, ev(&pf, y).await?);
                let y = as_num(&y)?;
                goto(p, true, as_num(&x)?, y).await?
            }
            SK::PointTowardsXY { x, y } => {
                let (x, y) = (ev(&pf, x).await?, ev(&pf, y).await?);
                let y = as_num(&y)?;
                goto(p, false, as_num(&x)?, y).await?
            }
            SK::Goto { target } => { let v = ev(&pf, target).await?; goto_target(p, true, v).await? }
            SK::PointTowards { target } => { let v = ev(&pf, target).await?; goto_target(p, false, v).await? }
            SK::TurnRight { angle } => { let v = ev(&pf, angle).await?; chg_prop(p, "Heading", v).await? }
            SK::TurnLeft { angle } => { let v = ev(&pf, angle).await?; chg_prop(p, "Heading", num1(&v, |x| -x)?).await? }
            SK::SetHeading { value } => { let v = ev(&pf, value).await?; set_prop(p, "Heading", v).await? }
            SK::SetPenDown { value } => set_prop(p, "PenDown", V::Bool(*value)).await?,
            SK::PenClear => command(p, "ClearDrawings", &|_| "clear-drawings".into()).await?,
            SK::SetPenColor { color } => {
                let (r, g, b, a) = *color;
                set_prop(p, "PenColor", V::Num(a as f64 * 16777216.0 + r as f64 * 65536.0 + g as f64 * 256.0 + b as f64)).await?
            }
            SK::SetVisible { value } => set_prop(p, "Visible", V::Bool(*value)).await?,
            SK::ChangeSize { delta } => { let v = ev(&pf, delta).await?; chg_prop(p, "Size", v).await? }
            SK::SetSize { value } => { let v = ev(&pf, value).await?; set_prop(p, "Size", v).await? }
            SK::ChangePenSize { delta } => { let v = ev(&pf, delta).await?; chg_prop(p, "PenSize", v).await? }
            SK::SetPenSize { value } => { let v = ev(&pf, value).await?; set_prop(p, "PenSize", v).await? }
            SK::SetEffect { kind, value } => { let v = ev(&pf, value).await?; set_prop(p, effect(kind), v).await? }
            SK::ChangeEffect { kind, delta } => { let v = ev(&pf, delta).await?; chg_prop(p, effect(kind), v).await? }
            SK::ClearEffects => command(p, "ClearEffects", &|_| "clear-effects".into()).await?,
            SK::SetPenAttr { attr, value } => { let v = ev(&pf, value).await?; set_prop(p, pen_attr(attr), v).await? }
            SK::ChangePenAttr { attr, delta } => { let v = ev(&pf, delta).await?; chg_prop(p, pen_attr(attr), v).await? }
            SK::CallRpc { host, service, rpc, args } => { do_rpc(&pf, host.as_deref(), service, rpc, args).await?; }
            SK::CallFn { function, args, upvars } => { call_fn(p.clone(), f.clone(), function, args, upvars).await?; }
            SK::CallClosure { new_entity, closure, args } => { do_call_clo(&pf, new_entity.as_deref(), closure, args).await?; }
            SK::ForkClosure { closure, args } => {
                let c = ev(&pf, closure).await?;
                let a = evals(p.clone(), f.clone(), args).await?;
                let (clo, locals, _) = clo_frame(&c, a, None)?;
                let frame = Rc::new(Frame { locals: RefCell::new(locals), ent: f.ent.clone(), lex: clo.lex });
                emit(p, Eff::Fork { clo, frame }).await;
            }
            SK::Clone { target } => { do_clone(&pf, target).await?; }
            SK::DeleteClone => if f.ent.original.is_some() { emit(p, Eff::Deleted(f.ent.clone())).await },
            SK::SendLocalMessage { target, msg_type, wait } => {
                let m = ev(&pf, msg_type).await?;
                let targets = match target {
                    None => None,
                    Some(t) => Some(match ev(&pf, t).await? {
                        V::List(l) => l.borrow().iter().map(as_ent).collect::<R1<Vec<_>>>()?,
                        v => vec![as_ent(&v)?],
                    }),
                };
                let msg = as_text(&m)?;
                if *wait {
                    let b = Rc::new(());
                    let done: Weak<()> = Rc::downgrade(&b);
                    emit(p, Eff::Broadcast { msg, barrier: Some(b), targets }).await;
                    let mut waited = 0;
                    while done.strong_count() > 0 { waited += 1; emit(p, Eff::Yield).await; }
                    p.w.note(if waited > 0 { "waiting broadcast waited" } else { "waiting broadcast resumed at once" });
                } else {
                    emit(p, Eff::Broadcast { msg, barrier: None, targets }).await;
                }
            }
            SK::SendNetworkMessage { target, msg_type, values } => { send_message(&pf, target, msg_type, values, false).await?; }
            SK::SendNetworkReply { value } => {
                let v = ev(&pf, value).await?;
                let j = to_json(&v, true)?;
                let k = p.reply_key.borrow_mut().take();
                if let Some((src, req)) = k { p.w.note("network replies sent"); let sent = p.w.host.borrow_mut().hand_over(format!("REPLY {src}/{req} {j}")); if let Err(m) = sent { p.w.note("network replies refused by the host"); return Err(custom(m).into()); } }
                else { p.w.note("network replies without a request"); }
            }
            SK::ResetTimer => { let t = now(p)?; p.w.timer.set(t); }
            SK::UnknownBlock { name, args } => { unknown(&pf, name, args, true).await?; }
            k => panic!("statement not modelled: {k:?}"),
        }
        Ok(())
    })
}
async fn set_costume(p: &P, f: &Frame, new: Option<Rc<Img>>) -> R<()> {
    let same = match (&*f.ent.costume.borrow(), &new) { (None, None) => true, (Some(a), Some(b)) => Rc::ptr_eq(a, b), _ => false };
    if same { return Ok(()); }
    *f.ent.costume.borrow_mut() = new.clone();
    p.w.note("costume switched");
    command(p, "SetCostume", &|_| format!("costume {}", new.as_ref().map(|x| x.label()).unwrap_or("-".into()))).await
}
async fn play_notes(p: &P, notes: V, beats: V, blocking: bool) -> R<()> {
    let b = as_num(&beats)?;
    let ns = match &notes { V::List(l) => l.borrow().iter().map(note).collect::<R1<Vec<_>>>()?, v => vec![note(v)?] };
    if b > 0.0 { p.w.note("notes played"); command(p, &format!("PlayNotes {{ blocking: {blocking} }}"), &|_| format!("notes {ns:?} {b:?} {blocking}")).await? }
    Ok(())
}
async fn goto(p: &P, go: bool, x: f64, y: f64) -> R<()> {
    if go { command(p, "GotoXY", &|_| format!("goto {x:?} {y:?}")).await } else { command(p, "PointTowardsXY", &|_| format!("point {x:?} {y:?}")).await }
}
async fn goto_target(p: &P, go: bool, v: V) -> R<()> {
    match &v {
        V::List(l) => {
            let (x, y) = {
                let l = l.borrow();
                if l.len() != 2 { return fail(&format!("InvalidListLength {{ expected: 2, got: {} }}", l.len())); }
                (as_num(&l[0])?, as_num(&l[1])?)
            };
            goto(p, go, x, y).await
        }
        V::Ent(t) => if go { command(p, "GotoEntity", &|s| format!("goto-entity {}", elabel(s.host, t))).await } else { command(p, "PointTowardsEntity", &|s| format!("point-entity {}", elabel(s.host, t))).await },
        _ => Err(conv(&v, "Entity").into()),
    }
}
async fn do_rpc(pf: &PF, host: Option<&'static str>, service: &'static str, rpc: &'static str, args: &'static [(netsblox_vm::compact_str::CompactString, Expr)]) -> R<V> {
    let mut vals = vec![];
    for (k, e) in args { vals.push((k.as_str(), ev(pf, e).await?)); }
    request_soft(&pf.0, &format!("Rpc {{ service: {service:?}, rpc: {rpc:?} }}"), None, &|s| {
        // named arguments form a map: a repeated name keeps its first place and its last value
        let mut m: Vec<(&str, &V)> = vec![];
        for (k, v) in &vals { match m.iter_mut().find(|x| x.0 == *k) { Some(x) => x.1 = v, None => m.push((k, v)) } }
        format!("rpc {host:?} {service}.{rpc} {}", m.iter().map(|(k, v)| format!("{k}={}", s.val(v))).collect::<Vec<_>>().join(" "))
    }, pf.0.w.cfg.rpc_soft, |p| &p.rpc_err).await
}
async fn do_call_clo(pf: &PF, new_entity: Option<&'static Expr>, closure: &'static Expr, args: &'static [Expr]) -> R<V> {
    let ne = match new_entity { Some(e) => Some(ev(pf, e).await?), None => None };
    let c = ev(pf, closure).await?;
    let a = evals(pf.0.clone(), pf.1.clone(), args).await?;
    call_clo(pf.0.clone(), pf.1.clone(), ne, c, a).await
}
async fn do_clone(pf: &PF, target: &'static Expr) -> R<V> {
    let t = as_ent(&ev(pf, target).await?)?;
    let w = &pf.0.w;
    let c = Rc::new(Ent {
        raw: w.fresh(), name: t.name.clone(), src: t.src, parent: Some(t.raw), original: Some(t.original.clone().unwrap_or(t.clone())),
        fields: RefCell::new(t.fields.borrow().iter().map(|(k, v)| (k.clone(), cel(v.borrow().clone()))).collect()),
        props: RefCell::new(t.props.borrow().clone()), costume: RefCell::new(t.costume.borrow().clone()), costumes: t.costumes.clone(), sounds: t.sounds.clone(),
    });
    w.note(if t.original.is_some() { "clones of clones" } else { "clones" });
    alloc_note(20 + 2 * t.fields.borrow().len());
    emit(&pf.0, Eff::Cloned(c.clone())).await;
    Ok(V::Ent(c))
}
async fn send_message(pf: &PF, target: &'static Expr, msg_type: &'static str, values: &'static [(netsblox_vm::compact_str::CompactString, Expr)], expect: bool) -> R<Option<V>> {
    let p = &pf.0;
    let mut vals = vec![];
    for (k, e) in values { vals.push((k.to_string(), ev(pf, e).await?)); }
    let t = ev(pf, target).await?;
    let bad = |v: &V| format!("VariadicConversionError {{ got: {}, expected: Text }}", v.ty());
    let targets: Vec<String> = match &t {
        V::Text(s) => vec![s.to_string()],
        V::List(l) => l.borrow().iter().map(|v| match v { V::Text(s) => Ok(s.to_string()), v => Err(bad(v)) }).collect::<R1<_>>()?,
        v => return Err(bad(v).into()),
    };
    let mut m: Vec<(String, serde_json::Value)> = vec![];
    for (k, v) in vals { let j = to_json(&v, true)?; match m.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = j, None => m.push((k, j)) } }
    let n = {
        let mut h = p.w.host.borrow_mut();
        if let Err(m) = h.hand_over(format!("SEND {msg_type} [{}] to {targets:?} {expect}", m.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "))) { p.w.note("messages refused by the host"); return Err(custom(m).into()); }
        if expect { Some(h.issue_reply()) } else { None }
    };
    p.w.note("messages sent");
    let Some(n) = n else { return Ok(None) };
    loop {
        let r = p.w.host.borrow_mut().poll_reply(n);
        match r {
            None => emit(p, Eff::Yield).await,
            Some(Reply::Timeout) => { p.w.note("message replies timed out"); return Ok(Some(text(""))) }
            Some(Reply::Null) => return fail("FromNetsBloxJsonError { error: Null }"),
            Some(Reply::Val(v)) => { p.w.note("message replies received"); return Ok(Some(V::from_h(&v))) }
        }
    }
}
async fn variadic(pf: &PF, e: &'static Expr) -> R<Result<Vec<V>, V>> {
    Ok(match &e.kind {
        EK::Value(ast::Value::List(vs, _)) => Ok(vs.iter().map(lit).collect::<R<Vec<_>>>()?),
        EK::MakeList { values } => Ok(evals(pf.0.clone(), pf.1.clone(), values).await?),
        _ => Err(ev(pf, e).await?),
    })
}
async fn items(pf: &PF, e: &'static Expr) -> R<Vec<V>> {
    match variadic(pf, e).await? { Ok(x) => Ok(x), Err(v) => { let l = as_list(&v)?; alloc_note(l.borrow().len()); let r = l.borrow().clone(); Ok(r) } }
}
async fn unknown(pf: &PF, name: &'static str, args: &'static [Expr], stmt: bool) -> R<V> {
    let p = &pf.0;
    match name {
        "nativeCallSyscall" | "nativeRunSyscall" if stmt == (name == "nativeRunSyscall") => {
            let n = ev(pf, &args[0]).await?;
            let vals = items(pf, &args[1]).await?;
            let n = as_text(&n)?;
            let mut given = None;
            match &*n {
                "push" => { p.tokens.set(p.tokens.get() + 1); given = Some(V::Num(p.tokens.get() as f64)); }
                "depth" => given = Some(V::Num(p.tokens.get() as f64)),
                "native" => given = Some(V::from_h(&HVal::Native(7))),
                _ => (),
            }
            request_soft(p, &format!("Syscall {{ name: {:?} }}", &*n), given, &|s| format!("sys {:?} {}", &*n, vals.iter().map(|x| s.val(x)).collect::<Vec<_>>().join(" ")), p.w.cfg.sys_soft, |p| &p.sys_err).await
        }
        "nativeSyscallError" => Ok(p.sys_err.borrow().clone().unwrap_or_else(|| text(""))),
        _ => {
            let vals = evals(p.clone(), pf.1.clone(), args).await?;
            request(p, &format!("UnknownBlock {{ name: {name:?} }}"), None, &|s| format!("unk {name:?} {}", vals.iter().map(|x| s.val(x)).collect::<Vec<_>>().join(" "))).await
        }
    }
}

// ---- expressions ------------------------------------------------------------------------------------------------------------

fn evals(p: Rc<P>, f: Rc<Frame>, es: &'static [Expr]) -> BF<R<Vec<V>>> {
    Box::pin(async move {
        let mut r = Vec::with_capacity(es.len());
        for e in es { r.push(eval(p.clone(), f.clone(), e).await?); }
        Ok(r)
    })
}
fn eval(p: Rc<P>, f: Rc<Frame>, e: &'static Expr) -> BF<R<V>> {
    Box::pin(async move { let r = eval_inner((p, f), e).await; locate(r, e.info.location.as_deref()) })
}
fn tmap(v: &V, g: fn(&str) -> R1<V>) -> R1<V> { unary(v, &|x| g(&as_text(x)?)) }
fn strs<'a>(it: impl Iterator<Item = &'a str>) -> R1<V> { Ok(list(it.map(text).collect())) }
async fn eval_inner(pf: PF, e: &'static Expr) -> R<V> {
    let (p, f) = (&pf.0, &pf.1);
    tick(p)?;
    macro_rules! un { ($x:expr, $f:expr) => {{ let v = ev(&pf, $x).await?; Ok(num1(&v, $f)?) }} }
    macro_rules! bi { ($a:expr, $b:expr, $f:expr) => {{ let a = ev(&pf, $a).await?; let b = ev(&pf, $b).await?; Ok(num2(&a, &b, $f)?) }} }
    macro_rules! rel { ($a:expr, $b:expr, $r:expr) => {{ let a = ev(&pf, $a).await?; let b = ev(&pf, $b).await?; Ok(V::Bool(relate(&a, &b, $r)?)) }} }
    macro_rules! lst { ($x:expr) => { as_list(&ev(&pf, $x).await?)? } }
    match &e.kind {
        EK::Value(v) => lit(v),
        EK::Variable { var } => { let c = lookup(p, f, &var.trans_name)?; let v = c.borrow().clone(); Ok(v) }
        EK::Add { values } | EK::Mul { values } => {
            let vs = items(&pf, values).await?;
            let mul_ = matches!(&e.kind, EK::Mul { .. });
            match vs.len() {
                0 => Ok(V::Num(if mul_ { 1.0 } else { 0.0 })),
                1 => Ok(num1(&vs[0], |x| x)?),
                _ => { let mut acc = vs[0].clone(); for v in &vs[1..] { acc = if mul_ { mul(&acc, v)? } else { add(&acc, v)? }; } Ok(acc) }
            }
        }
        EK::Min { values } | EK::Max { values } => {
            let vs = items(&pf, values).await?;
            let r = if matches!(&e.kind, EK::Min { .. }) { Rel::Lt } else { Rel::Gt };
            let Some(first) = vs.first() else { return fail("EmptyList") };
            let mut best = first;
            for v in &vs[1..] { if relate(v, best, r)? { best = v; } }
            Ok(best.clone())
        }
        EK::Sub { left, right } => bi!(left, right, |a, b| a - b),
        EK::Div { left, right } => bi!(left, right, |a, b| a / b),
        EK::Mod { left, right } => bi!(left, right, modulo),
        EK::Pow { base, power } => bi!(base, power, f64::powf),
        EK::Log { value, base } => { let b = ev(&pf, base).await?; let v = ev(&pf, value).await?; Ok(binary(&b, &v, &|b, v| { let (v, b) = (as_num(v)?, as_num(b)?); Ok(V::Num(chk(v.log2() / b.log2())?)) })?) }
        EK::Atan2 { y, x } => bi!(y, x, |y, x| y.atan2(x).to_degrees()),
        EK::And { left, right } => { if !as_bool(&ev(&pf, left).await?)? { return Ok(V::Bool(false)); } Ok(V::Bool(as_bool(&ev(&pf, right).await?)?)) }
        EK::Or { left, right } => { if as_bool(&ev(&pf, left).await?)? { return Ok(V::Bool(true)); } Ok(V::Bool(as_bool(&ev(&pf, right).await?)?)) }
        EK::Conditional { condition, then, otherwise } => { let c = as_bool(&ev(&pf, condition).await?)?; ev(&pf, if c { then } else { otherwise }).await }
        EK::Identical { left, right } => { let a = ev(&pf, left).await?; let b = ev(&pf, right).await?; Ok(V::Bool(a.same(&b))) }
        EK::Eq { left, right } => rel!(left, right, Rel::Eq),
        EK::Neq { left, right } => rel!(left, right, Rel::Ne),
        EK::Less { left, right } => rel!(left, right, Rel::Lt),
        EK::LessEq { left, right } => rel!(left, right, Rel::Le),
        EK::Greater { left, right } => rel!(left, right, Rel::Gt),
        EK::GreaterEq { left, right } => rel!(left, right, Rel::Ge),
        EK::Range { start, stop } => { let a = ev(&pf, start).await?; let b = ev(&pf, stop).await?; Ok(binary(&a, &b, &|a, b| range(as_num(a)?, as_num(b)?))?) }
        EK::MakeList { values } => Ok(list(evals(p.clone(), f.clone(), values).await?)),
        EK::CopyList { list: l } => Ok(list(items(&pf, l).await?)),
        EK::ListCat { lists } => {
            let vs = items(&pf, lists).await?;
            let mut r = vec![];
            for v in &vs { r.extend(as_list(v)?.borrow().iter().cloned()); }
            Ok(list(r))
        }
        EK::ListLen { value } => Ok(V::Num(lst!(value).borrow().len() as f64)),
        EK::ListIsEmpty { value } => Ok(V::Bool(lst!(value).borrow().is_empty())),
        EK::ListRank { value } => Ok(V::Num(dims(&ev(&pf, value).await?)?.len() as f64)),
        EK::ListDims { value } => Ok(list(dims(&ev(&pf, value).await?)?.into_iter().map(|x| V::Num(x as f64)).collect())),
        EK::ListFlatten { value } => Ok(list(flatten(&ev(&pf, value).await?)?)),
        EK::ListColumns { value } => Ok(columns(&ev(&pf, value).await?)?),
        EK::ListRev { value } => { let l = lst!(value); let mut v = l.borrow().clone(); v.reverse(); Ok(list(v)) }
        EK::ListLines { value } => { let l = lst!(value); let v = l.borrow().iter().map(|x| Ok(as_text(x)?.to_string())).collect::<R1<Vec<_>>>()?; Ok(text(&v.join("\n"))) }
        EK::ListCsv { value } => Ok(csv_out(&ev(&pf, value).await?)?),
        EK::ListJson { value } => { let v = ev(&pf, value).await?; Ok(text(&to_json(&v, false)?.to_string())) }
        EK::ListReshape { value, dims } => { let v = ev(&pf, value).await?; let d = items(&pf, dims).await?; Ok(reshape(&v, &d)?) }
        EK::ListCombinations { sources } => { let vs = items(&pf, sources).await?; let ls = vs.iter().map(as_list).collect::<R1<Vec<_>>>()?; Ok(combinations(&ls)?) }
        EK::ListCdr { value } => { let l = lst!(value); if l.borrow().is_empty() { return Err(oob(1, 0).into()); } let v = l.borrow()[1..].to_vec(); Ok(list(v)) }
        EK::ListCons { item, list: l } => { let i = ev(&pf, item).await?; let l = lst!(l); let mut v = vec![i]; v.extend(l.borrow().iter().cloned()); Ok(list(v)) }
        EK::ListFind { list, value } => { let v = ev(&pf, value).await?; let l = lst!(list); Ok(V::Num(find(&l, &v)?.map(|i| i + 1).unwrap_or(0) as f64)) }
        EK::ListContains { list, value } => { let l = ev(&pf, list).await?; let v = ev(&pf, value).await?; Ok(V::Bool(find(&as_list(&l)?, &v)?.is_some())) }
        EK::ListGet { list, index: i } => {
            let i = ev(&pf, i).await?;
            let l = lst!(list);
            Ok(unary(&i, &|x| { let l = l.borrow(); let n = index(x, l.len())?; Ok(l[n].clone()) })?)
        }
        EK::ListGetRandom { list } => { let l = lst!(list); let n = l.borrow().len(); let i = drawn(p, n)?; let v = l.borrow()[i].clone(); Ok(v) }
        EK::StrGetRandom { string } => { let v = ev(&pf, string).await?; if matches!(v, V::List(_)) { return Err(Ctl::Fuel) } let s = as_text(&v)?.to_string(); let g: Vec<&str> = s.graphemes(true).collect(); let i = drawn(p, g.len())?; Ok(text(g[i])) }
        EK::Random { a, b } => {
            let (a, b) = (ev(&pf, a).await?, ev(&pf, b).await?);
            if matches!(a, V::List(_)) || matches!(b, V::List(_)) { return Err(Ctl::Fuel) }
            let (a, b) = (as_num(&a)?, as_num(&b)?);
            let (a, b) = (a.min(b), a.max(b));
            use rand::Rng as _;
            let (whole, mut h) = (a == a.round() && b == b.round(), p.w.host.borrow_mut());
            p.w.note("draws");
            let x = if whole && a.abs() <= 9007199254740992.0 && b.abs() <= 9007199254740992.0 { h.rng.random_range(a as i64..=b as i64) as f64 } else if (b - a).is_finite() { h.rng.random_range(a..=b) } else { 2.0 * h.rng.random_range(a / 2.0..=b / 2.0) };
            Ok(V::Num(if whole { x.round() } else { x }))
        }
        EK::ListGetLast { list } => { let l = lst!(list); let v = l.borrow().last().cloned(); match v { Some(x) => Ok(x), None => Err(oob(1, 0).into()) } }
        EK::StrGet { string, index: i } => {
            let i = ev(&pf, i).await?;
            let s = ev(&pf, string).await?;
            Ok(binary(&i, &s, &|i, s| { let s = as_text(s)?; let g: Vec<&str> = s.graphemes(true).collect(); Ok(text(g[index(i, g.len())?])) })?)
        }
        EK::StrGetLast { string } => { let v = ev(&pf, string).await?; Ok(tmap(&v, |s| s.graphemes(true).next_back().map(text).ok_or_else(|| oob(1, 0)))?) }
        EK::StrCat { values } => { let vs = items(&pf, values).await?; for v in &vs { taint(p, v); } Ok(text(&vs.iter().map(|v| show(v, false)).collect::<String>())) }
        EK::StrLen { value } => { let v = ev(&pf, value).await?; Ok(tmap(&v, |s| Ok(V::Num(s.graphemes(true).count() as f64)))?) }
        EK::UnicodeToChar { value } => { let v = ev(&pf, value).await?; Ok(unary(&v, &|x| uni_to_char(as_num(x)?))?) }
        EK::CharToUnicode { value } => { let v = ev(&pf, value).await?; Ok(tmap(&v, |s| Ok(char_to_uni(s)))?) }
        EK::Not { value } => { let v = ev(&pf, value).await?; Ok(unary(&v, &|x| Ok(V::Bool(!as_bool(x)?)))?) }
        EK::Neg { value } => un!(value, |x| -x),
        EK::Abs { value } => un!(value, f64::abs),
        EK::Sqrt { value } => un!(value, f64::sqrt),
        EK::Floor { value } => un!(value, f64::floor),
        EK::Ceil { value } => un!(value, f64::ceil),
        EK::Round { value } => un!(value, round_away),
        EK::Sin { value } => un!(value, |x| x.to_radians().sin()),
        EK::Cos { value } => un!(value, |x| x.to_radians().cos()),
        EK::Tan { value } => un!(value, |x| x.to_radians().tan()),
        EK::Asin { value } => un!(value, |x| x.asin().to_degrees()),
        EK::Acos { value } => un!(value, |x| x.acos().to_degrees()),
        EK::Atan { value } => un!(value, |x| x.atan().to_degrees()),
        EK::CallRpc { host, service, rpc, args } => do_rpc(&pf, host.as_deref(), service, rpc, args).await,
        EK::CallFn { function, args, upvars } => call_fn(p.clone(), f.clone(), function, args, upvars).await,
        EK::CallClosure { new_entity, closure, args } => do_call_clo(&pf, new_entity.as_deref(), closure, args).await,
        EK::YPos => get_prop(p, "YPos").await,
        EK::XPos => get_prop(p, "XPos").await,
        EK::Heading => get_prop(p, "Heading").await,
        EK::PenDown => get_prop(p, "PenDown").await,
        EK::Size => get_prop(p, "Size").await,
        EK::IsVisible => get_prop(p, "Visible").await,
        EK::Effect { kind } => get_prop(p, effect(kind)).await,
        EK::PenAttr { attr } => get_prop(p, pen_attr(attr)).await,
        EK::This => Ok(V::Ent(f.ent.clone())),
        EK::Entity { trans_name, .. } => match p.w.ents.borrow().get(trans_name.as_str()) { Some(x) => Ok(V::Ent(x.clone())), None => fail(&format!("UndefinedEntity {{ name: {:?} }}", trans_name.as_str())) },
        EK::RpcError => Ok(p.rpc_err.borrow().clone().unwrap_or_else(|| text(""))),
        EK::Answer => Ok(p.answer.borrow().clone().unwrap_or_else(|| text(""))),
        EK::Message => Ok(p.message.borrow().clone().unwrap_or_else(|| text(""))),
        EK::RealTime { query } => {
            p.w.note("date read");
            let h = p.w.host.borrow();
            if h.cfg.time_mode != TimeMode::Real { return fail("NotSupported { feature: RealTime }") }
            if let ast::TimeQuery::UnixTimestampMs = query { return Ok(V::Num(h.now as f64)) }
            let secs = (h.now / 1000) as i64 + h.cfg.zone_min as i64 * 60;
            let (days, sec) = (secs.div_euclid(86400), secs.rem_euclid(86400));
            // the calendar, counted year by year and month by month
            let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            let (mut y, mut d) = (1970 + days.div_euclid(146097) * 400, days.rem_euclid(146097));
            while d >= if leap(y) { 366 } else { 365 } { d -= if leap(y) { 366 } else { 365 }; y += 1; }
            let mut m = 0;
            loop { let n = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]; if d < n { break; } d -= n; m += 1; }
            Ok(V::Num(match query {
                ast::TimeQuery::Year => y, ast::TimeQuery::Month => m as i64 + 1, ast::TimeQuery::Date => d + 1,
                ast::TimeQuery::DayOfWeek => (days + 4).rem_euclid(7) + 1,
                ast::TimeQuery::Hour => sec / 3600, ast::TimeQuery::Minute => sec / 60 % 60, ast::TimeQuery::Second => sec % 60,
                ast::TimeQuery::UnixTimestampMs => unreachable!(),
            } as f64))
        }
        EK::Timer => { let t = now(p)?; Ok(V::Num(t.saturating_sub(p.w.timer.get()) as f64 / 1000.0)) }
        EK::Closure { params, captures, stmts, .. } => {
            let mut caps = vec![];
            for c in captures { caps.push((c.trans_name.to_string(), lookup(p, f, &c.trans_name)?)); }
            p.w.note("rings made");
            Ok(V::Clo(Rc::new(Clo { params: params.iter().map(|x| x.trans_name.to_string()).collect(), captures: caps, body: stmts, lex: f.lex })))
        }
        EK::TextSplit { text: t, mode } => {
            let v = ev(&pf, t).await?;
            use ast::TextSplitMode as M;
            Ok(match mode {
                M::Letter => tmap(&v, |s| Ok(list(letters(s)))),
                M::Word => tmap(&v, |s| strs(s.unicode_words())),
                M::Tab => tmap(&v, |s| strs(s.split('\t'))),
                M::CR => tmap(&v, |s| strs(s.split('\r'))),
                M::LF => tmap(&v, |s| strs(s.lines())),
                M::Csv => tmap(&v, csv_in),
                M::Json => tmap(&v, split_json),
                M::Custom(sep) => { let sep = ev(&pf, sep).await?; binary(&v, &sep, &|a, b| { let (a, b) = (as_text(a)?, as_text(b)?); strs(a.split(&*b)) }) }
            }?)
        }
        EK::Map { f: g, list: l } | EK::Keep { f: g, list: l } => {
            let g = ev(&pf, g).await?;
            let vs = lst!(l).borrow().clone();
            let keep = matches!(&e.kind, EK::Keep { .. });
            // the result list exists before the first call
            let res: L = Rc::new(RefCell::new(vec![]));
            for v in vs {
                tick(p)?;
                let r = call_clo(p.clone(), f.clone(), None, g.clone(), vec![v.clone()]).await?;
                if keep { if as_bool(&r)? { res.borrow_mut().push(v); } } else { res.borrow_mut().push(r); }
                alloc_note(1);
                yield_(p).await;
            }
            Ok(V::List(res))
        }
        EK::FindFirst { f: g, list: l } => {
            let g = ev(&pf, g).await?;
            let vs = lst!(l).borrow().clone();
            for v in vs {
                tick(p)?;
                let r = call_clo(p.clone(), f.clone(), None, g.clone(), vec![v.clone()]).await?;
                if as_bool(&r)? { return Ok(v); }
                yield_(p).await;
            }
            Ok(text(""))
        }
        EK::Combine { f: g, list: l } => {
            let vs = lst!(l).borrow().clone();
            let g = ev(&pf, g).await?;
            let mut it = vs.into_iter();
            let Some(mut acc) = it.next() else { return Ok(V::Num(0.0)) };
            for v in it {
                tick(p)?;
                acc = call_clo(p.clone(), f.clone(), None, g.clone(), vec![acc, v]).await?;
                yield_(p).await;
            }
            Ok(acc)
        }
        EK::NetworkMessageReply { target, msg_type, values } => Ok(send_message(&pf, target, msg_type, values, true).await?.unwrap()),
        EK::CostumeList => Ok(list(f.ent.costumes.iter().map(|x| V::Image(x.1.clone())).collect())),
        EK::Costume => Ok(f.ent.costume.borrow().clone().map(V::Image).unwrap_or_else(|| text(""))),
        EK::CostumeNumber => { let c = f.ent.costume.borrow().clone(); Ok(V::Num(c.and_then(|c| f.ent.costumes.iter().position(|x| Rc::ptr_eq(&x.1, &c))).map(|i| i + 1).unwrap_or(0) as f64)) }
        EK::CostumeName { costume } => {
            let v = ev(&pf, costume).await?;
            match &v {
                V::Text(s) if s.is_empty() => Ok(text("")),
                V::Text(s) => match f.ent.costumes.iter().find(|c| c.0 == **s) { Some(c) => Ok(text(&c.1.name)), None => fail(&format!("UndefinedCostume {{ name: {:?} }}", &**s)) },
                V::Image(i) => Ok(text(&i.name)),
                _ => Err(conv(&v, "Image").into()),
            }
        }
        EK::SoundList => Ok(list(f.ent.sounds.iter().map(|x| V::Audio(x.1.clone())).collect())),
        EK::SoundName { sound } => {
            let v = ev(&pf, sound).await?;
            match &v {
                V::Text(s) => match f.ent.sounds.iter().find(|c| c.0 == **s) { Some(c) => Ok(text(&c.1.name)), None => fail(&format!("UndefinedSound {{ name: {:?} }}", &**s)) },
                V::Audio(i) => Ok(text(&i.name)),
                _ => Err(conv(&v, "Audio").into()),
            }
        }
        EK::Clone { target } => do_clone(&pf, target).await,
        EK::TypeQuery { value, ty } => {
            let v = ev(&pf, value).await?;
            use ast::ValueType as T;
            Ok(V::Bool(match ty { T::Number => matches!(v, V::Num(_)), T::Text => matches!(v, V::Text(_)), T::Bool => matches!(v, V::Bool(_)), T::List => matches!(v, V::List(_)), T::Sprite => matches!(v, V::Ent(_)), T::Costume => matches!(v, V::Image(_)), T::Sound => matches!(v, V::Audio(_)), _ => unreachable!() }))
        }
        EK::UnknownBlock { name, args } => unknown(&pf, name, args, false).await,
        k => panic!("expression not modelled: {k:?}"),
    }
}
/// remembers that a value whose text is implementation-defined was turned into text
fn taint(p: &P, v: &V) {
    fn go(v: &V, seen: &mut BTreeSet<usize>) -> bool {
        match v { V::Clo(_) | V::Image(_) | V::Audio(_) => true, V::List(l) => seen.insert(key(l)) && l.borrow().iter().any(|x| go(x, seen)), _ => false }
    }
    if go(v, &mut BTreeSet::new()) { p.w.tainted.set(true); }
}

/// a position drawn at random, as the host draws it
fn drawn(p: &P, n: usize) -> R1<usize> { use rand::Rng as _; if n == 0 { return Err(oob(1, 0)); } p.w.note("draws"); Ok(p.w.host.borrow_mut().rng.random_range(0..n)) }

// ---- scheduler --------------------------------------------------------------------------------------------------------------

struct Ctx { p: Rc<P>, locals: BTreeMap<String, Cel>, barrier: Option<Rc<()>> }
struct Script { hat: &'static HK, ent: Rc<Ent>, stmts: &'static [Stmt], proc: Option<u64>, queue: VecDeque<Ctx> }
struct Proc { p: Rc<P>, root: Rc<Ent>, fut: BF<R<V>>, #[allow(dead_code)] barrier: Option<Rc<()>> }
pub struct Model { pub w: Rc<World>, scripts: Vec<Script>, withheld: VecDeque<Script>, procs: BTreeMap<u64, Proc>, queue: VecDeque<u64>, pub watchers: Vec<(String, Weak<RefCell<V>>)>, watched: Vec<Weak<RefCell<V>>>, ent_order: Vec<Rc<Ent>>, paused: u64 }

#[derive(Clone, Debug)]
pub enum PlanInput {
    Start, Stop,
    Key(netsblox_vm::runtime::KeyCode), KeyUp(netsblox_vm::runtime::KeyCode),
    Custom { name: String, args: Vec<(String, HVal)>, interrupt: bool, max_queue: usize },
    Msg(InMsg),
    /// the host adds the next of the scripts it withheld
    Add,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End { Idle, Turns, Fuel }

impl Model {
    /// the instantiated project
    pub fn new(role: &'static Role, host: Rc<RefCell<Host>>, cfg: ModelCfg) -> Model {
        ALLOC.with(|a| a.set(0));
        ALLOC_CAP.with(|a| a.set(cfg.alloc_cap));
        let t0 = host.borrow().time_ms().unwrap_or(0);
        let w = Rc::new(World { role, host, cfg, globals: Default::default(), ents: Default::default(), fuel: Cell::new(cfg.fuel), slot: RefCell::new(None), timer: Cell::new(t0), evals: Cell::new(0), tainted: Cell::new(false), next_raw: Cell::new(1), cov: Default::default() });
        let mut m = Model { w: w.clone(), scripts: vec![], withheld: VecDeque::new(), procs: BTreeMap::new(), queue: VecDeque::new(), watchers: vec![], watched: vec![], ent_order: vec![], paused: 0 };
        let mut init = Init::default();
        for g in &role.globals { init.scan(&g.init); }
        for e in &role.entities { for x in e.fields.iter().chain(&e.costumes).chain(&e.sounds) { init.scan(&x.init); } }
        init.fill();
        for g in &role.globals { let v = init.value(&g.init); w.globals.borrow_mut().insert(g.def.name.to_string(), cel(v)); }
        for e in &role.entities {
            let media = |xs: &'static [ast::VariableDefInit], init: &mut Init| -> Vec<(String, Rc<Img>)> {
                let mut r: Vec<(String, Rc<Img>)> = vec![];
                for x in xs {
                    if let V::Image(i) | V::Audio(i) = init.value(&x.init) { match r.iter_mut().find(|c| c.0 == x.def.name.as_str()) { Some(c) => c.1 = i, None => r.push((x.def.name.to_string(), i)) } }
                }
                r
            };
            let costumes = media(&e.costumes, &mut init);
            let sounds = media(&e.sounds, &mut init);
            let mut fields = BTreeMap::new();
            for x in &e.fields { fields.insert(x.def.name.to_string(), cel(init.value(&x.init))); }
            let costume = e.active_costume.and_then(|i| costumes.get(i)).map(|x| x.1.clone());
            let ent = Rc::new(Ent { raw: w.fresh(), name: e.name.to_string(), src: e, parent: None, original: None, fields: RefCell::new(fields), props: Default::default(), costume: RefCell::new(costume), costumes: Rc::new(costumes), sounds: Rc::new(sounds) });
            w.ents.borrow_mut().insert(e.name.to_string(), ent.clone());
            m.ent_order.push(ent.clone());
            for s in &e.scripts {
                let Some(h) = &s.hat else { continue };
                m.scripts.push(Script { hat: &h.kind, ent: ent.clone(), stmts: &s.stmts, proc: None, queue: VecDeque::new() });
            }
        }
        m
    }
    /// the scripts in another order, given as numbers of the present one
    pub fn reorder(&mut self, order: &[usize], withheld: usize) {
        if order.is_empty() { return }
        assert_eq!(order.len(), self.scripts.len());
        let mut old: Vec<Option<Script>> = std::mem::take(&mut self.scripts).into_iter().map(Some).collect();
        self.scripts = order.iter().map(|i| old[*i].take().unwrap()).collect();
        self.withheld = self.scripts.split_off(order.len() - withheld).into();
    }
    fn ctx(&self, disp: Option<u64>, msg: Option<Rc<str>>, reply: Option<(String, String)>, locals: BTreeMap<String, Cel>, barrier: Option<Rc<()>>) -> Ctx {
        let p = Rc::new(P {
            raw: self.w.fresh(), disp, w: self.w.clone(), tokens: Cell::new(0), warp: Cell::new(0), frames: Default::default(), sys_err: Default::default(), rpc_err: Default::default(),
            answer: Default::default(), message: RefCell::new(msg.map(V::Text)), reply_key: RefCell::new(reply),
        });
        Ctx { p, locals, barrier }
    }
    fn spawn(&mut self, c: Ctx, ent: Rc<Ent>, lex: Option<&'static AE>, body: &'static [Stmt]) -> u64 {
        let fr = Rc::new(Frame { locals: RefCell::new(c.locals), ent: ent.clone(), lex });
        c.p.frames.borrow_mut().push(fr.clone());
        let p = c.p.clone();
        let fut: BF<R<V>> = Box::pin(async move {
            match stmts(p, fr.clone(), body).await {
                Ok(()) => Ok(text("")),
                Err(Ctl::Ret(v)) => Ok(v),
                Err(Ctl::Err(mut e)) => { let cur = e.cur.take(); e.trace.push((cur, fr)); Err(Ctl::Err(e)) }
                Err(x) => Err(x),
            }
        });
        let id = c.p.raw;
        self.procs.insert(id, Proc { p: c.p, root: ent, fut, barrier: c.barrier });
        self.queue.push_back(id);
        id
    }
    fn consume(&mut self, i: usize) {
        if let Some(id) = self.scripts[i].proc { if self.procs.contains_key(&id) { return; } }
        self.scripts[i].proc = None;
        if let Some(c) = self.scripts[i].queue.pop_front() {
            let (e, b) = (self.scripts[i].ent.clone(), self.scripts[i].stmts);
            let lex = Some(e.src);
            let id = self.spawn(c, e, lex, b);
            self.scripts[i].proc = Some(id);
        }
    }
    fn consume_all(&mut self) { for i in 0..self.scripts.len() { self.consume(i); } }
    fn stop_script(&mut self, i: usize) {
        if let Some(id) = self.scripts[i].proc.take() { self.procs.remove(&id); }
        self.scripts[i].queue.clear();
    }
    fn schedule(&mut self, i: usize, c: Ctx, max: usize) {
        self.scripts[i].queue.push_back(c);
        self.consume(i);
        if self.scripts[i].queue.len() > max { self.w.note("activation dropped"); self.scripts[i].queue.pop_back(); }
        else if !self.scripts[i].queue.is_empty() { self.w.note("activation queued"); }
        else { self.w.note("activation started"); }
    }
    fn bind(fields: &[ast::VariableRef], args: &[(String, HVal)]) -> BTreeMap<String, Cel> {
        fields.iter().map(|f| (f.trans_name.to_string(), cel(args.iter().rev().find(|a| a.0 == f.trans_name.as_str()).map(|a| V::from_h(&a.1)).unwrap_or(V::Num(0.0))))).collect()
    }
    fn input(&mut self, inp: &PlanInput) {
        use netsblox_vm::runtime::KeyCode;
        match inp {
            PlanInput::Start => for i in 0..self.scripts.len() {
                if !matches!(self.scripts[i].hat, HK::OnFlag) { continue; }
                self.consume_all();
                self.stop_script(i);
                let c = self.ctx(None, None, None, BTreeMap::new(), None);
                self.schedule(i, c, 0);
            },
            PlanInput::Stop => {
                for i in 0..self.scripts.len() { self.stop_script(i); }
                self.procs.clear();
                self.queue.clear();
            }
            PlanInput::Key(k) => for i in 0..self.scripts.len() {
                let HK::OnKey { key } = self.scripts[i].hat else { continue };
                let hit = match (key.as_str(), k) {
                    ("any key", _) => true,
                    ("up arrow", KeyCode::Up) | ("down arrow", KeyCode::Down) | ("left arrow", KeyCode::Left) | ("right arrow", KeyCode::Right) | ("enter", KeyCode::Enter) | ("space", KeyCode::Char(' ')) => true,
                    (s, KeyCode::Char(c)) => s.chars().count() == 1 && s.to_lowercase() == c.to_string(),
                    _ => false,
                };
                if !hit { continue; }
                self.consume_all();
                let c = self.ctx(None, None, None, BTreeMap::new(), None);
                self.schedule(i, c, 0);
            },
            PlanInput::KeyUp(_) => (),
            PlanInput::Add => if let Some(s) = self.withheld.pop_front() { self.w.note("scripts added to a running project"); self.scripts.push(s); },
            PlanInput::Custom { name, args, interrupt, max_queue } => for i in 0..self.scripts.len() {
                let HK::Unknown { name: n, fields } = self.scripts[i].hat else { continue };
                if n != name { continue; }
                self.consume_all();
                if *interrupt { self.stop_script(i); }
                let c = self.ctx(None, None, None, Self::bind(fields, args), None);
                self.schedule(i, c, *max_queue);
            },
            PlanInput::Msg(m) => self.w.host.borrow_mut().inbox.push_back(m.clone()),
        }
    }
    fn deliver(&mut self, m: InMsg) {
        for i in 0..self.scripts.len() {
            let HK::NetworkMessage { msg_type, fields } = self.scripts[i].hat else { continue };
            if msg_type.as_str() != m.msg_type { continue; }
            self.w.note("messages delivered");
            self.consume_all();
            let c = self.ctx(None, None, m.reply.clone(), Self::bind(fields, &m.values), None);
            self.schedule(i, c, usize::MAX);
        }
    }
    fn log(&self, s: String) { self.w.host.borrow_mut().logline(s) }
    fn plabel(&self, p: &P) -> String { self.w.host.borrow_mut().plabel(p.raw, p.disp) }
    /// One turn: runs until a script yields, ends or fails, or nothing can run. false: idle.
    fn turn(&mut self) -> Result<bool, ()> {
        let msg = self.w.host.borrow_mut().receive();
        if let Some(m) = msg { self.deliver(m); }
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            let id = match self.queue.pop_front() { None => return Ok(false), Some(id) => id };
            if !self.procs.contains_key(&id) { continue; }
            let poll = self.procs.get_mut(&id).unwrap().fut.as_mut().poll(&mut cx);
            match poll {
                Poll::Ready(Err(Ctl::Fuel)) => return Err(()),
                Poll::Ready(Ok(v)) => {
                    let pr = self.procs.remove(&id).unwrap();
                    let pl = self.plabel(&pr.p);
                    let s = { let mut h = self.w.host.borrow_mut(); MSer::new(&mut h).val(&v) };
                    self.log(format!("T {pl} {s}"));
                    drop(pr);
                    self.consume_all();
                    return Ok(true);
                }
                Poll::Ready(Err(Ctl::Err(e))) => {
                    let pr = self.procs.remove(&id).unwrap();
                    let pl = self.plabel(&pr.p);
                    let cause = if e.custom { format!("Custom {{ msg: {:?} }}", e.text) } else { e.text.clone() };
                    self.log(format!("E {pl} {cause}"));
                    let top = &e.trace[0].1;
                    let mut s = format!("ET {pl} {} ", top.ent.name);
                    for (loc, fr) in e.trace.iter().rev() {
                        if let Some(l) = loc {
                            for v in fr.locals.borrow().values() { taint(&pr.p, &v.borrow()); }
                            s += &format!("@{l}{{{}}}", fr.locals.borrow().iter().map(|(k, v)| format!("{k}={}", show(&v.borrow(), true))).collect::<Vec<_>>().join(";"));
                        }
                    }
                    self.w.note(match e.trace.len() { 1 => "errors at depth 1", 2 => "errors at depth 2", _ => "errors at depth 3+" });
                    self.log(s);
                    let vars = |m: &BTreeMap<String, Cel>| -> String { m.iter().map(|(k, v)| { taint(&pr.p, &v.borrow()); format!("{k}={}", show(&v.borrow(), true)) }).collect::<Vec<_>>().join(";") };
                    let s = format!("EV {} | {}", vars(&top.ent.fields.borrow()), vars(&self.w.globals.borrow()));
                    self.log(s);
                    drop(pr);
                    self.consume_all();
                    return Ok(true);
                }
                Poll::Ready(Err(Ctl::Abort)) | Poll::Ready(Err(Ctl::Ret(_))) => unreachable!(),
                Poll::Pending => {
                    let eff = self.w.slot.borrow_mut().take().expect("effect");
                    {
                        let n = self.scripts.len() as u64;
                        let cost = if matches!(eff, Eff::Yield) { n / 4 } else { 1 + n * 4 };
                        if self.w.fuel.get() < cost { return Err(()); }
                        self.w.fuel.set(self.w.fuel.get() - cost);
                    }
                    match eff {
                        Eff::Yield => { self.consume_all(); self.queue.push_back(id); self.w.note("yields"); self.log("Y".into()); return Ok(true); }
                        Eff::Watch { create, name, ent, cell } => {
                            self.w.note("watchers");
                            // which variable it is, numbered by first appearance
                            let known = self.watched.iter().position(|c| c.ptr_eq(&Rc::downgrade(&cell))).or_else(|| (self.watched.len() < 64).then(|| { self.watched.push(Rc::downgrade(&cell)); self.watched.len() - 1 }));
                            let s = { let mut h = self.w.host.borrow_mut(); let el = elabel(&mut h, &ent); let v = MSer::new(&mut h).val(&cell.borrow()); format!("W{} {el}.{name} @{known:?} = {v}", if create { '+' } else { '-' }) };
                            self.log(s);
                            if create && self.watchers.len() < 64 { self.watchers.push((name, Rc::downgrade(&cell))); }
                            self.queue.push_front(id);
                        }
                        Eff::Pause => { self.paused += 1; self.log("PAUSE".into()); self.queue.push_front(id); }
                        Eff::Fork { clo, frame } => {
                            let disp = Some(id);
                            self.w.note("forks");
                            self.consume_all();
                            let locals = frame.locals.borrow().clone();
                            let c = self.ctx(disp, None, None, locals, None);
                            self.spawn(c, frame.ent.clone(), clo.lex, clo.body);
                            self.queue.push_front(id);
                        }
                        Eff::Cloned(c) => {
                            let orig = c.original.clone().unwrap();
                            let first = self.scripts.len();
                            let mut new: Vec<Script> = self.scripts.iter().filter(|s| Rc::ptr_eq(&s.ent, &orig)).map(|s| Script { hat: s.hat, ent: c.clone(), stmts: s.stmts, proc: None, queue: VecDeque::new() }).collect();
                            if new.iter().any(|s| matches!(s.hat, HK::OnClone)) { self.consume_all(); }
                            alloc_note(20 * new.len());
                            self.scripts.append(&mut new);
                            for i in first..self.scripts.len() {
                                if matches!(self.scripts[i].hat, HK::OnClone) { let x = self.ctx(Some(id), None, None, BTreeMap::new(), None); self.schedule(i, x, 0); }
                            }
                            self.queue.push_front(id);
                        }
                        Eff::Deleted(c) => {
                            self.w.note("clones deleted");
                            self.scripts.retain(|s| !Rc::ptr_eq(&s.ent, &c));
                            self.procs.retain(|_, p| !Rc::ptr_eq(&p.root, &c));
                            self.consume_all();
                            self.queue.push_front(id);
                        }
                        Eff::Broadcast { msg, barrier, targets } => {
                            let mut hits = 0;
                            let n = self.scripts.len();
                            for i in 0..n {
                                let HK::LocalMessage { msg_type } = self.scripts[i].hat else { continue };
                                if let Some(t) = msg_type { if t.as_str() != &*msg { continue; } }
                                if let Some(ts) = &targets { if !ts.iter().any(|t| Rc::ptr_eq(t, &self.scripts[i].ent)) { continue; } }
                                hits += 1;
                                if hits == 1 { self.consume_all(); }
                                if self.scripts[i].proc.is_some_and(|p| self.procs.contains_key(&p)) { self.w.note("receivers restarted"); }
                                if self.scripts[i].proc == Some(id) { self.w.note("sender restarted itself"); }
                                let alive = self.procs.contains_key(&id);
                                self.stop_script(i);
                                let c = self.ctx(Some(id).filter(|_| alive), Some(msg.clone()), None, BTreeMap::new(), barrier.clone());
                                self.schedule(i, c, 0);
                            }
                            self.w.note(match (hits, barrier.is_some()) { (0, _) => "broadcasts with no receiver", (1, false) => "broadcasts to one", (1, true) => "waiting broadcasts to one", (_, false) => "broadcasts to many", (_, true) => "waiting broadcasts to many" });
                            self.queue.push_front(id);
                        }
                        Eff::Stop(k) => {
                            let others = self.procs.len();
                            self.w.note(match k { StopK::Current => "stop this script", StopK::All => "stop all", StopK::Others => "stop other scripts", StopK::MyOthers => "stop other scripts in sprite" });
                            if others > 1 { self.w.note("stops with other scripts running"); }
                            match k {
                                StopK::Current => { self.procs.remove(&id); self.consume_all(); }
                                StopK::All => { for i in 0..self.scripts.len() { self.stop_script(i); } self.procs.clear(); self.queue.clear(); }
                                StopK::Others => { self.procs.retain(|k, _| *k == id); self.queue.clear(); self.queue.push_front(id); }
                                StopK::MyOthers => {
                                    let ent = self.procs[&id].p.frame().ent.clone();
                                    self.procs.retain(|k, p| *k == id || !Rc::ptr_eq(&p.root, &ent));
                                    self.queue.push_front(id);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn live(&self) -> usize { self.procs.len() }
    pub fn run(&mut self, plan: &[(u64, PlanInput)]) -> End {
        let mut next = 0;
        let mut turn = 0u64;
        loop {
            while next < plan.len() && plan[next].0 <= turn { self.log(format!("IN {:?}", plan[next].1)); self.input(&plan[next].1); next += 1; }
            match self.turn() {
                Err(()) => return End::Fuel,
                Ok(true) => { self.w.host.borrow_mut().end_turn(); turn += 1; }
                Ok(false) => {
                    self.log("I".into());
                    let more = { let mut h = self.w.host.borrow_mut(); h.end_turn(); !h.inbox.is_empty() };
                    turn += 1;
                    if !more { if next < plan.len() { turn = turn.max(plan[next].0); } else { return End::Idle; } }
                }
            }
            if spent() { return End::Fuel; }
            if turn >= self.w.cfg.turn_cap { return End::Turns; }
        }
    }
    /// final state of all variables and sprites, one line each, sharing preserved
    pub fn dump(&self) -> Vec<String> {
        let mut out = vec![];
        let mut g = self.w.host.borrow_mut();
        let mut s = MSer::new(&mut g);
        for (k, v) in self.w.globals.borrow().iter() { out.push(format!("G {k} = {}", s.val(&v.borrow()))); }
        let mut ents = self.ent_order.clone();
        ents.sort_by(|a, b| a.name.cmp(&b.name));
        for e in &ents {
            for (k, v) in e.fields.borrow().iter() { out.push(format!("F {}.{k} = {}", e.name, s.val(&v.borrow()))); }
            out.push(format!("S {} costume {} props {:?}", e.name, e.costume.borrow().as_ref().map(|x| x.name.clone()).unwrap_or("-".into()), e.props.borrow()));
        }
        out
    }
}

/// builds declared initial values, with the sharing the file declares
#[derive(Default)]
struct Init { shared: BTreeMap<usize, (L, &'static [ast::Value])>, media: BTreeMap<usize, V> }
impl Init {
    fn scan(&mut self, v: &'static ast::Value) {
        if let ast::Value::List(xs, id) = v {
            if let Some(id) = id { self.shared.entry(id.0).or_insert_with(|| (Rc::new(RefCell::new(vec![])), xs)); }
            for x in xs { self.scan(x); }
        }
    }
    fn fill(&mut self) {
        let all: Vec<(L, &'static [ast::Value])> = self.shared.values().cloned().collect();
        for (l, xs) in all { let v: Vec<V> = xs.iter().map(|x| self.value(x)).collect(); *l.borrow_mut() = v; }
    }
    fn value(&mut self, v: &'static ast::Value) -> V {
        match v {
            ast::Value::List(xs, None) => list(xs.iter().map(|x| self.value(x)).collect()),
            ast::Value::List(_, Some(id)) | ast::Value::Ref(id) => V::List(self.shared[&id.0].0.clone()),
            ast::Value::Image(x) => self.media.entry(Rc::as_ptr(x) as *const () as usize).or_insert_with(|| V::Image(Rc::new(Img { name: x.2.to_string(), content: x.0.clone() }))).clone(),
            ast::Value::Audio(x) => self.media.entry(Rc::as_ptr(x) as *const () as usize).or_insert_with(|| V::Audio(Rc::new(Img { name: x.1.to_string(), content: x.0.clone() }))).clone(),
            v => match lit(v) { Ok(v) => v, Err(_) => V::Num(0.0) },
        }
    }
}
