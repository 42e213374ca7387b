//! Runs one generated case on the real VM (monitored host, event log) and on the reference model, and compares the logs.
use crate::host::*;
use crate::model::*;
use crate::sys::{self, *};
use netsblox_vm::ast::Role;
use netsblox_vm::bytecode::*;
use netsblox_vm::gc::*;
use netsblox_vm::process::ErrorSummary;
use netsblox_vm::project::*;
use netsblox_vm::runtime::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GcMode { Never, Debt, Every(u32) }

#[derive(Clone)]
pub struct Case { pub role: &'static Role, pub plan: Vec<(u64, PlanInput)>, pub host: HostCfg, pub mcfg: ModelCfg, pub gc: GcMode, pub reload: bool, pub layers: Option<(u64, Vec<(bool, bool)>)>, pub manual: Option<Rc<crate::direct::Manual>> }

#[derive(Clone, Debug, PartialEq)]
pub enum VEnd { Idle, Turns, Steps }
pub struct VmRun {
    pub log: Vec<String>, pub dump: Vec<String>, pub end: VEnd, pub broken: Vec<String>, pub steps: u64, pub ops: u64, pub freedom: u64, pub completed: u64,
    pub code_size: usize,
    pub said: Vec<(u64, Option<u64>, String, Vec<HVal>)>,
    /// value of each watcher at the end (None: its variable is gone), after a full collection
    pub watchers: Vec<(String, Option<String>)>,
    pub collections: u64,
    /// operations handled by a layer, declined by all, not offered as no layer takes such; idle actions
    pub layers: [u64; 3], pub idle_actions: u64,
}
#[derive(Collect)]
#[collect(no_drop)]
pub struct WeakVar<'gc> { #[collect(require_static)] name: String, value: GcWeak<'gc, RefLock<Val<'gc>>> }
#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { pub proj: Project<'gc, C, Sys>, watchers: Vec<WeakVar<'gc>>, watched: Vec<GcWeak<'gc, RefLock<Val<'gc>>>>, dead: Vec<netsblox_vm::process::Process<'gc, C, Sys>> }
pub type EnvArena = Arena<Rootable![Env<'_>]>;

pub fn to_input(i: &PlanInput) -> Option<Input> {
    Some(match i {
        PlanInput::Start => Input::Start,
        PlanInput::Stop => Input::Stop,
        PlanInput::Key(key) => Input::KeyDown { key: *key },
        PlanInput::KeyUp(key) => Input::KeyUp { key: *key },
        PlanInput::Custom { name, args, interrupt, max_queue } => Input::CustomEvent { name: name.as_str().into(), args: args.iter().map(|(k, v)| (k.as_str().into(), to_simple(v))).collect(), interrupt: *interrupt, max_queue: *max_queue },
        PlanInput::Msg(_) | PlanInput::Add => return None,
    })
}

pub fn dump<'gc>(proj: &Project<'gc, C, Sys>, sys: &Sys) -> Vec<String> {
    let mut out = vec![];
    let gctx = proj.get_global_context();
    let gctx = gctx.borrow();
    let mut h = sys.host.borrow_mut();
    let mut s = Ser::new(&mut h);
    let mut vars: Vec<_> = gctx.globals.iter().collect();
    vars.sort_by(|a, b| a.0.cmp(b.0));
    for (k, v) in vars { out.push(format!("G {k} = {}", s.val(&v.get()))); }
    let mut ents: Vec<_> = gctx.entities.iter().collect();
    ents.sort_by(|a, b| a.0.cmp(b.0));
    for (_, e) in ents {
        let e = e.borrow();
        let mut vars: Vec<_> = e.fields.iter().collect();
        vars.sort_by(|a, b| a.0.cmp(b.0));
        for (k, v) in vars { out.push(format!("F {}.{k} = {}", e.name, s.val(&v.get()))); }
        out.push(format!("S {} costume {} props {:?}", e.name, e.costume.as_ref().map(|x| x.name.to_string()).unwrap_or("-".into()), e.state.props.borrow()));
    }
    out
}

pub fn compile(role: &Role, reload: bool) -> Result<(ByteCode, InitInfo, Locations), String> {
    let (bc, init, locs, _) = ByteCode::compile(role).map_err(|e| format!("{e:?}"))?;
    if !reload { return Ok((bc, init, locs)); }
    Ok((stored(bc, "code")?, stored(init, "initial state")?, stored(locs, "locations")?))
}
/// stored and loaded in a self-describing text format, a compact binary format and as a tree of named values; nothing may get lost
fn stored<T: serde::Serialize + serde::de::DeserializeOwned>(x: T, what: &str) -> Result<T, String> {
    let e = |m: &dyn std::fmt::Display| format!("{what} cannot be stored and loaded: {m}");
    let text = serde_json::to_string(&x).map_err(|x| e(&x))?;
    let x: T = serde_json::from_str(&text).map_err(|x| e(&x))?;
    let bytes = crate::bin::to_vec(&x).map_err(|x| e(&x))?;
    let x: T = crate::bin::from_slice(&bytes).map_err(|x| e(&x))?;
    let x: T = serde_json::from_value(serde_json::to_value(&x).map_err(|x| e(&x))?).map_err(|x| e(&x))?;
    if serde_json::to_string(&x).map_err(|x| e(&x))? != text { return Err(e(&"it is not the same afterwards")); }
    Ok(x)
}

pub fn settings(m: &ModelCfg) -> Settings {
    let e = |soft| if soft { ErrorScheme::Soft } else { ErrorScheme::Hard };
    Settings { max_call_depth: m.limit, rpc_error_scheme: e(m.rpc_soft), syscall_error_scheme: e(m.sys_soft) }
}

/// an idle action next to a counter of its own
struct Idler { thresh: usize, count: usize, fired: Rc<std::cell::Cell<u64>>, expected: u64, action: IdleAction }
impl Idler {
    fn new(thresh: usize) -> Idler { let fired = Rc::new(std::cell::Cell::new(0)); let f = fired.clone(); Idler { thresh, count: 0, fired, expected: 0, action: IdleAction::new(thresh, Box::new(move || f.set(f.get() + 1))) } }
    fn consume(&mut self, s: &ProjectStep<'_, C, Sys>) -> Option<String> {
        let idle = matches!(s, ProjectStep::Idle | ProjectStep::Yield | ProjectStep::Pause);
        if idle { self.count += 1; if self.count >= self.thresh { self.expected += 1; self.count = 0; } } else { self.count = 0; }
        self.action.consume(s);
        if self.fired.get() != self.expected { let m = format!("idle action of threshold {} acted {} times instead of {}", self.thresh, self.fired.get(), self.expected); self.expected = self.fired.get(); return Some(m); }
        None
    }
}
pub fn run_vm(case: &Case, step_cap: u64) -> Result<VmRun, String> {
    let (bc, init, locs) = compile(case.manual.as_ref().map(|m| m.role).unwrap_or(case.role), case.reload)?;
    // a project put together by hand
    let places: Option<Vec<(&str, usize, Event)>> = match &case.manual {
        None => None,
        Some(m) => { let (_, _, _, info) = ByteCode::compile(m.role).map_err(|e| format!("{e:?}"))?; Some(m.scripts.iter().map(|(e, s, ev)| Ok((m.role.entities[*e].name.as_str(), crate::direct::place(&info, m.role, *e, *s)?, ev.clone()))).collect::<Result<_, String>>()?) }
    };
    let mut next_place = match (&places, &case.manual) { (Some(l), Some(m)) => l.len() - m.withheld, _ => 0 };
    let code_size = bc.total_size();
    let mut sys = Sys::new(Host::new(case.host.clone()));
    if let Some((seed, has)) = &case.layers { sys.layers = Some(layered(*seed, has.clone())); }
    let sys = Rc::new(sys);
    let mut idlers: Vec<Idler> = if case.layers.is_some() { [0, 1, 2, 3, 5, 17].iter().map(|n| Idler::new(*n)).collect() } else { vec![] };
    let bc = Rc::new(bc);
    let st = settings(&case.mcfg);
    let mut arena = EnvArena::new(|mc| Env { proj: match &places {
        None => Project::from_init(mc, &init, bc, st, sys.clone()),
        Some(l) => {
            let ctx = Gc::new(mc, RefLock::new(GlobalContext::from_init(mc, &init, bc, st, sys.clone())));
            let mut p = Project::new(ctx);
            for (name, pos, event) in &l[..next_place] { let e = *ctx.borrow().entities.get(*name).unwrap(); p.add_script(*pos, e, event.clone()); }
            p
        }
    }, watchers: vec![], watched: vec![], dead: vec![] });
    arena.mutate(|_, env| { let g = env.proj.get_global_context(); let g = g.borrow(); if g.proj_name.as_str() != case.role.name.as_str() { sys.host.borrow_mut().logline(format!("project {:?} is named {:?}", case.role.name.as_str(), g.proj_name.as_str())); } });
    let keep_dead = case.host.seed % 3 == 0; // a host may hold on to the scripts which ended
    let (mut next, mut turn, mut steps, mut collections) = (0usize, 0u64, 0u64, 0u64);
    let mut top = true;
    let batch: u32 = match case.gc { GcMode::Never => 4096, GcMode::Debt => 64, GcMode::Every(n) => n };
    let end = loop {
        let end = arena.mutate_root(|mc, env| {
            for _ in 0..batch {
                if top {
                    top = false;
                    while next < case.plan.len() && case.plan[next].0 <= turn {
                        let i = &case.plan[next].1;
                        sys.host.borrow_mut().logline(format!("IN {i:?}"));
                        match (to_input(i), i) {
                            (Some(i), _) => env.proj.input(mc, i),
                            (None, PlanInput::Msg(m)) => sys.host.borrow_mut().inbox.push_back(m.clone()),
                            (None, PlanInput::Add) => if let Some((name, pos, event)) = places.as_ref().and_then(|l| l.get(next_place)) {
                                let e = *env.proj.get_global_context().borrow().entities.get(*name).unwrap();
                                env.proj.add_script(*pos, e, event.clone());
                                next_place += 1;
                            },
                            _ => unreachable!(),
                        }
                        next += 1;
                    }
                }
                steps += 1;
                if steps > step_cap { return Some(VEnd::Steps); }
                let res = env.proj.step(mc);
                for i in &mut idlers { if let Some(m) = i.consume(&res) { sys.host.borrow_mut().broken.push(m); } }
                match res {
                    ProjectStep::Normal => continue,
                    ProjectStep::Yield => sys.host.borrow_mut().logline("Y".into()),
                    ProjectStep::Pause => { sys.host.borrow_mut().logline("PAUSE".into()); continue }
                    ProjectStep::Watcher { create, watcher } => {
                        let mut h = sys.host.borrow_mut();
                        let el = match watcher.entity.upgrade(mc) { Some(e) => sys::elabel(&mut h, &e.borrow()), None => "dead".into() };
                        let v = match watcher.value.upgrade(mc) { Some(v) => Ser::new(&mut h).val(&v.borrow()), None => "dead".into() };
                        let known = env.watched.iter().position(|c| GcWeak::ptr_eq(*c, watcher.value)).or_else(|| (env.watched.len() < 64).then(|| { env.watched.push(watcher.value); env.watched.len() - 1 }));
                        h.logline(format!("W{} {el}.{} @{known:?} = {v}", if create { '+' } else { '-' }, watcher.name));
                        drop(h);
                        if create && env.watchers.len() < 64 { env.watchers.push(WeakVar { name: watcher.name.to_string(), value: watcher.value }); }
                        continue
                    }
                    ProjectStep::ProcessTerminated { result, proc } => {
                        let mut h = sys.host.borrow_mut();
                        let pl = h.plabel(proc.state.raw, proc.state.disp);
                        let v = Ser::new(&mut h).val(&result);
                        h.logline(format!("T {pl} {v}"));
                        drop(h);
                        if keep_dead && env.dead.len() < 16 { env.dead.push(proc); }
                    }
                    ProjectStep::Error { error, proc } => {
                        let sum = ErrorSummary::extract(&error, &proc, &locs);
                        let mut h = sys.host.borrow_mut();
                        let pl = h.plabel(proc.state.raw, proc.state.disp);
                        h.logline(format!("E {pl} {}", sum.cause));
                        let vars = |v: &[netsblox_vm::process::VarEntry]| { let mut v: Vec<_> = v.iter().map(|x| (x.name.clone(), format!("{}={}", x.name, x.value))).collect(); v.sort(); v.into_iter().map(|x| x.1).collect::<Vec<_>>().join(";") };
                        let mut s = format!("ET {pl} {} ", sum.entity);
                        for t in &sum.trace { s += &format!("@{}{{{}}}", t.location, vars(&t.locals)); }
                        h.logline(s);
                        h.logline(format!("EV {} | {}", vars(&sum.fields), vars(&sum.globals)));
                        drop(h);
                        if keep_dead && env.dead.len() < 16 { env.dead.push(proc); }
                    }
                    ProjectStep::Idle => {
                        sys.host.borrow_mut().logline("I".into());
                        let more = { let mut h = sys.host.borrow_mut(); h.end_turn(); !h.inbox.is_empty() };
                        turn += 1;
                        top = true;
                        if !more { if next < case.plan.len() { turn = turn.max(case.plan[next].0); } else { return Some(VEnd::Idle); } }
                        if turn >= case.mcfg.turn_cap { return Some(VEnd::Turns); }
                        continue
                    }
                }
                sys.host.borrow_mut().end_turn();
                turn += 1;
                top = true;
                if turn >= case.mcfg.turn_cap { return Some(VEnd::Turns); }
            }
            None
        });
        match case.gc { GcMode::Never => (), GcMode::Debt => arena.collect_debt(), GcMode::Every(_) => { arena.collect_all(); collections += 1; } }
        if let Some(e) = end { break e; }
    };
    let d = arena.mutate(|_, env| dump(&env.proj, &sys));
    let mut watchers = vec![];
    arena.mutate_root(|_, env| env.dead.clear());
    if arena.mutate(|_, env| !env.watchers.is_empty()) {
        arena.collect_all(); arena.collect_all();
        watchers = arena.mutate(|mc, env| env.watchers.iter().map(|w| (w.name.to_string(), w.value.upgrade(mc).map(|v| { let mut h = sys.host.borrow_mut(); Ser::new(&mut h).val(&v.borrow()) }))).collect());
    }
    drop(arena);
    let mut h = sys.host.borrow_mut();
    Ok(VmRun { said: std::mem::take(&mut h.said), log: std::mem::take(&mut h.log), dump: d, end, broken: std::mem::take(&mut h.broken), steps, ops: h.ops.len() as u64, freedom: h.freedom_checks, completed: h.completed, code_size, watchers, collections, layers: sys.layers.as_ref().map(|l| l.log.judged.get()).unwrap_or_default(), idle_actions: idlers.iter().map(|i| i.expected).sum() })
}

pub struct ModelRun { pub log: Vec<String>, pub dump: Vec<String>, pub end: End, pub tainted: bool, pub evals: u64, pub cov: std::collections::BTreeMap<&'static str, u64>, pub watchers: Vec<(String, Option<String>)> }
pub fn run_model(case: &Case) -> ModelRun {
    let host = Rc::new(RefCell::new(Host::new(case.host.clone())));
    let mut m = Model::new(case.role, host.clone(), case.mcfg);
    if let Some(x) = &case.manual { m.reorder(&x.order, x.withheld); }
    let mut end = m.run(&case.plan);
    let dump = m.dump();
    if crate::mval::spent() { end = End::Fuel; }
    let watchers = m.watchers.iter().map(|(n, w)| (n.clone(), w.upgrade().map(|v| { let mut h = host.borrow_mut(); crate::mval::MSer::new(&mut h).val(&v.borrow()) }))).collect();
    let log = std::mem::take(&mut host.borrow_mut().log);
    ModelRun { log, dump, end, tainted: m.w.tainted.get(), evals: m.w.evals.get(), cov: m.w.cov.take(), watchers }
}

/// Which kinds of log line a property's comparison looks at.
#[derive(Clone, Copy)]
pub struct View { pub yields: bool, pub traces: bool, pub watchers: bool }
pub const V_RESULT: View = View { yields: false, traces: false, watchers: true };
pub const V_SCHED: View = View { yields: true, traces: false, watchers: true };
pub const V_ALL: View = View { yields: true, traces: true, watchers: true };
pub fn keep(v: View, l: &str) -> bool {
    match l.as_bytes() {
        b"Y" => v.yields,
        [b'E', b'T' | b'V', ..] => v.traces,
        [b'W', ..] => v.watchers,
        _ => true,
    }
}

#[derive(Debug)]
pub enum Verdict { Same, Inconclusive(&'static str), Differ(String) }

pub struct Compared { pub verdict: Verdict, pub model: ModelRun, pub vm: Option<VmRun> }

pub fn first_diff(view: View, m: &[String], v: &[String], prefix: bool) -> Option<String> {
    let a: Vec<&String> = m.iter().filter(|x| keep(view, x)).collect();
    let b: Vec<&String> = v.iter().filter(|x| keep(view, x)).collect();
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => (),
            (_, None) if prefix => return None,
            (x, y) => {
                let ctx: Vec<String> = (i.saturating_sub(6)..i).map(|j| clip(a[j])).collect();
                return Some(format!("event {i}: expected {} observed {} after [{}]", x.map(|x| clip(x)).unwrap_or("<end of log>".into()), y.map(|x| clip(x)).unwrap_or("<end of log>".into()), ctx.join(" ; ")));
            }
        }
    }
    None
}
pub fn clip(s: &str) -> String { if s.chars().count() > 400 { format!("{}…", s.chars().take(400).collect::<String>()) } else { s.into() } }

pub fn compare(case: &Case, view: View) -> Compared {
    let model = run_model(case);
    if model.end == End::Fuel { return Compared { verdict: Verdict::Inconclusive("the program exceeds the exploration budget"), model, vm: None }; }
    let cap = 300 * model.evals + 200_000;
    let vm = match run_vm(case, cap) { Ok(v) => v, Err(e) => return Compared { verdict: Verdict::Differ(format!("the program was refused by the compiler: {e}")), model, vm: None } };
    let verdict = judge(&model, &vm, view);
    Compared { verdict, model, vm: Some(vm) }
}
pub fn judge(model: &ModelRun, vm: &VmRun, view: View) -> Verdict {
    if let Some(b) = vm.broken.first() { return Verdict::Differ(format!("host protocol: {b}")); }
    let cut = vm.log.len() >= LOG_CAP || model.log.len() >= LOG_CAP;
    let d = if let Some(d) = first_diff(view, &model.log, &vm.log, vm.end == VEnd::Steps) { Some(d) }
        else if vm.end == VEnd::Steps { Some(format!("still running after {} steps where the program's meaning is finished", vm.steps)) }
        else if cut { None }
        else if model.end == End::Idle && model.dump != vm.dump { Some(model.dump.iter().zip(&vm.dump).find(|(a, b)| a != b).map(|(a, b)| format!("final state: expected {} observed {}", clip(a), clip(b))).unwrap_or("final state: different variables".into())) }
        else { None };
    match d {
        None => Verdict::Same,
        Some(_) if model.tainted => Verdict::Inconclusive("the text of a ring or image was used"),
        Some(d) => Verdict::Differ(d),
    }
}
