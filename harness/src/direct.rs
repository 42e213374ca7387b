//! C37: hosts which assemble projects by hand from the places of scripts and blocks, and hosts which step a single process.
use crate::check::*;
use crate::host::*;
use crate::model::*;
use crate::progs;
use crate::props_diff::*;
use crate::rng::*;
use crate::run::*;
use crate::sys::{Ser, Sys, C};
use netsblox_vm::ast::{BlockInfo, Hat, HatKind, Role, Script, VariableRef, VarLocation};
use netsblox_vm::bytecode::{ByteCode, ScriptInfo};
use netsblox_vm::gc::*;
use netsblox_vm::process::*;
use netsblox_vm::project::*;
use netsblox_vm::runtime::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub enum Source { Script(usize), Method(usize), Block(usize) }
/// how a project is put together: the role which is compiled, and per entity what is added as a script for which event
/// (`order`: their order among all scripts of the reference, entity by entity; empty: the same; `withheld`: how many are added later)
pub struct Manual { pub role: &'static Role, pub scripts: Vec<(usize, Source, Event)>, pub order: Vec<usize>, pub withheld: usize }

/// the event a hat stands for
pub fn event_of(h: &HatKind) -> Option<Event> {
    Some(match h {
        HatKind::OnFlag => Event::OnFlag,
        HatKind::OnClone => Event::OnClone,
        HatKind::LocalMessage { msg_type } => Event::LocalMessage { msg_type: msg_type.clone() },
        HatKind::NetworkMessage { msg_type, fields } => Event::NetworkMessage { msg_type: msg_type.clone(), fields: fields.iter().map(|x| x.trans_name.clone()).collect() },
        HatKind::Unknown { name, fields } => Event::Custom { name: name.clone(), fields: fields.iter().map(|x| x.trans_name.clone()).collect() },
        HatKind::OnKey { key } => Event::OnKey { key_filter: match key.as_str() {
            "any key" => None,
            "up arrow" => Some(KeyCode::Up), "down arrow" => Some(KeyCode::Down), "left arrow" => Some(KeyCode::Left), "right arrow" => Some(KeyCode::Right),
            "enter" => Some(KeyCode::Enter), "space" => Some(KeyCode::Char(' ')),
            x => { let mut i = x.chars(); match (i.next(), i.next()) { (Some(c), None) => Some(KeyCode::Char(c.to_ascii_lowercase())), _ => return None } }
        } },
        _ => return None,
    })
}
/// where the listing says that something is
pub fn place(info: &ScriptInfo, role: &Role, ent: usize, s: Source) -> Result<usize, String> {
    let (e, l) = info.entities.get(ent).ok_or("an entity is missing from the script listing")?;
    let same = |what: &str, ok: bool| if ok { Ok(()) } else { Err(format!("{what} of {} is listed under another", role.entities[ent].name)) };
    same("an entity", std::ptr::eq(*e, &role.entities[ent]))?;
    match s {
        Source::Script(i) => { let x = l.scripts.get(i).ok_or("a script is missing from the listing")?; same("a script", std::ptr::eq(x.0, &role.entities[ent].scripts[i]))?; Ok(x.1) }
        Source::Method(i) => { let x = l.funcs.get(i).ok_or("a method is missing from the listing")?; same("a method", std::ptr::eq(x.0, &role.entities[ent].funcs[i]))?; Ok(x.1) }
        Source::Block(i) => { let x = info.funcs.get(i).ok_or("a block is missing from the listing")?; same("a block", std::ptr::eq(x.0, &role.funcs[i]))?; Ok(x.1) }
    }
}

fn args(r: &mut Rng, params: &[String]) -> Vec<(String, HVal)> {
    let mut v = vec![];
    for p in params {
        if r.pct(8) { continue } // it is 0 then
        let x = match r.below(8) { 0..=3 => HVal::Num(r.range(0, 5) as f64), 4 => HVal::Text(["a", "12", "", "x y"][r.below(4)].into()), 5 => HVal::List((0..r.below(4)).map(|i| HVal::Num(i as f64)).collect()), 6 => HVal::Bool(r.pct(50)), _ => HVal::Num(r.range(-20, 20) as f64 / 4.0) };
        v.push((p.clone(), x));
    }
    if r.pct(10) { v.push(("nobody's".into(), HVal::Num(1.0))); }
    v
}
/// the scripts, methods and blocks which can be started on an entity, with their parameters
fn startable(role: &Role, e: usize) -> Vec<(Source, Vec<String>)> {
    let ent = &role.entities[e];
    let f = |f: &netsblox_vm::ast::Function| f.params.iter().map(|p| p.trans_name.to_string()).collect::<Vec<_>>();
    let mut v: Vec<(Source, Vec<String>)> = vec![];
    v.extend(ent.funcs.iter().enumerate().filter(|x| x.1.upvars.is_empty()).map(|(i, x)| (Source::Method(i), f(x))));
    v.extend(role.funcs.iter().enumerate().filter(|x| x.1.upvars.is_empty()).map(|(i, x)| (Source::Block(i), f(x))));
    for (i, s) in ent.scripts.iter().enumerate() {
        match s.hat.as_ref().map(|h| &h.kind) {
            Some(HatKind::NetworkMessage { .. }) => (), // answers need a question
            Some(HatKind::Unknown { fields, .. }) => v.push((Source::Script(i), fields.iter().map(|x| x.trans_name.to_string()).collect())),
            Some(HatKind::LocalMessage { .. }) => (),
            _ => v.push((Source::Script(i), vec![])),
        }
    }
    v
}
fn stmts(role: &Role, e: usize, s: Source) -> Vec<netsblox_vm::ast::Stmt> {
    match s { Source::Script(i) => role.entities[e].scripts[i].stmts.clone(), Source::Method(i) => role.entities[e].funcs[i].stmts.clone(), Source::Block(i) => role.funcs[i].stmts.clone() }
}
fn hat(name: &str, fields: &[String]) -> Box<Hat> {
    Box::new(Hat { kind: HatKind::Unknown { name: name.into(), fields: fields.iter().map(|n| VariableRef { name: n.as_str().into(), trans_name: n.as_str().into(), location: VarLocation::Local }).collect() }, info: BlockInfo::none() })
}

/// a project put together by hand
fn assembled(seed: u64, cov: &mut Cov) -> Res {
    let mut r = Rng::new(seed ^ 0x37a);
    let mut c = progs::case(seed, cfg_of("C37", seed));
    let base = c.role;
    let (mut m, mut v) = (base.clone(), base.clone());
    let mut recipe = vec![];
    let mut events = vec![];
    let mut moved = 0;
    for e in 0..base.entities.len() {
        let mut all: Vec<(Source, Script)> = base.entities[e].scripts.iter().enumerate().map(|(i, s)| (Source::Script(i), s.clone())).collect();
        let can = startable(base, e);
        for _ in 0..r.below(4) {
            if can.is_empty() { break }
            let (s, params) = r.pick(&can).clone();
            let name = format!("x{}", events.len());
            all.push((s, Script { hat: Some(hat(&name, &params)), stmts: stmts(base, e, s) }));
            events.push((name, params));
            cov.add(match s { Source::Script(_) => "scripts added for another event", Source::Method(_) => "methods added as scripts", Source::Block(_) => "blocks added as scripts" }, 1);
        }
        if r.pct(50) { r.shuffle(&mut all); moved += 1; }
        for (s, script) in &all { if let Some(h) = &script.hat { match event_of(&h.kind) { Some(ev) => recipe.push((e, *s, ev)), None => return Res::Inconclusive("a hat without an event".into()) } } }
        m.entities[e].scripts = all.into_iter().map(|x| x.1).collect();
        for s in &mut v.entities[e].scripts { if r.pct(40) { s.hat = None; } }
    }
    for (name, params) in &events {
        for _ in 0..1 + r.below(2) {
            let t = r.below(40) as u64;
            let at = c.plan.iter().position(|x| x.0 > t).unwrap_or(c.plan.len());
            let args = args(&mut r, params);
            c.plan.insert(at, (t, PlanInput::Custom { name: name.clone(), args, interrupt: r.pct(40), max_queue: *r.pick(&[0, 1, usize::MAX]) }));
        }
    }
    cov.add("orders of scripts changed", moved);
    c.role = Box::leak(Box::new(m));
    let vr: &'static Role = Box::leak(Box::new(v));
    let mut order = vec![];
    if r.pct(50) {
        // sprites take turns
        order = (0..recipe.len()).collect();
        r.shuffle(&mut order);
        recipe = order.iter().map(|i| recipe[*i].clone()).collect();
        cov.add("projects with the scripts of sprites mixed", 1);
    }
    let mut withheld = 0;
    if r.pct(35) && !recipe.is_empty() {
        // some are added while the project runs
        if order.is_empty() { order = (0..recipe.len()).collect(); }
        withheld = 1 + r.below(recipe.len().min(4));
        for _ in 0..withheld + r.below(2) {
            let t = r.below(30) as u64;
            let at = c.plan.iter().position(|x| x.0 > t).unwrap_or(c.plan.len());
            c.plan.insert(at, (t, PlanInput::Add));
        }
    }
    c.manual = Some(Rc::new(Manual { role: vr, scripts: recipe, order, withheld }));
    judge_case("C37", &c, cov)
}

#[derive(Collect)]
#[collect(no_drop)]
struct One<'gc> { ctx: Gc<'gc, RefLock<GlobalContext<'gc, C, Sys>>>, proc: Process<'gc, C, Sys> }
/// one process stepped by the host, next to a project which has just that script
fn single(seed: u64, cov: &mut Cov) -> Res {
    let mut r = Rng::new(seed ^ 0x37b);
    let mut c = progs::case(seed, cfg_of("C37", seed));
    let role = c.role;
    let e = r.below(role.entities.len());
    let can = startable(role, e);
    if can.is_empty() { return Res::Ok }
    let (source, params) = r.pick(&can).clone();
    let args = args(&mut r, &params);
    let fields = params.iter().map(|x| x.as_str().into()).collect();
    c.manual = Some(Rc::new(Manual { role, scripts: vec![(e, source, Event::Custom { name: "x".into(), fields })], order: vec![], withheld: 0 }));
    c.plan = vec![(0, PlanInput::Custom { name: "x".into(), args: args.clone(), interrupt: false, max_queue: 0 })];
    let mut m = role.clone();
    for x in &mut m.entities { x.scripts.clear(); }
    m.entities[e].scripts = vec![Script { hat: Some(hat("x", &params)), stmts: stmts(role, e, source) }];
    c.role = Box::leak(Box::new(m));
    match judge_case("C37", &c, cov) { Res::Ok => (), x => return x }
    // the project agrees with the meaning of the blocks; now the process alone
    let whole = match run_vm(&c, 20_000_000) { Ok(x) => x, Err(e) => return Res::Violation(e) };
    let (bc, init, locs, info) = match ByteCode::compile(role) { Ok(x) => x, Err(e) => return Res::Violation(format!("{e:?}")) };
    let pos = match place(&info, role, e, source) { Ok(x) => x, Err(e) => return Res::Violation(e) };
    drop(info);
    let sys = Rc::new(Sys::new(Host::new(c.host.clone())));
    let st = settings(&c.mcfg);
    let name = role.entities[e].name.clone();
    let mut arena = Arena::<Rootable![One<'_>]>::new(|mc| {
        let ctx = Gc::new(mc, RefLock::new(GlobalContext::from_init(mc, &init, Rc::new(bc), st, sys.clone())));
        let entity = *ctx.borrow().entities.get(name.as_str()).unwrap();
        let mut locals = SymbolTable::default();
        for p in &params {
            let v = match args.iter().rev().find(|x| x.0 == *p) { Some(x) => Value::from_simple(mc, crate::sys::to_simple(&x.1)), None => Number::new(0.0).unwrap().into() };
            locals.define_or_redefine(p, v.into());
        }
        let state = crate::sys::PState::from(ProcessKind { entity, dispatcher: None });
        One { ctx, proc: Process::new(ProcContext { global_context: ctx, entity, locals, state, start_pos: pos, barrier: None, reply_key: None, local_message: None }) }
    });
    let mut turns = 0;
    let mut broken: Option<String> = None;
    // Some(true): it ended; Some(false): it asked for something only a project can do
    let end = loop {
        let end = arena.mutate_root(|mc, one| {
            for _ in 0..64 {
                if !one.proc.is_running() { broken = Some("the process does not run although it has not ended".into()); return Some(true) }
                if one.proc.get_call_stack().is_empty() { broken = Some("a running process has no frame".into()); return Some(true) }
                let frames = one.proc.get_call_stack();
                if frames[0].entity.borrow().name != name { broken = Some("the outermost frame belongs to another entity".into()); return Some(true) }
                match one.proc.step(mc) {
                    // (watchers are invisible to a process, and the scripts of clones are not its business)
                    Ok(ProcessStep::Normal | ProcessStep::Broadcast { .. } | ProcessStep::CreatedClone { .. } | ProcessStep::DeletedClone { .. } | ProcessStep::Watcher { .. }) => (),
                    Ok(ProcessStep::Abort { mode: netsblox_vm::bytecode::AbortMode::Others | netsblox_vm::bytecode::AbortMode::MyOthers }) => (),
                    Ok(ProcessStep::Pause) => sys.host.borrow_mut().logline("PAUSE".into()),
                    Ok(ProcessStep::Yield) => { let mut h = sys.host.borrow_mut(); h.logline("Y".into()); h.end_turn(); turns += 1; if turns >= c.mcfg.turn_cap { return Some(false) } }
                    Ok(ProcessStep::Terminate { result }) => {
                        if !one.proc.state.tokens.is_empty() { broken = Some("a process which returned leaves host state of the calls it made".into()); }
                        let mut h = sys.host.borrow_mut();
                        let pl = h.plabel(one.proc.state.raw, one.proc.state.disp);
                        let v = Ser::new(&mut h).val(&result);
                        h.logline(format!("T {pl} {v}"));
                        return Some(true)
                    }
                    Ok(ProcessStep::Abort { .. }) => return Some(true),
                    Ok(ProcessStep::Idle) => { broken = Some("a running process stood idle".into()); return Some(true) }
                    Ok(ProcessStep::Fork { .. }) => return Some(false),
                    Err(error) => {
                        let sum = ErrorSummary::extract(&error, &one.proc, &locs);
                        let mut h = sys.host.borrow_mut();
                        let pl = h.plabel(one.proc.state.raw, one.proc.state.disp);
                        h.logline(format!("E {pl} {}", sum.cause));
                        let vars = |v: &[VarEntry]| { let mut v: Vec<_> = v.iter().map(|x| (x.name.clone(), format!("{}={}", x.name, x.value))).collect(); v.sort(); v.into_iter().map(|x| x.1).collect::<Vec<_>>().join(";") };
                        let mut s = format!("ET {pl} {} ", sum.entity);
                        for t in &sum.trace { s += &format!("@{}{{{}}}", t.location, vars(&t.locals)); }
                        h.logline(s);
                        h.logline(format!("EV {} | {}", vars(&sum.fields), vars(&sum.globals)));
                        return Some(true)
                    }
                }
            }
            None
        });
        arena.collect_debt();
        if let Some(x) = end { break x }
    };
    if end && broken.is_none() {
        // over for good
        arena.mutate_root(|mc, one| for _ in 0..3 {
            if one.proc.is_running() { broken = Some("a process which ended says that it is running".into()); }
            match one.proc.step(mc) { Ok(ProcessStep::Idle) => (), Ok(_) => broken = Some("a process which ended took another step".into()), Err(_) => broken = Some("a process which ended failed afterwards".into()) }
        });
        cov.add("single processes run to their end", 1);
    }
    let dump_now = arena.mutate(|_, one| { let p = Project::new(one.ctx); dump(&p, &sys) });
    drop(arena);
    if let Some(b) = broken { return Res::Violation(b) }
    let h = sys.host.borrow();
    if let Some(b) = h.broken.first() { return Res::Violation(format!("host protocol: {b}")) }
    let tail = |l: &[String]| { let mut l: Vec<String> = l.iter().filter(|x| !x.starts_with("IN ")).cloned().collect(); while l.last().is_some_and(|x| x == "I") { l.pop(); } l };
    let (a, b) = (tail(&whole.log), tail(&h.log));
    if a.len() >= LOG_CAP - 2 || b.len() >= LOG_CAP - 2 || whole.end == VEnd::Steps { return Res::Inconclusive("a long log".into()) }
    if let Some(d) = first_diff(View { watchers: false, ..V_ALL }, &a, &b, !end || whole.end != VEnd::Idle) { return Res::Violation(format!("a process by itself: {d}")) }
    if end && whole.end == VEnd::Idle && whole.dump != dump_now { return Res::Violation(format!("a process by itself leaves another state: {:?} instead of {:?}", dump_now, whole.dump)) }
    cov.add("single processes compared with their project", 1);
    Res::Ok
}
pub fn c37(cov: &mut Cov, seed: u64, _idx: u64, _t: bool) -> Res { if seed % 3 == 0 { single(seed, cov) } else { assembled(seed, cov) } }
