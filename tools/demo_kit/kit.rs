//! A small deterministic host for demonstrations: everything asked of the host is answered at once and written to a log.
#![allow(dead_code, unused_imports)]
pub use netsblox_vm::ast;
pub use netsblox_vm::bytecode::*;
pub use netsblox_vm::compact_str::*;
pub use netsblox_vm::gc::*;
pub use netsblox_vm::json::*;
pub use netsblox_vm::process::*;
pub use netsblox_vm::project::*;
pub use netsblox_vm::runtime::*;
pub use netsblox_vm::vecmap::VecMap;
pub use std::cell::{Cell, RefCell};
pub use std::collections::VecDeque;
pub use std::rc::Rc;
use rand::distr::uniform::{SampleRange, SampleUniform};

#[derive(Debug)]
pub struct Nat;
impl GetType for Nat { type Output = (); fn get_type(&self) {} }
pub struct EState { pub props: RefCell<Properties> }
impl<'gc, 'a> From<EntityKind<'gc, 'a, C, Sys>> for EState {
    fn from(k: EntityKind<'gc, 'a, C, Sys>) -> Self {
        EState { props: RefCell::new(match k { EntityKind::Stage { props } | EntityKind::Sprite { props } => props, EntityKind::Clone { parent } => *parent.state.props.borrow() }) }
    }
}
pub struct PState { pub tokens: Vec<u64> }
impl<'gc, 'a> From<ProcessKind<'gc, 'a, C, Sys>> for PState { fn from(_: ProcessKind<'gc, 'a, C, Sys>) -> Self { PState { tokens: vec![] } } }
impl Unwindable for PState {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.tokens.len() }
    fn unwind_to(&mut self, p: &usize) { self.tokens.truncate(*p) }
}
pub struct C;
impl CustomTypes<Sys> for C {
    type NativeValue = Nat;
    type Intermediate = SimpleValue;
    type EntityState = EState;
    type ProcessState = PState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: SimpleValue) -> Value<'gc, C, Sys> { Value::from_simple(mc, v) }
}
pub type Done = Rc<RefCell<Option<Result<SimpleValue, CompactString>>>>;
/// ready time, result
pub struct RKey(pub u64, pub Done);
pub struct CKey(pub u64, pub Rc<RefCell<Option<Result<(), CompactString>>>>);
impl Key<Result<SimpleValue, CompactString>> for RKey { fn complete(self, v: Result<SimpleValue, CompactString>) { *self.1.borrow_mut() = Some(v); } }
impl Key<Result<(), CompactString>> for CKey { fn complete(self, v: Result<(), CompactString>) { *self.1.borrow_mut() = Some(v); } }

#[derive(Default)]
pub struct Sys {
    pub now: Cell<u64>,
    pub seed: Cell<u64>,
    pub log: RefCell<Vec<String>>,
    pub inbox: RefCell<VecDeque<IncomingMessage>>,
    /// replies handed to send-and-wait, in order of the requests: due time, value (None: timeout)
    pub replies: RefCell<Vec<(u64, Option<Json>)>>,
    pub sent: Cell<usize>,
    /// how long requests and commands take
    pub delay: Cell<u64>,
}
impl Sys {
    pub fn say(&self, s: String) { self.log.borrow_mut().push(s) }
}
struct Words<'a>(&'a Cell<u64>);
impl rand::RngCore for Words<'_> {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let mut z = self.0.get().wrapping_add(0x9e3779b97f4a7c15); self.0.set(z); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    fn fill_bytes(&mut self, dst: &mut [u8]) { for c in dst.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
}
impl System<C> for Sys {
    type RequestKey = RKey;
    type CommandKey = CKey;
    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T { use rand::Rng; Words(&self.seed).random_range(range) }
    fn time(&self, _: Precision) -> SysTime { SysTime::Arbitrary { ms: self.now.get() } }
    fn perform_request<'gc>(&self, _: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<RKey, ErrorCause<C, Self>> {
        let done: Done = Default::default();
        let at = self.now.get() + self.delay.get();
        let key = RKey(at, done.clone());
        let ent = proc.get_call_stack().last().unwrap().entity;
        match request {
            Request::Property { prop } => { ent.borrow().state.props.borrow().perform_get_property::<C, Sys>(key, prop); }
            Request::Input { .. } => key.complete(Ok(SimpleValue::Text("answer".into()))),
            Request::Syscall { name, args } => match name.as_str() {
                "push" => { proc.state.tokens.push(1); key.complete(Ok(Number::new(proc.state.tokens.len() as f64).unwrap().into())) }
                "depth" => key.complete(Ok(Number::new(proc.state.tokens.len() as f64).unwrap().into())),
                "fail" => key.complete(Err("failed".into())),
                _ => { self.say(format!("{}: syscall {name} {args:?}", ent.borrow().name)); key.complete(Ok(SimpleValue::Text("result".into()))) }
            },
            Request::Rpc { service, rpc, args, .. } => { self.say(format!("{}: rpc {service}.{rpc} {args:?}", ent.borrow().name)); key.complete(Ok(SimpleValue::Text("result".into()))) }
            Request::UnknownBlock { name, args } => { self.say(format!("{}: unknown {name} {args:?}", ent.borrow().name)); key.complete(Ok(SimpleValue::Text("result".into()))) }
        }
        Ok(RKey(at, done))
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &RKey, _: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Value<'gc, C, Self>, CompactString>>, ErrorCause<C, Self>> {
        if self.now.get() < key.0 { return Ok(AsyncResult::Pending); }
        Ok(match key.1.borrow_mut().take() { None => AsyncResult::Pending, Some(x) => AsyncResult::Completed(x.map(|v| Value::from_simple(mc, v))) })
    }
    fn perform_command<'gc>(&self, _: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<CKey, ErrorCause<C, Self>> {
        let done: Rc<RefCell<Option<Result<(), CompactString>>>> = Default::default();
        let at = self.now.get() + self.delay.get();
        let key = CKey(at, done.clone());
        let ent = proc.get_call_stack().last().unwrap().entity;
        let ent = ent.borrow();
        let mut p = ent.state.props.borrow_mut();
        match command {
            Command::SetProperty { prop, value } => { p.perform_set_property::<C, Sys>(key, prop, value); }
            Command::ChangeProperty { prop, delta } => { p.perform_change_property::<C, Sys>(key, prop, delta); }
            Command::ClearEffects => { p.perform_clear_effects::<C, Sys>(key); }
            Command::GotoXY { x, y } => { p.perform_goto_xy::<C, Sys>(key, x, y); }
            Command::PointTowardsXY { x, y } => { p.perform_point_towards_xy::<C, Sys>(key, x, y); }
            Command::Forward { distance } => { p.perform_forward::<C, Sys>(key, distance); }
            Command::Print { value, .. } => { self.say(match value { Some(v) => format!("{}: {v}", ent.name), None => format!("{}: -", ent.name) }); key.complete(Ok(())) }
            Command::PlayNotes { notes, beats, blocking } => { self.say(format!("{}: notes {:?} {beats} {blocking}", ent.name, notes.iter().map(|x| x.get_midi().0).collect::<Vec<_>>())); key.complete(Ok(())) }
            Command::PlaySound { sound, blocking } => { self.say(format!("{}: sound {} {blocking}", ent.name, sound.name)); key.complete(Ok(())) }
            Command::SetCostume => { self.say(format!("{}: costume {:?}", ent.name, ent.costume.as_ref().map(|x| x.name.as_str()))); key.complete(Ok(())) }
            _ => { self.say(format!("{}: {:?}", ent.name, command.feature())); key.complete(Ok(())) }
        }
        Ok(CKey(at, done))
    }
    fn poll_command<'gc>(&self, _: &Mutation<'gc>, key: &CKey, _: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
        if self.now.get() < key.0 { return Ok(AsyncResult::Pending); }
        Ok(match key.1.borrow_mut().take() { None => AsyncResult::Pending, Some(x) => AsyncResult::Completed(x) })
    }
    fn send_message(&self, msg_type: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, ErrorCause<C, Self>> {
        self.say(format!("send {msg_type} {:?} to {targets:?}", values.iter().map(|x| format!("{}={}", x.0, x.1)).collect::<Vec<_>>()));
        Ok(if expect_reply { let n = self.sent.get(); self.sent.set(n + 1); Some(ExternReplyKey { request_id: format!("{n}").into() }) } else { None })
    }
    fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        match self.replies.borrow().get(key.request_id.parse::<usize>().unwrap()) {
            Some((t, v)) if self.now.get() >= *t => AsyncResult::Completed(v.clone()),
            _ => AsyncResult::Pending,
        }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> { self.say(format!("reply {} {} {value}", key.src_id, key.request_id)); Ok(()) }
    fn receive_message(&self) -> Option<IncomingMessage> { self.inbox.borrow_mut().pop_front() }
}
#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { pub proj: Project<'gc, C, Sys> }
pub type EnvArena = Arena<Rootable![Env<'_>]>;

pub fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\n', "&#xD;") }
/// literal, variable, block, block with an id, list of inputs, script
pub fn l(s: impl std::fmt::Display) -> String { format!("<l>{}</l>", esc(&s.to_string())) }
pub fn v(s: &str) -> String { format!("<block var=\"{s}\"/>") }
pub fn b(s: &str, args: &[String]) -> String { format!("<block s=\"{s}\">{}</block>", args.concat()) }
pub fn bi(id: &str, s: &str, args: &[String]) -> String { format!("<block s=\"{s}\" collabId=\"{id}\">{}</block>", args.concat()) }
pub fn cb(s: &str, args: &[String]) -> String { format!("<custom-block s=\"{s}\">{}</custom-block>", args.concat()) }
pub fn xs(items: &[String]) -> String { format!("<list>{}</list>", items.concat()) }
pub fn sc(stmts: &[String]) -> String { format!("<script>{}</script>", stmts.concat()) }
pub fn say(x: String) -> String { b("bubble", &[x]) }
pub fn set(n: &str, x: String) -> String { b("doSetVar", &[l(n), x]) }
pub fn list(items: &[String]) -> String { b("reportNewList", &[xs(items)]) }
pub fn go(stmts: &[String]) -> String { format!("<script>{}{}</script>", b("receiveGo", &[]), stmts.concat()) }
pub fn on(msg: &str, stmts: &[String]) -> String { format!("<script>{}{}</script>", b("receiveMessage", &[l(msg)]), stmts.concat()) }
/// reporter or command definitions: `spec` such as `add %'x'`
pub fn def(ty: &str, spec: &str, inputs: usize, stmts: &[String]) -> String { format!("<block-definition s=\"{}\" type=\"{ty}\" category=\"custom\"><header></header><code></code><translations></translations><inputs>{}</inputs><script>{}</script></block-definition>", esc(spec).replace('\'', "&apos;"), "<input type=\"%s\"></input>".repeat(inputs), stmts.concat()) }
pub fn global(n: &str, val: &str) -> String { format!("<variable name=\"{n}\">{val}</variable>") }
pub struct Sprite { pub name: &'static str, pub vars: String, pub scripts: String, pub blocks: String }
pub fn sprite(name: &'static str, scripts: &[String]) -> Sprite { Sprite { name, vars: String::new(), scripts: scripts.concat(), blocks: String::new() } }
/// sprites are given in order; the first one is the stage when it is named so
pub fn project(globals: &str, funcs: &str, messages: &str, sprites: &[Sprite]) -> String {
    let none = Sprite { name: "Stage", vars: String::new(), scripts: String::new(), blocks: String::new() };
    let stage = sprites.iter().find(|s| s.name == "Stage").unwrap_or(&none);
    let body = |s: &Sprite| format!("<costumes><list struct=\"atomic\"></list></costumes><sounds><list struct=\"atomic\"></list></sounds><blocks>{}</blocks><variables>{}</variables><scripts>{}</scripts>", s.blocks, s.vars, s.scripts);
    let sprites = sprites.iter().filter(|s| s.name != "Stage").enumerate().map(|(i, s)| format!("<sprite name=\"{}\" idx=\"{}\" x=\"0\" y=\"0\" heading=\"90\" scale=\"1\" volume=\"100\" pan=\"0\" rotation=\"1\" draggable=\"true\" costume=\"0\" color=\"80,80,80,1\" pen=\"tip\">{}</sprite>", s.name, i + 1, body(s))).collect::<String>();
    format!("<room name=\"p\" app=\"NetsBlox\"><role name=\"r\"><project name=\"r\" app=\"NetsBlox\" version=\"1\"><notes></notes><stage name=\"Stage\" width=\"480\" height=\"360\" costume=\"0\" color=\"255,255,255,1\" tempo=\"60\" threadsafe=\"false\" penlog=\"false\" volume=\"100\" pan=\"0\" lines=\"round\" ternary=\"false\" hyperops=\"true\" codify=\"false\" inheritance=\"false\" sublistIDs=\"false\" scheduled=\"false\">{}<messageTypes>{messages}</messageTypes><sprites>{sprites}</sprites></stage><hidden></hidden><headers></headers><code></code><blocks>{funcs}</blocks><variables>{globals}</variables><history></history></project><media name=\"r\" app=\"NetsBlox\" version=\"1\"></media></role></room>", body(stage))
}
pub fn role(xml: &str) -> &'static ast::Role { let p: &'static ast::Project = Box::leak(Box::new(ast::Parser::default().parse(xml).unwrap_or_else(|e| panic!("{e:?}")))); &p.roles[0] }
pub fn compile(xml: &str) -> (ByteCode, InitInfo, Locations) { let (a, b, c, _) = ByteCode::compile(role(xml)).unwrap_or_else(|e| panic!("{e:?}")); (a, b, c) }

/// Runs a project from code: `inputs` are given before the step of that number; the clock moves 10 ms per turn. Returns the log.
pub fn run_with(code: (ByteCode, InitInfo, Locations), settings: Settings, sys: Sys, mut inputs: Vec<(u64, Box<dyn Fn(&Sys) -> Option<Input>>)>, steps: u64) -> Vec<String> {
    let (bc, init, locs) = code;
    let sys = Rc::new(sys);
    let s2 = sys.clone();
    let mut arena = EnvArena::new(|mc| Env { proj: Project::from_init(mc, &init, Rc::new(bc), settings, s2) });
    inputs.reverse();
    let mut idle = 0;
    for i in 0..steps {
        arena.mutate_root(|mc, env| {
            while inputs.last().is_some_and(|x| x.0 <= i) { let f = inputs.pop().unwrap().1; if let Some(x) = f(&sys) { env.proj.input(mc, x); } }
            match env.proj.step(mc) {
                ProjectStep::Idle => { idle += 1; sys.now.set(sys.now.get() + 10); }
                ProjectStep::Yield => { idle = 0; sys.now.set(sys.now.get() + 10); }
                ProjectStep::Error { error, proc } => { idle = 0; let sum = ErrorSummary::extract(&error, &proc, &locs); sys.say(format!("{}: error {} at {:?}", sum.entity, sum.cause, sum.trace.iter().map(|t| t.location.to_string()).collect::<Vec<_>>())); }
                _ => idle = 0,
            }
        });
        if i % 64 == 0 { arena.collect_debt(); }
        if idle > 300 && inputs.is_empty() { break; }
    }
    let out = sys.log.borrow().clone();
    out
}
pub fn start() -> (u64, Box<dyn Fn(&Sys) -> Option<Input>>) { (0, Box::new(|_| Some(Input::Start))) }
pub fn run(xml: &str) -> Vec<String> { run_with(compile(xml), Settings::default(), Sys::default(), vec![start()], 2_000_000) }
/// ends the demonstration
pub fn expect(got: &[String], want: &[&str]) {
    if got != want { eprintln!("expected {want:#?}\ngot      {got:#?}"); std::process::exit(1); }
    println!("as expected");
}
