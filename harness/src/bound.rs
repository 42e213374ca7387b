//! Memory (C36) and independence of instances (C24): programs which keep a bounded amount of data alive by construction run
//! for many turns on the real VM under a host that keeps no records; every byte the process allocates and frees is counted.
use crate::check::*;
use crate::progs::*;
use crate::rng::*;
use crate::sys::{to_simple, Nat};
use crate::host::HVal;
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK, Value};
use netsblox_vm::bytecode::{ByteCode, InitInfo};
use netsblox_vm::gc::*;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::json::*;
use netsblox_vm::process::*;
use netsblox_vm::project::{Input, Project, ProjectStep};
use netsblox_vm::runtime::{self as rt, *};
use netsblox_vm::vecmap::VecMap;
use rand::SeedableRng;
use rand::distr::uniform::{SampleRange, SampleUniform};
use std::alloc::{GlobalAlloc, Layout, System as Sa};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

// ---- every allocation of a thread is counted ---------------------------------------------------------------------------

pub struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; static TOTAL: Cell<u64> = const { Cell::new(0) }; }
fn note(n: i64) { let _ = LIVE.try_with(|x| x.set(x.get() + n)); if n > 0 { let _ = TOTAL.try_with(|x| x.set(x.get() + n as u64)); } }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as i64); unsafe { Sa.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64)); unsafe { Sa.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n as i64 - l.size() as i64); unsafe { Sa.realloc(p, l, n) } }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn live() -> i64 { LIVE.with(|x| x.get()) }

// ---- a host which keeps nothing ----------------------------------------------------------------------------------------

pub struct Lean { rng: RefCell<rand_chacha::ChaCha8Rng>, now: Cell<u64>, inbox: RefCell<VecDeque<IncomingMessage>>, hash: Cell<u64>, ops: Cell<u64>, ids: Cell<u64> }
impl Lean {
    fn new(seed: u64) -> Lean { Lean { rng: RefCell::new(rand_chacha::ChaCha8Rng::seed_from_u64(seed)), now: Cell::new(1000), inbox: Default::default(), hash: Cell::new(0), ops: Cell::new(0), ids: Cell::new(0) } }
    fn mix(&self, x: u64) { self.hash.set(mix(self.hash.get() ^ x)); self.ops.set(self.ops.get() + 1); }
}
pub struct LKey { polls: Cell<u32>, out: RefCell<Option<Result<SimpleValue, CompactString>>> }
impl Key<Result<SimpleValue, CompactString>> for LKey { fn complete(self, _: Result<SimpleValue, CompactString>) {} }
impl Key<Result<(), CompactString>> for LKey { fn complete(self, _: Result<(), CompactString>) {} }
pub struct Lp(Vec<u64>);
impl<'gc, 'a> From<ProcessKind<'gc, 'a, Lc, Lean>> for Lp { fn from(_: ProcessKind<'gc, 'a, Lc, Lean>) -> Self { Lp(vec![]) } }
impl Unwindable for Lp {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.0.len() }
    fn unwind_to(&mut self, p: &usize) { self.0.truncate(*p) }
}
pub struct Le(#[allow(dead_code)] Box<[u8; 32]>);
impl<'gc, 'a> From<EntityKind<'gc, 'a, Lc, Lean>> for Le { fn from(_: EntityKind<'gc, 'a, Lc, Lean>) -> Self { Le(Box::new([7; 32])) } }
pub struct Lc;
impl CustomTypes<Lean> for Lc {
    type NativeValue = Nat;
    type Intermediate = SimpleValue;
    type EntityState = Le;
    type ProcessState = Lp;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: SimpleValue) -> rt::Value<'gc, Lc, Lean> { rt::Value::from_simple(mc, v) }
}
impl Lean {
    fn seen(&self, v: &rt::Value<'_, Lc, Lean>) { self.mix(match v.to_simple() { Ok(x) => hash_str(&format!("{x:?}")), Err(_) => 99 }); }
    fn key(&self, out: Result<SimpleValue, CompactString>) -> LKey { use rand::Rng; LKey { polls: Cell::new(self.rng.borrow_mut().random_range(0..3)), out: RefCell::new(Some(out)) } }
    fn done(k: &LKey) -> Option<Result<SimpleValue, CompactString>> { if k.polls.get() > 0 { k.polls.set(k.polls.get() - 1); None } else { k.out.borrow_mut().take() } }
    fn answer(&self) -> Result<SimpleValue, CompactString> {
        use rand::Rng;
        let n = self.rng.borrow_mut().random_range(0..6);
        match n { 0 => Err("it did not work, for a reason that takes some room".into()), 1 => Ok(SimpleValue::Bool(true)), 2 => Ok(SimpleValue::Text("a text of more than twenty-four bytes, on the heap".into())),
            _ => Ok(to_simple(&HVal::List(vec![HVal::Num(n as f64), HVal::List(vec![HVal::Text("t".into())])]))) }
    }
}
impl rt::System<Lc> for Lean {
    type RequestKey = LKey;
    type CommandKey = LKey;
    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T { use rand::Rng; self.rng.borrow_mut().random_range(range) }
    fn time(&self, _: Precision) -> SysTime { SysTime::Arbitrary { ms: self.now.get() } }
    fn perform_request<'gc>(&self, _: &Mutation<'gc>, r: Request<'gc, Lc, Self>, proc: &mut Process<'gc, Lc, Self>) -> Result<LKey, ErrorCause<Lc, Self>> {
        self.mix(hash_str(&format!("{:?}", r.feature())));
        match r {
            Request::Rpc { args, .. } => { for (_, v) in args { self.seen(&v); } Ok(self.key(self.answer())) }
            Request::Syscall { args, .. } => { if proc.state.0.len() < 4 { proc.state.0.push(1); } for v in args { self.seen(&v); } Ok(self.key(self.answer())) }
            Request::Input { .. } => Ok(self.key(Ok(SimpleValue::Text("typed in".into())))),
            Request::UnknownBlock { .. } => Err(ErrorCause::Custom { msg: "no such block in this host".into() }),
            _ => Ok(self.key(Ok(SimpleValue::Bool(false)))),
        }
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, k: &LKey, _: &mut Process<'gc, Lc, Self>) -> Result<AsyncResult<Result<rt::Value<'gc, Lc, Self>, CompactString>>, ErrorCause<Lc, Self>> {
        Ok(match Self::done(k) { None => AsyncResult::Pending, Some(x) => AsyncResult::Completed(x.map(|v| rt::Value::from_simple(mc, v))) })
    }
    fn perform_command<'gc>(&self, _: &Mutation<'gc>, c: Command<'gc, '_, Lc, Self>, _: &mut Process<'gc, Lc, Self>) -> Result<LKey, ErrorCause<Lc, Self>> {
        self.mix(hash_str(&format!("{:?}", c.feature())));
        match c { Command::Print { value: Some(v), .. } => self.seen(&v), Command::SetProperty { value, .. } => self.seen(&value), _ => () }
        Ok(self.key(Ok(SimpleValue::Bool(true))))
    }
    fn poll_command<'gc>(&self, _: &Mutation<'gc>, k: &LKey, _: &mut Process<'gc, Lc, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<Lc, Self>> {
        Ok(match Self::done(k) { None => AsyncResult::Pending, Some(x) => AsyncResult::Completed(x.map(|_| ())) })
    }
    fn send_message(&self, m: CompactString, values: VecMap<CompactString, Json, false>, _: Vec<CompactString>, wait: bool) -> Result<Option<ExternReplyKey>, ErrorCause<Lc, Self>> {
        self.mix(hash_str(&format!("{m} {:?}", values.iter().map(|x| format!("{}={}", x.0, x.1)).collect::<Vec<_>>())));
        self.ids.set(self.ids.get() + 1);
        Ok(if wait { Some(ExternReplyKey { request_id: format!("a request id on the heap, number {}", self.ids.get()).into() }) } else { None })
    }
    fn poll_reply(&self, _: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        use rand::Rng;
        let n = self.rng.borrow_mut().random_range(0..5);
        match n { 0 | 1 => AsyncResult::Pending, 2 => AsyncResult::Completed(None), 3 => AsyncResult::Completed(Some(Json::Null)), _ => AsyncResult::Completed(Some(Json::Array(vec![Json::from(1.5), Json::Array(vec![])]))) }
    }
    fn send_reply(&self, k: InternReplyKey, value: Json) -> Result<(), ErrorCause<Lc, Self>> { self.mix(hash_str(&format!("{} {value}", k.request_id))); Ok(()) }
    fn receive_message(&self) -> Option<IncomingMessage> { self.inbox.borrow_mut().pop_front() }
}

// ---- programs whose live data is bounded ---------------------------------------------------------------------------------

fn cs(s: &str) -> CompactString { CompactString::new(s) }
fn e(k: EK) -> Expr { bare(k) }
fn st(k: SK) -> Stmt { bare_stmt(k) }
fn field(s: &str) -> VariableRef { VariableRef { name: cs(s), trans_name: cs(s), location: VarLocation::Field } }
fn list(v: Vec<Expr>) -> Expr { e(EK::MakeList { values: v }) }
fn set(v: VariableRef, x: Expr) -> Stmt { st(SK::Assign { var: v, value: bx(x) }) }
fn push(l: Expr, x: Expr) -> Stmt { st(SK::ListInsertLast { list: bx(l), value: bx(x) }) }
fn ring(params: &[&str], captures: &[&str], stmts: Vec<Stmt>) -> Expr { e(EK::Closure { kind: ClosureKind::Reporter, params: params.iter().map(|p| mk_def(p)).collect(), captures: captures.iter().map(|c| local(c)).collect(), stmts }) }
fn ret(x: Expr) -> Stmt { st(SK::Return { value: bx(x) }) }
fn call(f: Expr, args: Vec<Expr>) -> Expr { e(EK::CallClosure { new_entity: None, closure: bx(f), args }) }
fn ent(n: &str) -> Expr { e(EK::Entity { name: cs(n), trans_name: cs(n) }) }
fn bcast(m: &str, wait: bool) -> Stmt { st(SK::SendLocalMessage { target: None, msg_type: bx(txt(m)), wait }) }
fn func(n: &str) -> FnRef { FnRef { name: cs(n), trans_name: cs(n), location: FnLocation::Global } }

struct B<'r> { r: &'r mut Rng, n: usize, kinds: Vec<&'static str> }
impl B<'_> {
    fn name(&mut self) -> String { self.n += 1; format!("v{}", self.n) }
    fn keep(&mut self) -> VariableRef { match self.r.below(6) { 0 => field("f"), n => global(["g0", "g1", "g2", "g0", "g1"][n - 1]) } }
    fn value(&mut self) -> Expr {
        match self.r.below(7) {
            0 => num(self.r.below(100) as f64), 1 => txt("a text of more than twenty-four bytes"), 2 => list(vec![num(1.0), txt("x")]),
            3 => e(EK::StrCat { values: bx(list(vec![txt("some text which is joined to "), e(EK::Random { a: bx(num(1.0)), b: bx(num(9.0)) })])) }),
            4 => e(EK::Range { start: bx(num(1.0)), stop: bx(num(6.0)) }), 5 => ring(&["p"], &[], vec![ret(var(local("p")))]), _ => e(EK::This),
        }
    }
    /// statements which make data (cyclic often) and keep a bounded part of it: every variable is overwritten, never extended
    fn maker(&mut self, out: &mut Vec<Stmt>, place: Place, depth: u32) {
        let v = self.name();
        let l = || var(local(&v));
        let kind = self.r.below(26);
        let mut pre = vec![st(SK::DeclareLocals { vars: vec![mk_def(&v)] })];
        let name = match kind {
            0 => { pre.push(set(local(&v), list(vec![]))); pre.push(push(l(), l())); if self.r.pct(50) { let k = self.keep(); pre.push(set(k, l())); } "a list containing itself" }
            1 => {
                let w = self.name();
                pre.push(st(SK::DeclareLocals { vars: vec![mk_def(&w)] }));
                let x = self.value();
                pre.push(set(local(&v), list(vec![x]))); pre.push(set(local(&w), list(vec![l(), l()]))); pre.push(push(l(), var(local(&w))));
                if self.r.pct(50) { let k = self.keep(); pre.push(set(k, var(local(&w)))); }
                "two lists containing each other"
            }
            2 => { pre.push(set(local(&v), ring(&[], &[&v], vec![ret(l())]))); if self.r.pct(50) { let k = self.keep(); pre.push(set(k, l())); } if self.r.pct(50) { let k = self.keep(); pre.push(set(k, call(l(), vec![]))); } "a ring holding itself" }
            3 => { let x = self.value(); pre.push(set(local(&v), x)); let k = self.keep(); pre.push(set(k, ring(&[], &[&v], vec![ret(l())]))); "a ring keeping a script variable" }
            4 => { let k = self.keep(); let x = self.value(); pre.push(set(k, x)); "a new value" }
            5 => {
                let (b, c) = (self.name(), self.r.pct(50));
                pre.push(set(local(&v), txt("")));
                let x = self.value();
                pre.push(st(SK::ForeachLoop { var: local(&b), items: bx(e(EK::Range { start: bx(num(1.0)), stop: bx(num(4.0)) })), stmts: vec![set(local(&v), list(vec![if c { l() } else { x }, var(local(&b))]))] }));
                "loops"
            }
            // a clone is marked from the start (its original is not): the marked ones are deleted at the next "z" at the latest
            6 if matches!(place, Place::Key) => {
                // not in a variable of the sprite, which its next clone would copy
                let k = global(["g0", "g2"][self.r.below(2)]);
                let x = e(EK::Clone { target: bx(e(EK::This)) });
                let keeps = self.r.pct(40);
                let stmts = vec![set(field("k"), num(1.0)), if keeps { set(k, x) } else { st(SK::Clone { target: bx(e(EK::This)) }) }, set(field("k"), num(0.0))];
                pre.push(st(SK::If { condition: bx(e(EK::Eq { left: bx(var(field("k"))), right: bx(num(0.0)) })), then: stmts }));
                "clones of itself"
            }
            7 if matches!(place, Place::Key) => {
                let k = ["g0", "g2"][self.r.below(2)];
                pre.push(st(SK::CallClosure { new_entity: Some(bx(ent("C"))), closure: bx(ring(&[], &[], vec![set(field("k"), num(1.0)), set(global(k), e(EK::Clone { target: bx(e(EK::This)) })), set(field("k"), num(0.0))])), args: vec![] }));
                "clones of another sprite"
            }
            8 if matches!(place, Place::Key) => { pre.push(bcast("m", self.r.pct(50))); "broadcasts" }
            9 => {
                let (x, b) = (self.value(), self.name());
                let y = self.value();
                pre.push(st(SK::TryCatch { code: vec![set(local(&v), x), st(SK::Throw { error: bx(if self.r.pct(50) { txt("an error with a message on the heap") } else { list(vec![y]) }) })], var: local(&b), handler: if self.r.pct(50) { let k = self.keep(); vec![set(k, var(local(&b)))] } else { vec![] } }));
                "errors caught"
            }
            10 => { let x = self.value(); pre.push(st(SK::CallFn { function: func("rec"), args: vec![num(self.r.below(12) as f64), x], upvars: vec![] })); "custom blocks" }
            11 => {
                let b = self.name();
                pre.push(st(SK::TryCatch { code: vec![st(SK::CallFn { function: func("fails"), args: vec![num(self.r.below(8) as f64), list(vec![num(1.0)])], upvars: vec![] })], var: local(&b), handler: vec![] }));
                "errors through custom blocks"
            }
            12 => {
                let x = self.value();
                pre.push(set(local(&v), list(vec![x])));
                let body = if self.r.pct(50) { vec![push(l(), l()), st(SK::Sleep { seconds: bx(num(0.02)) })] } else { let k = self.keep(); vec![set(k, l())] };
                pre.push(st(SK::ForkClosure { closure: bx(ring(&[], &[&v], body)), args: vec![] }));
                "launched rings"
            }
            13 => { let k = self.keep(); let x = self.value(); pre.push(set(local(&v), x)); pre.push(set(k, e(EK::Map { f: bx(ring(&["q"], &[&v], vec![ret(list(vec![var(local("q")), l()]))])), list: bx(e(EK::Range { start: bx(num(1.0)), stop: bx(num(5.0)) })) }))); "higher-order blocks" }
            14 => { pre.push(st(SK::ShowVar { var: local(&v) })); if self.r.pct(50) { pre.push(st(SK::HideVar { var: local(&v) })); } let x = self.value(); pre.push(set(local(&v), list(vec![x]))); "watchers" }
            15 => { let x = self.value(); let k = self.keep(); pre.push(set(k, e(EK::CallRpc { host: None, service: cs("Svc"), rpc: cs("do"), args: vec![(cs("a"), x)] }))); "service calls" }
            16 => { let x = self.value(); let k = self.keep(); let b = self.name(); pre.push(st(SK::TryCatch { code: vec![set(k, e(EK::UnknownBlock { name: cs("nativeCallSyscall"), args: vec![txt("s"), list(vec![x])] }))], var: local(&b), handler: vec![] })); "syscalls" }
            17 => { let x = self.value(); let k = self.keep(); pre.push(set(k, e(EK::NetworkMessageReply { target: bx(txt("room")), msg_type: cs("net"), values: vec![(cs("x"), list(vec![num(1.0), txt("z")]))] }))); let _ = x; "messages awaiting replies" }
            18 => { pre.push(st(SK::SendNetworkMessage { target: bx(txt("room")), msg_type: cs("net"), values: vec![(cs("x"), num(3.0))] })); "messages" }
            19 => { let x = self.value(); pre.push(st(SK::Say { content: bx(x), duration: if self.r.pct(30) { Some(bx(num(0.02))) } else { None } })); "said" }
            20 => { pre.push(st(SK::Sleep { seconds: bx(num(0.01 * self.r.below(4) as f64)) })); "waits" }
            21 => {
                pre.push(set(local(&v), e(EK::Range { start: bx(num(1.0)), stop: bx(num(20.0)) })));
                for _ in 0..1 + self.r.below(3) { let x = self.value(); match self.r.below(4) {
                    0 => pre.push(st(SK::ListInsert { list: bx(l()), index: bx(num(2.0)), value: bx(x) })), 1 => pre.push(st(SK::ListRemove { list: bx(l()), index: bx(num(3.0)) })),
                    2 => pre.push(st(SK::ListRemoveAll { list: bx(l()) })), _ => pre.push(st(SK::ListAssign { list: bx(l()), index: bx(num(1.0)), value: bx(l()) })) } }
                if self.r.pct(40) { let k = self.keep(); pre.push(set(k, l())); }
                "lists changed"
            }
            22 => { let k = self.keep(); pre.push(set(k, match self.r.below(4) { 0 => e(EK::TextSplit { text: bx(txt("[1,[2,{\"a\":3}],\"b\"]")), mode: TextSplitMode::Json }), 1 => e(EK::TextSplit { text: bx(txt("a,b\nc,d")), mode: TextSplitMode::Csv }), 2 => e(EK::CopyList { list: bx(list(vec![list(vec![])])) }), _ => e(EK::ListCombinations { sources: bx(list(vec![list(vec![num(1.0), num(2.0)]), list(vec![txt("a"), txt("b")])])) }) })); "texts and tables" }
            23 => { pre.push(if self.r.pct(50) { st(SK::NextCostume) } else { st(SK::SetCostume { costume: bx(txt("c1")) }) }); let k = self.keep(); pre.push(set(k, e(if self.r.pct(50) { EK::CostumeList } else { EK::Costume }))); "costumes" }
            24 if depth < 2 => { let mut b = vec![]; self.maker(&mut b, place, depth + 1); self.maker(&mut b, place, depth + 1); pre.push(if self.r.pct(50) { st(SK::Warp { stmts: b }) } else { st(SK::Repeat { times: bx(num(2.0)), stmts: b }) }); "nested blocks" }
            25 => {
                // asks another sprite to run it: a variable of that sprite
                let k = self.r.pct(50);
                pre.push(st(SK::CallClosure { new_entity: Some(bx(ent("C"))), closure: bx(ring(&["w"], &[], vec![set(if k { field("f") } else { global("g2") }, list(vec![var(local("w")), e(EK::This)]))])), args: vec![num(1.0)] }));
                "asked of another sprite"
            }
            _ => { let x = self.value(); pre.push(set(local(&v), x)); "script variables" }
        };
        if !self.kinds.contains(&name) { self.kinds.push(name); }
        out.extend(pre);
    }
    fn makers(&mut self, place: Place) -> Vec<Stmt> {
        let mut out = vec![];
        for _ in 0..1 + self.r.below(4) { self.maker(&mut out, place, 0); }
        // a script may end anywhere, by an error or by a stop block
        if self.r.pct(25) {
            let at = out.iter().position(|s| !matches!(s.kind, SK::DeclareLocals { .. })).unwrap_or(0).max(out.len() / 2);
            let s = match self.r.below(5) {
                0 => st(SK::Throw { error: bx(txt("an error nobody catches, with a message on the heap")) }), 1 => st(SK::Stop { mode: StopMode::ThisScript }), 2 => st(SK::Stop { mode: StopMode::OtherScriptsInSprite }),
                3 if matches!(place, Place::Key) => st(SK::Stop { mode: StopMode::All }), _ => st(SK::Stop { mode: StopMode::AllButThisScript }),
            };
            out.insert(at.min(out.len()), s);
        }
        out
    }
}
#[derive(Clone, Copy)]
enum Place { Key, Other }

pub fn program(r: &mut Rng) -> (&'static Role, Vec<&'static str>) {
    let mut b = B { r, n: 0, kinds: vec![] };
    let hat = |k: HK, stmts: Vec<Stmt>| Script { hat: Some(Box::new(Hat { kind: k, info: BlockInfo::none() })), stmts };
    let key = |k: &str| HK::OnKey { key: cs(k) };
    let init = |n: &str| VariableDefInit { def: mk_def(n), init: Value::Number(0.0) };
    let imgs = || (0..2).map(|i| VariableDefInit { def: mk_def(&format!("c{i}")), init: Value::Image(Rc::new((vec![i as u8; 40], None, cs(&format!("c{i}"))))) }).collect::<Vec<_>>();
    let entity = |n: &str, scripts: Vec<Script>| ast::Entity { name: cs(n), trans_name: cs(n), fields: vec![init("f"), init("k")], costumes: imgs(), sounds: vec![], funcs: vec![], scripts, active_costume: None, visible: true, color: (0, 0, 0, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 };
    let reap = || Script { hat: Some(Box::new(Hat { kind: key("z"), info: BlockInfo::none() })), stmts: vec![st(SK::If { condition: bx(e(EK::Eq { left: bx(var(field("k"))), right: bx(num(1.0)) })), then: vec![st(SK::DeleteClone)] })] };
    let mut a = vec![reap(), hat(key("a"), b.makers(Place::Key))];
    // a clone ends, sometimes after doing something; what it holds (and what holds it) goes with it
    let dying = |b: &mut B| { let mut v = if b.r.pct(50) { b.makers(Place::Other) } else { vec![] }; v.retain(|s| !matches!(s.kind, SK::Stop { .. } | SK::Throw { .. })); v.push(st(SK::DeleteClone)); v };
    let d = dying(&mut b);
    a.push(hat(HK::OnClone, d));
    if b.r.pct(60) { a.push(hat(HK::LocalMessage { msg_type: if b.r.pct(30) { None } else { Some(cs("m")) } }, b.makers(Place::Other))); }
    if b.r.pct(50) { a.push(hat(HK::NetworkMessage { msg_type: cs("net"), fields: vec![local("x")] }, { let mut v = b.makers(Place::Other); if b.r.pct(60) { v.push(st(SK::SendNetworkReply { value: bx(num(1.0)) })); } v })); }
    if b.r.pct(50) { a.push(hat(HK::Unknown { name: cs("evt"), fields: vec![local("y")] }, b.makers(Place::Other))); }
    if b.r.pct(60) { let mut v = b.makers(Place::Other); v.retain(|s| !matches!(s.kind, SK::Stop { .. } | SK::Throw { .. })); v.push(st(SK::Sleep { seconds: bx(num(0.01)) })); a.push(hat(HK::OnFlag, vec![st(SK::InfLoop { stmts: v })])); }
    let mut c = vec![reap()];
    if b.r.pct(60) { c.push(hat(HK::OnClone, if b.r.pct(50) { dying(&mut b) } else { b.makers(Place::Other) })); }
    if b.r.pct(50) { c.push(hat(key("b"), b.makers(Place::Other))); }
    if b.r.pct(40) { c.push(hat(HK::LocalMessage { msg_type: Some(cs("m")) }, b.makers(Place::Other))); }
    let p = |n: &str| local(n);
    let rec = |name: &str, end: Stmt| Function { name: cs(name), trans_name: cs(name), params: vec![mk_def("n"), mk_def("x")], upvars: vec![], returns: false, stmts: vec![
        st(SK::IfElse { condition: bx(e(EK::Less { left: bx(var(p("n"))), right: bx(num(1.0)) })), then: vec![end], otherwise: vec![
            set(p("x"), list(vec![var(p("x")), ring(&[], &["n", "x"], vec![ret(var(p("x")))])])),
            st(SK::CallFn { function: func(name), args: vec![e(EK::Sub { left: bx(var(p("n"))), right: bx(num(1.0)) }), var(p("x"))], upvars: vec![] })] })] };
    let funcs = vec![rec("rec", set(global("g0"), var(p("x")))), rec("fails", st(SK::Throw { error: bx(var(p("x"))) }))];
    let mut entities = vec![entity("Stage", vec![]), entity("A", a), entity("C", c)];
    // each clone hands over to a clone of its own and ends: one at a time, however long the chain
    if b.r.pct(40) {
        let this = || bx(e(EK::This));
        let mut pass = vec![st(SK::Clone { target: this() }), st(SK::DeleteClone)];
        if b.r.pct(50) { pass.insert(0, st(SK::Sleep { seconds: bx(num(0.01 * b.r.below(3) as f64)) })); }
        if b.r.pct(30) { let x = num(b.r.below(9) as f64); pass.insert(0, set(field("f"), list(vec![x]))); }
        entities.push(entity("D", vec![hat(key("a"), vec![st(SK::If { condition: bx(e(EK::Eq { left: bx(var(global("g3"))), right: bx(num(0.0)) })), then: vec![
            set(global("g3"), num(1.0)), st(SK::Clone { target: this() })] })]), hat(HK::OnClone, pass)]));
        b.kinds.push("chains of clones");
    }
    let role = Role { name: cs("role"), notes: cs(""), stage_size: (480, 360), globals: ["g0", "g1", "g2", "g3"].iter().map(|n| init(n)).collect(), funcs, entities };
    let kinds = b.kinds;
    (Box::leak(Box::new(role)), kinds)
}

// ---- runs --------------------------------------------------------------------------------------------------------------

#[derive(Collect)]
#[collect(no_drop)]
struct Env2<'gc> { proj: Project<'gc, Lc, Lean> }
type A2 = Arena<Rootable![Env2<'_>]>;
pub struct Inst { arena: A2, sys: Rc<Lean>, turn: u64, seed: u64, left: u32, steps: u64, every: bool, errors: u64 }
impl Inst {
    fn new(bc: &Rc<ByteCode>, init: &InitInfo, seed: u64, every: bool) -> Inst {
        let sys = Rc::new(Lean::new(seed));
        let st = Settings { max_call_depth: 64, rpc_error_scheme: ErrorScheme::Soft, syscall_error_scheme: ErrorScheme::Hard };
        let mut arena = A2::new(|mc| Env2 { proj: Project::from_init(mc, init, bc.clone(), st, sys.clone()) });
        arena.mutate_root(|mc, env| env.proj.input(mc, Input::Start));
        Inst { arena, sys, turn: 0, seed, left: 0, steps: 0, every, errors: 0 }
    }
    /// up to n steps of the running turn; a new turn begins when nothing runs any more or the turn has had its share
    fn go(&mut self, n: u32) {
        let (sys, turn, left, seed, steps, errors) = (self.sys.clone(), &mut self.turn, &mut self.left, self.seed, &mut self.steps, &mut self.errors);
        self.arena.mutate_root(|mc, env| {
            for _ in 0..n {
                if *left == 0 {
                    *left = 1500;
                    *turn += 1;
                    sys.now.set(sys.now.get() + 10);
                    let t = hash2(seed, *turn);
                    if *turn % 2 == 0 { env.proj.input(mc, Input::KeyDown { key: KeyCode::Char('z') }); continue; }
                    env.proj.input(mc, Input::KeyDown { key: KeyCode::Char('a') });
                    if t % 2 == 0 { env.proj.input(mc, Input::KeyDown { key: KeyCode::Char('b') }); }
                    if t % 3 == 0 { env.proj.input(mc, Input::CustomEvent { name: "evt".into(), args: [("y".into(), SimpleValue::Text("an argument of more than twenty-four bytes".into()))].into_iter().collect(), interrupt: t % 5 == 0, max_queue: (t % 4) as usize }); }
                    if t % 4 == 0 && sys.inbox.borrow().len() < 3 {
                        let mut values = VecMap::new();
                        values.insert(cs("x"), SimpleValue::List(vec![SimpleValue::Bool(true)]));
                        sys.inbox.borrow_mut().push_back(IncomingMessage { msg_type: cs("net"), values, reply_key: if t % 8 == 0 { Some(InternReplyKey { src_id: cs("somebody far away with a long name"), request_id: format!("request {} of a long name and row", *turn).into() }) } else { None } });
                    }
                    // in every other case the scripts started at first go on to the end
                    if t % 23 == 0 && seed % 2 == 0 { env.proj.input(mc, Input::Stop); }
                    if (t % 7 == 0 || t % 23 == 0) && seed % 2 == 0 { env.proj.input(mc, Input::Start); }
                }
                *left -= 1;
                *steps += 1;
                match env.proj.step(mc) {
                    ProjectStep::Idle => { *left = 0; sys.mix(1); }
                    ProjectStep::Yield => sys.now.set(sys.now.get() + 1),
                    ProjectStep::Error { error, .. } => { *errors += 1; sys.mix(hash_str(&error.pos.to_string())); }
                    ProjectStep::ProcessTerminated { result, .. } => sys.seen(&result),
                    ProjectStep::Watcher { create, watcher } => { sys.mix(create as u64); drop(watcher); }
                    _ => (),
                }
            }
        });
        if self.every { self.arena.collect_debt(); }
    }
    fn turns(&mut self, until: u64) { while self.turn < until { self.go(200); } }
    fn settle(&mut self) -> i64 { for _ in 0..2 { self.arena.collect_all(); } live() }
}

fn built(role: &Role) -> Result<(Rc<ByteCode>, InitInfo), String> { let (bc, init, _, _) = ByteCode::compile(role).map_err(|e| format!("refused: {e:?}"))?; Ok((Rc::new(bc), init)) }

const MARKS: [u64; 4] = [48, 96, 192, 384];
pub fn c36(cov: &mut Cov, seed: u64, _idx: u64, thorough: bool) -> Res {
    let mut r = Rng::new(seed);
    let (role, kinds) = program(&mut r);
    let (bc, init) = match built(role) { Ok(x) => x, Err(m) => return Res::Violation(m) };
    let s = r.next();
    let every = r.pct(50);
    { let mut warm = Inst::new(&bc, &init, s, every); warm.turns(2); warm.settle(); }
    let mut at = Vec::with_capacity(16);
    let before = live();
    let total0 = TOTAL.with(|x| x.get());
    let mut i = Inst::new(&bc, &init, s, every);
    let upto = |i: &mut Inst, t: u64, at: &mut Vec<i64>| { i.turns(t); let x = i.settle(); at.push(x - before); };
    for t in MARKS { upto(&mut i, t, &mut at); }
    let grows = |at: &[i64], unit: i64| at.windows(2).enumerate().all(|(k, w)| w[1] - w[0] >= (unit << k) * 4 / 5);
    let mut suspicious = grows(&at, 500);
    if suspicious || thorough {
        for t in [768, 1536] { upto(&mut i, t, &mut at); }
        suspicious = grows(&at, 500);
    }
    let (hash, errors, turns, steps, ops) = (i.sys.hash.get(), i.errors, i.turn, i.steps, i.sys.ops.get());
    drop(i);
    let after = live() - before;
    cov.add("turns", turns);
    cov.add("steps", steps);
    cov.add("host operations", ops);
    cov.add("scripts ended by an error", errors);
    cov.add("bytes allocated", TOTAL.with(|x| x.get()) - total0);
    cov.max("most bytes alive at a mark", *at.iter().max().unwrap() as u64);
    for k in &kinds { cov.add(&format!("programs with {k}"), 1); }
    if suspicious { return Res::Violation(format!("the bytes alive after a full collection grow without end: {at:?} after {MARKS:?} … turns, in a program of {kinds:?}")); }
    if after != 0 { return Res::Violation(format!("{after} bytes stay allocated after the instance is gone, in a program of {kinds:?}")); }
    cov.add("instances found gone without a trace", 1);
    if cov.distinct(hash) { cov.sample(|| format!("{kinds:?}: bytes alive at the marks {at:?}, {errors} errors")); }
    Res::Ok
}

/// C24: an instance does the same whether or not another one runs in between
pub fn apart(cov: &mut Cov, seed: u64) -> Res {
    let mut r = Rng::new(seed);
    let (ra, _) = program(&mut r);
    let (rb, _) = program(&mut r);
    let (a, b) = match (built(ra), built(if r.pct(70) { rb } else { ra })) { (Ok(a), Ok(b)) => (a, b), (Err(m), _) | (_, Err(m)) => return Res::Violation(m) };
    let (sa, sb) = (r.next(), r.next());
    let state = |i: &Inst| (i.sys.hash.get(), i.sys.ops.get(), i.errors, i.turn);
    let chunks: Vec<(u32, u32)> = (0..60).map(|_| (1 + r.below(60) as u32, 1 + r.below(60) as u32)).collect();
    let alone = |x: &(Rc<ByteCode>, InitInfo), s: u64, which: bool| { let mut i = Inst::new(&x.0, &x.1, s, true); for c in &chunks { i.go(if which { c.1 } else { c.0 }); } state(&i) };
    let (wa, wb) = (alone(&a, sa, false), alone(&b, sb, true));
    let mut x = Inst::new(&a.0, &a.1, sa, true);
    let mut y = Inst::new(&b.0, &b.1, sb, false);
    for c in &chunks { x.go(c.0); y.go(c.1); if c.0 == 7 { y.arena.collect_all(); } }
    cov.add("pairs of instances run in turns", 1);
    if state(&x) != wa { return Res::Violation(format!("an instance alone: {wa:?}, with another running in between: {:?}", state(&x))); }
    if state(&y) != wb { return Res::Violation(format!("an instance alone: {wb:?}, with another running in between: {:?}", state(&y))); }
    Res::Ok
}

// ---- lists nested as deep as a program cares to nest them --------------------------------------------------------------------

pub const NESTED: &[&str] = &["building", "length", "rank", "dimensions", "flatten", "equal", "identical", "less than", "contains", "reshape", "csv", "json", "reverse", "copy", "columns", "plus", "negative", "join", "as an index", "combinations", "append", "to the host", "to a service", "to another role", "in an error", "map", "foreach", "in a ring"];
/// a program which nests a list in a list D times and then uses it, in a process of its own on a stack of the usual 8 MiB
pub fn nested_here(op: &str, depth: u64) {
    let l = || var(local("l"));
    let m = || var(local("m"));
    let nest = |n: &str| vec![st(SK::DeclareLocals { vars: vec![mk_def(n)] }), set(local(n), list(vec![])), st(SK::Repeat { times: bx(num(depth as f64)), stmts: vec![set(local(n), list(vec![var(local(n))]))] })];
    let mut stmts = vec![st(SK::Warp { stmts: [nest("l"), nest("m")].concat() })];
    let keep = |x: Expr| vec![set(local("m"), x)];
    stmts.extend(match op {
        "building" => vec![],
        "length" => keep(e(EK::ListLen { value: bx(l()) })),
        "rank" => keep(e(EK::ListRank { value: bx(l()) })),
        "dimensions" => keep(e(EK::ListDims { value: bx(l()) })),
        "flatten" => keep(e(EK::ListFlatten { value: bx(l()) })),
        "equal" => keep(e(EK::Eq { left: bx(l()), right: bx(m()) })),
        "identical" => keep(e(EK::Identical { left: bx(l()), right: bx(m()) })),
        "less than" => keep(e(EK::Less { left: bx(l()), right: bx(m()) })),
        "contains" => keep(e(EK::ListContains { list: bx(l()), value: bx(list(vec![num(1.0)])) })),
        "reshape" => keep(e(EK::ListReshape { value: bx(l()), dims: bx(list(vec![num(2.0)])) })),
        "csv" => keep(e(EK::ListCsv { value: bx(l()) })),
        "json" => keep(e(EK::ListJson { value: bx(l()) })),
        "reverse" => keep(e(EK::ListRev { value: bx(l()) })),
        "copy" => keep(e(EK::CopyList { list: bx(l()) })),
        "columns" => keep(e(EK::ListColumns { value: bx(l()) })),
        "plus" => keep(e(EK::Sub { left: bx(l()), right: bx(m()) })),
        "negative" => keep(e(EK::Neg { value: bx(l()) })),
        "join" => keep(e(EK::StrCat { values: bx(list(vec![l(), m()])) })),
        "as an index" => keep(e(EK::ListGet { list: bx(m()), index: bx(l()) })),
        "combinations" => keep(e(EK::ListCombinations { sources: bx(list(vec![l(), m()])) })),
        "append" => keep(e(EK::ListCat { lists: bx(list(vec![l(), m()])) })),
        "to the host" => vec![st(SK::Say { content: bx(l()), duration: None })],
        "to a service" => keep(e(EK::CallRpc { host: None, service: cs("s"), rpc: cs("r"), args: vec![(cs("a"), l())] })),
        "to another role" => vec![st(SK::SendNetworkMessage { target: bx(txt("x")), msg_type: cs("n"), values: vec![(cs("a"), l())] })],
        "in an error" => vec![st(SK::Throw { error: bx(txt("it failed")) })],
        "map" => keep(e(EK::Map { f: bx(ring(&["x"], &[], vec![ret(var(local("x")))])), list: bx(l()) })),
        "foreach" => vec![st(SK::ForeachLoop { var: local("x"), items: bx(l()), stmts: vec![set(local("m"), var(local("x")))] })],
        _ => keep(call(ring(&[], &["l"], vec![ret(l())]), vec![])),
    });
    let ent = ast::Entity { name: cs("Stage"), trans_name: cs("Stage"), fields: vec![], costumes: vec![], sounds: vec![], funcs: vec![], scripts: vec![Script { hat: Some(Box::new(Hat { kind: HK::OnFlag, info: BlockInfo::none() })), stmts }], active_costume: None, visible: true, color: (0, 0, 0, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0, };
    let role = Role { name: cs("role"), notes: cs(""), stage_size: (480, 360), globals: vec![], funcs: vec![], entities: vec![ent] };
    let (bc, init, locs, _) = ByteCode::compile(&role).expect("compiles");
    let sys = Rc::new(Lean::new(1));
    let st = Settings { max_call_depth: 64, rpc_error_scheme: ErrorScheme::Soft, syscall_error_scheme: ErrorScheme::Hard };
    let bc = Rc::new(bc);
    let mut arena = A2::new(|mc| Env2 { proj: Project::from_init(mc, &init, bc, st, sys.clone()) });
    arena.mutate_root(|mc, env| env.proj.input(mc, Input::Start));
    loop {
        let idle = arena.mutate_root(|mc, env| {
            for _ in 0..5000 { match env.proj.step(mc) {
                ProjectStep::Idle => return true,
                ProjectStep::Error { error, proc } => { let s = ErrorSummary::extract(&error, &proc, &locs); println!("error {}", s.cause); }
                _ => (),
            } }
            false
        });
        arena.collect_debt();
        if idle { break; }
    }
    arena.collect_all();
    drop(arena);
    println!("over");
}
/// C25: the same in a process of its own, which has to end by itself
pub fn nested(cov: &mut Cov, n: u64) -> Res {
    let op = NESTED[(n % NESTED.len() as u64) as usize];
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(["nested", op, "100000"]).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::piped());
    let out = bound_to_parent(&mut c).output().expect("runs");
    cov.add("programs nesting lists very deep", 1);
    let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if said.ends_with("over") { cov.add("… which ran to their end", 1); return Res::Ok; }
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if err.contains("has overflowed its stack") { return Res::Violation(format!("a list nested 100000 deep, used by '{op}', exhausts the stack and ends the whole process ({})", out.status)); }
    Res::Violation(format!("a program nesting a list 100000 deep ('{op}') did not run to its end: {} {said} {}", out.status, crate::run::clip(&err)))
}
