//! Scripted host shared by the real VM run and by the reference-model run.
//! The n-th operation issued to the host gets an outcome and a completion delay that depend on (seed, n) only,
//! the clock moves only between turns, and everything asked of the host is appended to one event log.
use crate::rng::*;
use std::collections::{HashMap, VecDeque};
use rand::SeedableRng;

#[derive(Clone, Debug, PartialEq)]
pub enum HVal { Bool(bool), Num(f64), Text(String), List(Vec<HVal>), Native(u32) }

#[derive(Clone, Debug)]
pub enum Out { Ok(HVal), Soft(String), PollNs, PollCustom(String) }
#[derive(Clone, Debug)]
pub enum PerfErr { NotSupported, Custom(String) }
#[derive(Clone, Debug)]
pub enum Reply { Val(HVal), Null, Timeout }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TimeMode { Arbitrary, Timeless, Real }

#[derive(Clone, Debug)]
pub struct HostCfg {
    pub seed: u64,
    /// percentage of operations that take at least one turn to complete, and the longest delay in turns
    pub delay_pct: u32, pub max_delay: u64,
    /// percentages of: soft failures, failures raised when the operation is issued, failures raised while polling
    pub soft_pct: u32, pub perr_pct: u32, pub pollerr_pct: u32,
    pub time_mode: TimeMode,
    pub start_ms: u64,
    /// the clock advances by 0..=max_dt ms per turn (and sometimes not at all)
    pub max_dt: u64,
    pub native_pct: u32,
    /// percentage of random words that are all zeros or all ones
    pub extreme: u32,
    /// property operations act on the `Properties` kept for each entity
    pub live: bool,
    /// with the real clock: nanoseconds past the millisecond, and minutes the local time is ahead
    pub sub_ns: u32, pub zone_min: i32,
    /// now and then the clock steps back by up to so many ms (0: never)
    pub back: u64,
}
impl HostCfg {
    pub fn calm(seed: u64) -> Self { HostCfg { seed, delay_pct: 0, max_delay: 0, soft_pct: 0, perr_pct: 0, pollerr_pct: 0, time_mode: TimeMode::Arbitrary, start_ms: 1000, max_dt: 20, native_pct: 0, extreme: 0, live: false, sub_ns: 0, zone_min: 0, back: 0 } }
    pub fn random(r: &mut Rng) -> Self {
        let faulty = r.pct(40);
        HostCfg {
            seed: r.next(), delay_pct: *r.pick(&[0, 20, 50, 80]), max_delay: r.range(1, 5) as u64,
            soft_pct: if faulty { 15 } else { 0 }, perr_pct: if faulty && r.pct(50) { 10 } else { 0 }, pollerr_pct: if faulty && r.pct(50) { 6 } else { 0 },
            time_mode: TimeMode::Arbitrary, start_ms: r.next() % 1_000_000, max_dt: *r.pick(&[1, 20, 700]), native_pct: if r.pct(20) { 5 } else { 0 }, extreme: 0, live: false, sub_ns: 0, zone_min: 0, back: 0,
        }
    }
}

pub struct Op { pub ready: u64, pub out: Option<Out>, pub proc: u64, pub desc: String }
pub struct ROp { pub ready: u64, pub val: Option<Reply> }

#[derive(Clone, Debug)]
pub struct InMsg { pub msg_type: String, pub values: Vec<(String, HVal)>, pub reply: Option<(String, String)> }

/// random bits; `extreme` percent of the words are all zeros or all ones
pub struct HostRng { pub inner: rand_chacha::ChaCha8Rng, pub extreme: u32 }
impl rand::RngCore for HostRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        let x = self.inner.next_u64();
        if self.extreme == 0 || (x % 100) as u32 >= self.extreme { return self.inner.next_u64(); }
        if x >> 63 == 0 { 0 } else { u64::MAX }
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) { for c in dst.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
}
pub struct Host {
    pub cfg: HostCfg,
    pub tick: u64,
    pub now: u64,
    pub log: Vec<String>,
    pub ops: Vec<Op>,
    pub replies: Vec<ROp>,
    pub inbox: VecDeque<InMsg>,
    pub boundary: bool,
    pub procs: HashMap<u64, usize>,
    pub ents: HashMap<u64, usize>,
    pub rng: HostRng,
    pub broken: Vec<String>, pub freedom_checks: u64,
    pub polls: u64,
    /// messages and replies handed over
    pub sends: u64,
    /// ids of requests completed, in order, with the process they were issued by (online exactly-once monitor)
    pub completed: u64,
    pub quiet: bool,
    pub force_delay: Option<u64>,
    /// what was said while properties were live: entity, its parent, its name, the items
    pub said: Vec<(u64, Option<u64>, String, Vec<HVal>)>,
}

pub const LOG_CAP: usize = 60_000;

impl Host {
    pub fn new(cfg: HostCfg) -> Self {
        let rng = rand_chacha::ChaCha8Rng::seed_from_u64(cfg.seed ^ 0x1234);
        let rng = HostRng { inner: rng, extreme: cfg.extreme };
        let now = cfg.start_ms;
        Host { cfg, tick: 0, now, log: vec![], ops: vec![], replies: vec![], inbox: VecDeque::new(), boundary: true, procs: HashMap::new(), ents: HashMap::new(), rng, broken: vec![], freedom_checks: 0, polls: 0, sends: 0, completed: 0, quiet: false, force_delay: None, said: vec![] }
    }
    pub fn logline(&mut self, s: String) { if !self.quiet && self.log.len() < LOG_CAP { self.log.push(s); } }
    /// Called at the end of every turn.
    pub fn end_turn(&mut self) {
        self.tick += 1;
        let h = hash2(self.cfg.seed ^ 0x71c3, self.tick);
        let dt = if h % 5 == 0 { 0 } else { (h >> 8) % (self.cfg.max_dt + 1) };
        self.now = self.now.saturating_add(dt);
        if self.cfg.back > 0 && h % 7 == 3 { self.now = self.now.saturating_sub((h >> 20) % (self.cfg.back + 1)); }
        self.boundary = true;
    }
    pub fn receive(&mut self) -> Option<InMsg> {
        if !std::mem::replace(&mut self.boundary, false) { return None; }
        self.inbox.pop_front()
    }
    pub fn elabel(&mut self, raw: u64, name: &str, parent: Option<u64>) -> String {
        let n = self.ents.len();
        match self.ents.get(&raw) {
            Some(i) => format!("e{i}"),
            None => {
                self.ents.insert(raw, n);
                let p = parent.and_then(|p| self.ents.get(&p).map(|i| format!("<e{i}"))).unwrap_or_default();
                format!("e{n}:{name}{p}{}", if parent.is_some() { "*" } else { "" })
            }
        }
    }
    pub fn plabel(&mut self, raw: u64, disp: Option<u64>) -> String {
        let n = self.procs.len();
        match self.procs.get(&raw) {
            Some(i) => format!("p{i}"),
            None => {
                self.procs.insert(raw, n);
                let d = disp.map(|p| self.procs.get(&p).map(|i| format!("^p{i}")).unwrap_or("^".into())).unwrap_or_default();
                format!("p{n}{d}")
            }
        }
    }
    fn hval(r: &mut Rng, depth: u32, native_pct: u32) -> HVal {
        if r.pct(native_pct) { return HVal::Native(r.below(5) as u32); }
        match r.weighted(&[4, 6, 5, if depth > 0 { 3 } else { 0 }]) {
            0 => HVal::Bool(r.pct(50)),
            1 => HVal::Num(*r.pick(&[0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 10.0, 1e10, -2.25, 7.0])),
            2 => HVal::Text(r.pick(&["", "a", "5", "hello", "B", "x y", "-3", "0x10", "é"]).to_string()),
            _ => { let n = r.below(4); HVal::List((0..n).map(|_| Self::hval(r, depth - 1, native_pct)).collect()) }
        }
    }
    /// Registers the next operation. `desc` is logged with its number, process and entity.
    pub fn issue(&mut self, tag: char, proc: u64, plabel: &str, elabel: &str, desc: &str, given: Option<HVal>) -> Result<u64, PerfErr> {
        let n = self.ops.len() as u64;
        let mut r = Rng::new(hash2(self.cfg.seed, n));
        let delay = if r.pct(self.cfg.delay_pct) { 1 + r.next() % self.cfg.max_delay.max(1) } else { 0 };
        let delay = self.force_delay.unwrap_or(delay);
        let val = Self::hval(&mut r, 2, self.cfg.native_pct);
        let (perr, soft, pollerr, variant) = (r.pct(self.cfg.perr_pct), r.pct(self.cfg.soft_pct), r.pct(self.cfg.pollerr_pct), r.pct(50));
        let mut fail = None;
        let mut out = None;
        if perr { fail = Some(if variant { PerfErr::NotSupported } else { PerfErr::Custom(format!("perf{n}")) }); }
        else if soft { out = Some(Out::Soft(match r.below(8) { 0 => String::new(), 1 => "0".into(), 2 => "again".into(), _ => format!("soft{n}") })); }
        else if pollerr { out = Some(if variant { Out::PollNs } else { Out::PollCustom(format!("poll{n}")) }); }
        else { out = Some(Out::Ok(given.unwrap_or(val))); }
        let line = format!("{tag}{n} {plabel} {elabel} {desc}{}", if fail.is_some() { " !" } else { "" });
        self.logline(line);
        self.ops.push(Op { ready: self.tick + delay, out, proc, desc: desc.into() });
        match fail { Some(f) => Err(f), None => Ok(n) }
    }
    /// A message or reply is handed over: logged, and refused now and then by a failing host.
    pub fn hand_over(&mut self, line: String) -> Result<(), String> {
        self.sends += 1;
        let n = self.sends;
        let refused = self.cfg.perr_pct > 0 && Rng::new(hash2(self.cfg.seed ^ 0x5e4d, n)).pct(self.cfg.perr_pct);
        self.logline(format!("{line}{}", if refused { " !" } else { "" }));
        if refused { Err(format!("net{n}")) } else { Ok(()) }
    }
    /// None: still pending.
    pub fn poll(&mut self, n: u64, proc: u64) -> Option<Out> {
        self.polls += 1;
        let tick = self.tick;
        let op = &mut self.ops[n as usize];
        if op.proc != proc { let m = format!("operation {n} ({}) polled for process {proc}, was issued by {}", op.desc, op.proc); self.broken.push(m); }
        let op = &mut self.ops[n as usize];
        if op.ready > tick { return None; }
        match op.out.take() {
            Some(x) => { self.completed += 1; Some(x) }
            None => { let m = format!("operation {n} ({}) polled again after its result was delivered", op.desc); self.broken.push(m); Some(Out::Ok(HVal::Num(0.0))) }
        }
    }
    pub fn issue_reply(&mut self) -> u64 {
        let n = self.replies.len() as u64;
        let mut r = Rng::new(hash2(self.cfg.seed ^ 0xabcdef, n));
        let delay = if r.pct(self.cfg.delay_pct.max(20)) { 1 + r.next() % self.cfg.max_delay.max(1) } else { 0 };
        let v = Self::hval(&mut r, 2, 0);
        let val = match r.weighted(&[8, if self.cfg.soft_pct > 0 { 1 } else { 0 }, 2]) { 0 => Reply::Val(v), 1 => Reply::Null, _ => Reply::Timeout };
        self.replies.push(ROp { ready: self.tick + delay, val: Some(val) });
        n
    }
    pub fn poll_reply(&mut self, n: u64) -> Option<Reply> {
        let tick = self.tick;
        let op = &mut self.replies[n as usize];
        if op.ready > tick { return None; }
        match op.val.take() {
            Some(x) => Some(x),
            None => { self.broken.push(format!("reply {n} polled again after delivery")); Some(Reply::Timeout) }
        }
    }
    pub fn time_ms(&self) -> Option<u64> { match self.cfg.time_mode { TimeMode::Timeless => None, _ => Some(self.now) } }
}
