//! The instrumented host as seen by the VM: `System` and `CustomTypes` implementations over `host::Host`.
use crate::host::*;
use netsblox_vm::compact_str::*;
use netsblox_vm::gc::*;
use netsblox_vm::json::*;
use netsblox_vm::process::*;
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;
use rand::distr::uniform::{SampleRange, SampleUniform};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;

thread_local! { static IDS: Cell<u64> = const { Cell::new(1) }; }
pub fn fresh() -> u64 { IDS.with(|x| { let v = x.get(); x.set(v + 1); v }) }

#[derive(Debug)]
pub struct Nat(pub u32);
impl GetType for Nat { type Output = NT; fn get_type(&self) -> NT { NT } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NT;

pub struct Inter(pub HVal);
impl From<SimpleValue> for Inter { fn from(v: SimpleValue) -> Self { Inter(from_simple(&v)) } }
pub fn from_simple(v: &SimpleValue) -> HVal {
    match v {
        SimpleValue::Bool(x) => HVal::Bool(*x), SimpleValue::Number(x) => HVal::Num(x.get()), SimpleValue::Text(x) => HVal::Text(x.to_string()),
        SimpleValue::List(x) => HVal::List(x.iter().map(from_simple).collect()),
        SimpleValue::Image(x) => HVal::Text(format!("<image {}>", x.name)), SimpleValue::Audio(x) => HVal::Text(format!("<audio {}>", x.name)),
    }
}
pub fn to_simple(v: &HVal) -> SimpleValue {
    match v {
        HVal::Bool(x) => SimpleValue::Bool(*x), HVal::Num(x) => SimpleValue::Number(Number::new(*x).unwrap()), HVal::Text(x) => SimpleValue::Text(x.as_str().into()),
        HVal::List(x) => SimpleValue::List(x.iter().map(to_simple).collect()), HVal::Native(n) => SimpleValue::Text(format!("native{n}").into()),
    }
}
pub fn to_json(v: &HVal) -> Json {
    match v {
        HVal::Bool(x) => Json::Bool(*x), HVal::Num(x) => Json::from(*x), HVal::Text(x) => Json::String(x.clone()),
        HVal::List(x) => Json::Array(x.iter().map(to_json).collect()), HVal::Native(n) => Json::String(format!("native{n}")),
    }
}

pub struct EState { pub raw: u64, pub parent: Option<u64>, pub init: Properties, pub live: RefCell<Properties>, pub props: RefCell<BTreeMap<String, HVal>>, pub stage: bool }
impl<'gc, 'a> From<EntityKind<'gc, 'a, C, Sys>> for EState {
    fn from(k: EntityKind<'gc, 'a, C, Sys>) -> Self {
        match k {
            EntityKind::Stage { props } => EState { raw: fresh(), parent: None, init: props, live: RefCell::new(props), props: Default::default(), stage: true },
            EntityKind::Sprite { props } => EState { raw: fresh(), parent: None, init: props, live: RefCell::new(props), props: Default::default(), stage: false },
            EntityKind::Clone { parent } => EState { raw: fresh(), parent: Some(parent.state.raw), init: parent.state.init, live: RefCell::new(*parent.state.live.borrow()), props: parent.state.props.clone(), stage: false },
        }
    }
}
pub struct PState { pub raw: u64, pub disp: Option<u64>, pub tokens: Vec<u64> }
impl<'gc, 'a> From<ProcessKind<'gc, 'a, C, Sys>> for PState {
    fn from(k: ProcessKind<'gc, 'a, C, Sys>) -> Self { PState { raw: fresh(), disp: k.dispatcher.map(|p| p.state.raw), tokens: vec![] } }
}
impl Unwindable for PState {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.tokens.len() }
    fn unwind_to(&mut self, p: &usize) { self.tokens.truncate(*p) }
}

pub struct C;
impl CustomTypes<Sys> for C {
    type NativeValue = Nat;
    type Intermediate = Inter;
    type EntityState = EState;
    type ProcessState = PState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Value<'gc, C, Sys> { hval_to_vm(mc, &v.0) }
}
pub type Val<'gc> = Value<'gc, C, Sys>;
pub fn hval_to_vm<'gc>(mc: &Mutation<'gc>, v: &HVal) -> Val<'gc> {
    match v {
        HVal::Bool(x) => Value::Bool(*x), HVal::Num(x) => Value::Number(Number::new(*x).unwrap()), HVal::Text(x) => Value::Text(x.as_str().into()),
        HVal::List(x) => Value::List(Gc::new(mc, RefLock::new(x.iter().map(|x| hval_to_vm(mc, x)).collect::<VecDeque<_>>()))),
        HVal::Native(n) => Value::Native(Rc::new(Nat(*n))),
    }
}

pub struct RKey(pub u64);
thread_local! { pub static DONE: RefCell<Vec<(u64, Result<Option<HVal>, String>)>> = const { RefCell::new(Vec::new()) }; }
impl Key<Result<Inter, CompactString>> for RKey { fn complete(self, v: Result<Inter, CompactString>) { DONE.with(|d| d.borrow_mut().push((self.0, v.map(|x| Some(x.0)).map_err(|e| e.to_string())))) } }
impl Key<Result<(), CompactString>> for RKey { fn complete(self, v: Result<(), CompactString>) { DONE.with(|d| d.borrow_mut().push((self.0, v.map(|_| None).map_err(|e| e.to_string())))) } }
/// what one `Properties::perform_*` call completed its key with; exactly one completion of that key is expected
pub fn completion(seq: u64) -> Result<Result<Option<HVal>, String>, String> {
    let mut d = DONE.with(|d| std::mem::take(&mut *d.borrow_mut()));
    if d.len() != 1 || d[0].0 != seq { return Err(format!("{} completions of operation {seq}: {d:?}", d.len())); }
    Ok(d.pop().unwrap().1)
}

pub struct Sys { pub host: RefCell<Host>, pub layers: Option<Layers> }

pub fn img_center(c: &Option<(Number, Number)>) -> String { match c { Some((x, y)) => format!("@{:?},{:?}", x.get(), y.get()), None => String::new() } }

/// Serialises VM values of one event: shared and cyclic lists keep their sharing (`#k`).
pub struct Ser<'h> { pub host: &'h mut Host, seen: HashMap<usize, usize> }
impl<'h> Ser<'h> {
    pub fn new(host: &'h mut Host) -> Self { Ser { host, seen: HashMap::new() } }
    pub fn val(&mut self, v: &Val<'_>) -> String { let mut s = String::new(); self.go(v, &mut s); s }
    fn go(&mut self, v: &Val<'_>, out: &mut String) {
        use std::fmt::Write;
        match v {
            Value::Bool(x) => write!(out, "{}", if *x { "T" } else { "F" }).unwrap(),
            Value::Number(x) => write!(out, "{:?}", x.get()).unwrap(),
            Value::Text(x) => write!(out, "{:?}", x.as_str()).unwrap(),
            Value::Image(x) => write!(out, "img:{}", crate::mval::media_label(&x.name, &x.content)).unwrap(),
            Value::Audio(x) => write!(out, "snd:{}", crate::mval::media_label(&x.name, &x.content)).unwrap(),
            Value::Native(x) => write!(out, "nat:{}", x.0).unwrap(),
            Value::List(x) => {
                let key = Gc::as_ptr(*x) as *const () as usize;
                let n = self.seen.len();
                if let Some(i) = self.seen.get(&key) { write!(out, "#{i}").unwrap(); return; }
                self.seen.insert(key, n);
                write!(out, "#{n}[").unwrap();
                for (i, v) in x.borrow().iter().enumerate() { if i > 0 { out.push(','); } self.go(v, out); }
                out.push(']');
            }
            Value::Closure(x) => {
                let key = Gc::as_ptr(*x) as *const () as usize;
                let n = self.seen.len();
                let i = *self.seen.entry(key).or_insert(n);
                write!(out, "fn#{i}").unwrap();
            }
            Value::Entity(x) => { let l = elabel(self.host, &x.borrow()); out.push_str(&l) }
        }
    }
}
pub fn elabel(host: &mut Host, e: &Entity<'_, C, Sys>) -> String { host.elabel(e.state.raw, &e.name, e.state.parent) }
pub fn frame_entity<'gc>(p: &Process<'gc, C, Sys>) -> Gc<'gc, RefLock<Entity<'gc, C, Sys>>> { p.get_call_stack().last().unwrap().entity }

pub fn prop_value(v: &Val<'_>) -> Option<HVal> {
    Some(match v { Value::Bool(x) => HVal::Bool(*x), Value::Number(x) => HVal::Num(x.get()), Value::Text(x) => HVal::Text(x.to_string()), _ => return None })
}

pub fn rdesc(h: &mut Host, request: &Request<'_, C, Sys>) -> String {
    let mut s = Ser::new(h);
    match request {
        Request::Input { prompt } => format!("ask {}", prompt.as_ref().map(|x| s.val(x)).unwrap_or("-".into())),
        Request::Syscall { name, args } => format!("sys {name:?} {}", args.iter().map(|x| s.val(x)).collect::<Vec<_>>().join(" ")),
        Request::Rpc { host, service, rpc, args } => format!("rpc {:?} {service}.{rpc} {}", host.as_deref(), args.iter().map(|(k, v)| format!("{k}={}", s.val(v))).collect::<Vec<_>>().join(" ")),
        Request::Property { prop } => format!("get {prop:?}"),
        Request::UnknownBlock { name, args } => format!("unk {name:?} {}", args.iter().map(|x| s.val(x)).collect::<Vec<_>>().join(" ")),
    }
}
pub fn cdesc(h: &mut Host, command: &Command<'_, '_, C, Sys>, proc: &Process<'_, C, Sys>) -> String {
        let mut s = Ser::new(h);
        match command {
            Command::Print { style, value } => format!("{style:?} {}", value.as_ref().map(|x| s.val(x)).unwrap_or("-".into())),
            Command::SetProperty { prop, value } => format!("set {prop:?} {}", s.val(value)),
            Command::ChangeProperty { prop, delta } => format!("chg {prop:?} {}", s.val(delta)),
            Command::ClearEffects => "clear-effects".into(),
            Command::ClearDrawings => "clear-drawings".into(),
            Command::SetCostume => {
                let e = frame_entity(proc);
                let e = e.borrow();
                format!("costume {}", e.costume.as_ref().map(|c| crate::mval::media_label(&c.name, &c.content)).unwrap_or("-".into()))
            }
            Command::PlaySound { sound, blocking } => format!("sound {} {blocking}", crate::mval::media_label(&sound.name, &sound.content)),
            Command::PlayNotes { notes, beats, blocking } => format!("notes {:?} {:?} {blocking}", notes.iter().map(|x| x.get_midi().0).collect::<Vec<_>>(), beats.get()),
            Command::StopSounds => "stop-sounds".into(),
            Command::GotoXY { x, y } => format!("goto {:?} {:?}", x.get(), y.get()),
            Command::GotoEntity { target } => format!("goto-entity {}", elabel(s.host, target)),
            Command::PointTowardsXY { x, y } => format!("point {:?} {:?}", x.get(), y.get()),
            Command::PointTowardsEntity { target } => format!("point-entity {}", elabel(s.host, target)),
            Command::Forward { distance } => format!("forward {:?}", distance.get()),
        }
}

/// Layered host configurations under observation: what every layer was offered, against what it should have been.
pub struct LayerLog { pub scratch: RefCell<Host>, pub offers: RefCell<Vec<(usize, u64, String)>>, pub has: Vec<(bool, bool)>, pub seed: u64, pub judged: Cell<[u64; 3]> }
pub struct Layers { pub config: Config<C, Sys>, pub log: Rc<LayerLog> }
impl LayerLog {
    pub fn handles(&self, layer: usize, seq: u64) -> bool { crate::rng::hash2(self.seed ^ layer as u64, seq) % 3 == 0 }
    fn judge(&self, h: &mut Host, seq: u64, desc: &str, command: bool, end: Option<Option<(u64, String)>>) {
        let mut want = vec![];
        let (mut any, mut handled) = (false, false);
        for (i, has) in self.has.iter().enumerate() {
            if !(if command { has.1 } else { has.0 }) { continue; }
            any = true;
            want.push((i, seq, desc.to_string()));
            if self.handles(i, seq) { handled = true; break; }
        }
        let got = std::mem::take(&mut *self.offers.borrow_mut());
        let want_end = if !any { None } else if handled { Some(None) } else { Some(Some((seq, desc.to_string()))) };
        if got != want { h.broken.push(format!("layers: operation {seq} ({desc}) should have been offered as {want:?} and was offered as {got:?}")); }
        if end != want_end { h.broken.push(format!("layers: operation {seq} ({desc}) should have ended as {want_end:?} and ended as {end:?}")); }
        let mut j = self.judged.get();
        j[if handled { 0 } else if any { 1 } else { 2 }] += 1;
        self.judged.set(j);
    }
}
/// `tree`: how the layers are composed
pub fn layered(seed: u64, has: Vec<(bool, bool)>) -> Layers {
    let log = Rc::new(LayerLog { scratch: RefCell::new(Host::new(HostCfg::calm(seed))), offers: RefCell::new(vec![]), has: has.clone(), seed, judged: Cell::new([0; 3]) });
    let mut parts: Vec<Config<C, Sys>> = has.iter().enumerate().map(|(i, (r, c))| {
        let (l1, l2) = (log.clone(), log.clone());
        Config {
            request: if *r { Some(Rc::new(move |_mc, key: RKey, request, _proc| {
                let d = rdesc(&mut l1.scratch.borrow_mut(), &request);
                l1.offers.borrow_mut().push((i, key.0, d));
                if l1.handles(i, key.0) { drop(key); RequestStatus::Handled } else { RequestStatus::UseDefault { key, request } }
            })) } else { None },
            command: if *c { Some(Rc::new(move |_mc, key: RKey, command, proc| {
                let d = cdesc(&mut l2.scratch.borrow_mut(), &command, proc);
                l2.offers.borrow_mut().push((i, key.0, d));
                if l2.handles(i, key.0) { drop(key); CommandStatus::Handled } else { CommandStatus::UseDefault { key, command } }
            })) } else { None },
        }
    }).collect();
    let mut r = crate::rng::Rng::new(seed ^ 0x1a7e);
    // neighbours are composed in any order; the order of the layers stays
    while parts.len() > 1 {
        let i = r.below(parts.len() - 1);
        let b = parts.remove(i + 1);
        let a = parts.remove(i);
        parts.insert(i, a.fallback(&b));
    }
    let config = parts.pop().unwrap_or_default();
    Layers { config: if r.pct(50) { config.clone() } else { config }, log }
}
impl Sys {
    pub fn new(host: Host) -> Self { Sys { host: RefCell::new(host), layers: None } }
    fn labels(&self, h: &mut Host, p: &Process<'_, C, Sys>) -> (String, String) {
        let pl = h.plabel(p.state.raw, p.state.disp);
        let e = frame_entity(p);
        let el = match e.try_borrow() { Ok(e) => elabel(h, &e), Err(_) => "e?".into() };
        (pl, el)
    }
}
/// what the host keeps for a script is part of the label of its operations
fn kept(pl: String, p: &Process<'_, C, Sys>) -> String { match p.state.tokens.len() { 0 => pl, n => format!("{pl}~{n}") } }
/// while the host is called nothing of the program may be held: the host reads and changes it freely
fn held<'gc>(mc: &Mutation<'gc>, h: &mut Host, proc: &Process<'gc, C, Sys>, lent: Option<*const Entity<'gc, C, Sys>>) {
    fn val<'gc>(mc: &Mutation<'gc>, v: &Val<'gc>, depth: u32, what: &mut Vec<String>) {
        match v {
            Value::List(x) => { if x.try_borrow_mut(mc).is_err() { what.push("a list".into()); } else if depth > 0 { let some: Vec<Val<'gc>> = x.borrow().iter().take(8).cloned().collect(); for v in &some { val(mc, v, depth - 1, what); } } }
            Value::Closure(x) => if x.try_borrow_mut(mc).is_err() { what.push("a ring".into()); },
            _ => (),
        }
    }
    fn table<'gc>(mc: &Mutation<'gc>, t: &SymbolTable<'gc, C, Sys>, what: &mut Vec<String>) {
        for (name, v) in t.iter() {
            if let Shared::Aliased(x) = v { if x.try_borrow_mut(mc).is_err() { what.push(format!("variable {name:?}")); continue; } }
            val(mc, &v.get(), 2, what);
        }
    }
    let mut what = vec![];
    match proc.global_context.try_borrow_mut(mc) {
        Err(_) => what.push("the globals".into()),
        Ok(g) => {
            table(mc, &g.globals, &mut what);
            for (_, e) in g.entities.iter() { if lent != Some(e.as_ptr() as *const _) && e.try_borrow_mut(mc).is_err() { what.push("a sprite".into()); } }
        }
    }
    for f in proc.get_call_stack() {
        table(mc, &f.locals, &mut what);
        if lent != Some(f.entity.as_ptr() as *const _) && f.entity.try_borrow_mut(mc).is_err() { what.push("the sprite running the script".into()); }
        if let Ok(e) = f.entity.try_borrow() { table(mc, &e.fields, &mut what); }
    }
    if !what.is_empty() { h.broken.push(format!("the host was called while the program held {}", what.join(", "))); }
    h.freedom_checks += 1;
}
fn perf_err(e: PerfErr, feature: Feature) -> ErrorCause<C, Sys> {
    match e { PerfErr::NotSupported => ErrorCause::NotSupported { feature }, PerfErr::Custom(m) => ErrorCause::Custom { msg: m.into() } }
}
impl System<C> for Sys {
    type RequestKey = RKey;
    type CommandKey = RKey;
    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T { use rand::Rng; self.host.borrow_mut().rng.random_range(range) }
    fn time(&self, _: Precision) -> SysTime {
        let h = self.host.borrow();
        match h.cfg.time_mode {
            TimeMode::Timeless => SysTime::Timeless,
            TimeMode::Arbitrary => SysTime::Arbitrary { ms: h.now },
            TimeMode::Real => SysTime::Real { local: netsblox_vm::real_time::OffsetDateTime::from_unix_timestamp_nanos(h.now as i128 * 1_000_000 + h.cfg.sub_ns as i128).unwrap().to_offset(netsblox_vm::real_time::UtcOffset::from_whole_seconds(h.cfg.zone_min * 60).unwrap()) },
        }
    }
    fn perform_request<'gc>(&self, mc: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<RKey, ErrorCause<C, Self>> {
        let mut guard = self.host.borrow_mut();
        let h = &mut *guard;
        held(mc, h, proc, None);
        let (pl, el) = self.labels(h, proc);
        let mut given = None;
        match &request {
            Request::Syscall { name, .. } => match name.as_str() {
                "push" => { proc.state.tokens.push(1); given = Some(HVal::Num(proc.state.tokens.len() as f64)); }
                "depth" => given = Some(HVal::Num(proc.state.tokens.len() as f64)),
                "native" => given = Some(HVal::Native(7)),
                _ => (),
            },
            Request::Property { prop } => given = Some(frame_entity(proc).borrow().state.props.borrow().get(&format!("{prop:?}")).cloned().unwrap_or(HVal::Num(0.0))),
            _ => (),
        }
        let pl = kept(pl, proc);
        let desc = rdesc(h, &request);
        let feature = request.feature();
        if h.cfg.live { if let Request::Property { prop } = &request {
            let seq = h.ops.len() as u64;
            frame_entity(proc).borrow().state.live.borrow().perform_get_property::<C, Sys>(RKey(seq), *prop);
            let out = match completion(seq) { Err(m) => { h.broken.push(m); Out::Soft("?".into()) } Ok(Ok(v)) => Out::Ok(v.unwrap_or(HVal::Num(0.0))), Ok(Err(e)) => Out::Soft(e) };
            let res = h.issue('R', proc.state.raw, &pl, &el, &desc, None).map(RKey).map_err(|e| perf_err(e, feature));
            if let Some(o) = h.ops.last_mut() { o.out = Some(out); }
            return res;
        } }
        let seq = h.ops.len() as u64;
        if let Some(l) = &self.layers {
            let plain = [(); 2].map(|_| rdesc(&mut l.log.scratch.borrow_mut(), &request))[1].clone();
            let end = match &l.config.request { None => None, Some(f) => Some(match f(mc, RKey(seq), request, proc) { RequestStatus::Handled => None, RequestStatus::UseDefault { key, request } => Some((key.0, rdesc(&mut l.log.scratch.borrow_mut(), &request))) }) };
            l.log.judge(h, seq, &plain, false, end);
        }
        h.issue('R', proc.state.raw, &pl, &el, &desc, given).map(RKey).map_err(|e| perf_err(e, feature))
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &RKey, proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Val<'gc>, CompactString>>, ErrorCause<C, Self>> {
        held(mc, &mut self.host.borrow_mut(), proc, None);
        match self.host.borrow_mut().poll(key.0, proc.state.raw) {
            None => Ok(AsyncResult::Pending),
            Some(Out::Ok(v)) => Ok(AsyncResult::Completed(Ok(hval_to_vm(mc, &v)))),
            Some(Out::Soft(m)) => Ok(AsyncResult::Completed(Err(m.into()))),
            Some(Out::PollNs) => Err(ErrorCause::NotSupported { feature: Feature::Input }),
            Some(Out::PollCustom(m)) => Err(ErrorCause::Custom { msg: m.into() }),
        }
    }
    fn perform_command<'gc>(&self, mc: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<RKey, ErrorCause<C, Self>> {
        let mut guard = self.host.borrow_mut();
        let h = &mut *guard;
        held(mc, h, proc, match &command { Command::GotoEntity { target } | Command::PointTowardsEntity { target } => Some(*target as *const _), _ => None });
        let (pl, el) = self.labels(h, proc);
        let pl = kept(pl, proc);
        let feature = command.feature();
        if let Command::SetProperty { prop, value } = &command { if let Some(v) = prop_value(value) { frame_entity(proc).borrow().state.props.borrow_mut().insert(format!("{prop:?}"), v); } }
        let desc = cdesc(h, &command, proc);
        let seq = h.ops.len() as u64;
        if h.cfg.live {
            let e = frame_entity(proc);
            let e = e.borrow();
            let mut p = e.state.live.borrow_mut();
            let handled = match command {
                Command::SetProperty { prop, value } => { p.perform_set_property::<C, Sys>(RKey(seq), prop, value); true }
                Command::ChangeProperty { prop, delta } => { p.perform_change_property::<C, Sys>(RKey(seq), prop, delta); true }
                Command::ClearEffects => { p.perform_clear_effects::<C, Sys>(RKey(seq)); true }
                Command::GotoXY { x, y } => { p.perform_goto_xy::<C, Sys>(RKey(seq), x, y); true }
                Command::PointTowardsXY { x, y } => { p.perform_point_towards_xy::<C, Sys>(RKey(seq), x, y); true }
                Command::Forward { distance } => { p.perform_forward::<C, Sys>(RKey(seq), distance); true }
                Command::Print { value: Some(Value::List(l)), .. } => { h.said.push((e.state.raw, e.state.parent, e.name.to_string(), l.borrow().iter().map(|v| prop_value(v).unwrap_or(HVal::Text(format!("<{v:?}>")))).collect())); false }
                _ => false,
            };
            let out = if handled { match completion(seq) { Err(m) => { h.broken.push(m); Out::Soft("?".into()) } Ok(Ok(_)) => Out::Ok(HVal::Num(0.0)), Ok(Err(e)) => Out::Soft(e) } } else { Out::Ok(HVal::Num(0.0)) };
            let res = h.issue('C', proc.state.raw, &pl, &el, &desc, None).map(RKey).map_err(|e| perf_err(e, feature));
            if let Some(o) = h.ops.last_mut() { o.out = Some(out); }
            return res;
        }
        if let Some(l) = &self.layers {
            let plain = [(); 2].map(|_| cdesc(&mut l.log.scratch.borrow_mut(), &command, proc))[1].clone();
            let end = match &l.config.command { None => None, Some(f) => Some(match f(mc, RKey(seq), command, proc) { CommandStatus::Handled => None, CommandStatus::UseDefault { key, command } => Some((key.0, cdesc(&mut l.log.scratch.borrow_mut(), &command, proc))) }) };
            l.log.judge(h, seq, &plain, true, end);
        }
        h.issue('C', proc.state.raw, &pl, &el, &desc, None).map(RKey).map_err(|e| perf_err(e, feature))
    }
    fn poll_command<'gc>(&self, mc: &Mutation<'gc>, key: &RKey, proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
        held(mc, &mut self.host.borrow_mut(), proc, None);
        match self.host.borrow_mut().poll(key.0, proc.state.raw) {
            None => Ok(AsyncResult::Pending),
            Some(Out::Ok(_)) => Ok(AsyncResult::Completed(Ok(()))),
            Some(Out::Soft(m)) => Ok(AsyncResult::Completed(Err(m.into()))),
            Some(Out::PollNs) => Err(ErrorCause::NotSupported { feature: Feature::Input }),
            Some(Out::PollCustom(m)) => Err(ErrorCause::Custom { msg: m.into() }),
        }
    }
    fn send_message(&self, msg_type: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, ErrorCause<C, Self>> {
        let mut h = self.host.borrow_mut();
        let vals = values.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ");
        h.hand_over(format!("SEND {msg_type} [{vals}] to {:?} {expect_reply}", targets.iter().map(|x| x.to_string()).collect::<Vec<_>>())).map_err(|m| ErrorCause::Custom { msg: m.into() })?;
        Ok(if expect_reply { let n = h.issue_reply(); Some(ExternReplyKey { request_id: format!("{n}").into() }) } else { None })
    }
    fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        match self.host.borrow_mut().poll_reply(key.request_id.parse().unwrap()) {
            None => AsyncResult::Pending,
            Some(Reply::Val(v)) => AsyncResult::Completed(Some(to_json(&v))),
            Some(Reply::Null) => AsyncResult::Completed(Some(Json::Null)),
            Some(Reply::Timeout) => AsyncResult::Completed(None),
        }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> {
        self.host.borrow_mut().hand_over(format!("REPLY {}/{} {value}", key.src_id, key.request_id)).map_err(|m| ErrorCause::Custom { msg: m.into() })
    }
    fn receive_message(&self) -> Option<IncomingMessage> {
        self.host.borrow_mut().receive().map(|m| IncomingMessage {
            msg_type: m.msg_type.as_str().into(),
            values: m.values.iter().map(|(k, v)| (CompactString::new(k), to_simple(v))).collect(),
            reply_key: m.reply.map(|(a, b)| InternReplyKey { src_id: a.into(), request_id: b.into() }),
        })
    }
}
