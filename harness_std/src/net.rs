//! C32: the real StdSystem against a scripted server on the loopback.
use crate::check::*;
use crate::host::*;
use crate::mock::*;
use crate::rng::*;
use crate::xml::{self, *};
use netsblox_vm::ast;
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::gc::*;
use netsblox_vm::project::*;
use netsblox_vm::real_time::UtcOffset;
use netsblox_vm::runtime::*;
use netsblox_vm::std_system::StdSystem;
use netsblox_vm::std_util::Clock;
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

/// a value as the project writes it (block XML), as it travels (JSON) and as the VM holds it (canonical text)
#[derive(Clone, Debug)]
struct V { xml: String, json: J, canon: String }
fn text(r: &mut Rng) -> String { let p = ["alpha", "β-γ", "a b", "x\"y", "it's", "q&a", "</l>", "{}", "[1]", "null!", "日本", "tab\there", "back\\slash", "100%"]; format!("{}{}", p[r.below(p.len())], r.below(100)) }
fn val(r: &mut Rng, depth: u32) -> V {
    match if depth == 0 { r.below(3) } else { r.below(4) } {
        0 => { let s = text(r); V { xml: lit(&s), json: json!(s), canon: format!("t:{s:?}") } }
        1 => { let n = *r.pick(&[0.0, 5.0, -3.0, 0.5, 1e15, 123456.75, -0.125]); V { xml: blk("reportDifference", &[lit(&n.to_string()), lit("0")]), json: json!(n), canon: format!("n:{n}") } }
        2 => { let b = r.pct(50); V { xml: format!("<l><bool>{b}</bool></l>"), json: json!(b), canon: format!("b:{b}") } }
        _ => { let k: Vec<V> = (0..r.below(4)).map(|_| val(r, depth - 1)).collect(); V { xml: list(&k.iter().map(|v| v.xml.clone()).collect::<Vec<_>>()), json: J::Array(k.iter().map(|v| v.json.clone()).collect()), canon: format!("[{}]", k.iter().map(|v| v.canon.clone()).collect::<Vec<_>>().join(",")) } }
    }
}
/// any JSON, and the value a script should see; None: it has none (null inside)
fn any_json(r: &mut Rng, depth: u32) -> (J, Option<String>) {
    match if depth == 0 { r.below(4) } else { r.below(6) } {
        0 => { let s = text(r); (json!(s), Some(format!("t:{s:?}"))) }
        1 => { let n = *r.pick(&[0.0, 7.0, -2.5, 1e20]); (if n == 7.0 { json!(7) } else { json!(n) }, Some(format!("n:{n}"))) }
        2 => { let b = r.pct(50); (json!(b), Some(format!("b:{b}"))) }
        3 if r.pct(15) => (J::Null, None),
        3 => { let s = r.below(1000).to_string(); (json!(s), Some(format!("t:{s:?}"))) }
        4 => { let k: Vec<_> = (0..r.below(4)).map(|_| any_json(r, depth - 1)).collect(); (J::Array(k.iter().map(|x| x.0.clone()).collect()), k.iter().map(|x| x.1.clone()).collect::<Option<Vec<_>>>().map(|x| format!("[{}]", x.join(",")))) }
        _ => {
            let k: BTreeMap<String, (J, Option<String>)> = (0..r.below(4)).map(|_| (text(r), any_json(r, depth - 1))).collect();
            let c = k.iter().map(|(k, v)| v.1.clone().map(|v| format!("[t:{k:?},{v}]"))).collect::<Option<Vec<_>>>().map(|x| format!("[{}]", x.join(",")));
            (J::Object(k.into_iter().map(|(k, v)| (k, v.0)).collect()), c)
        }
    }
}
fn json_eq(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(a), J::Number(b)) => a.as_f64() == b.as_f64(),
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_eq(a, b)),
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| json_eq(v, w))),
        _ => a == b,
    }
}

#[derive(Clone, Debug)]
enum Want { Value(String), Error(String), SomeError }
#[derive(Clone, Debug)]
enum Op {
    Rpc { path: String, args: BTreeMap<String, J>, want: Want, soft_text: Option<String> },
    Send { msg: String, content: J, dst: J },
    Ask { msg: String, content: J, dst: J },
    Id,
    Other,
}

struct Case { xml: String, ops: HashMap<String, Op>, per_script: Vec<Vec<String>>, kinds: Vec<(String, Vec<String>)>, receivers: Vec<(String, usize, bool)>, /* msg type, receiver number, answers */
    responses: HashMap<String, Resp>, reactions: HashMap<String, Vec<React>>, arrivals: Vec<Arrival>, injected: Vec<(u64, String, Vec<(String, V)>)>, soft: bool, cached: bool, }
#[derive(Clone, Debug)]
struct Arrival { at_ms: u64, text: Option<String>, bin: Option<Vec<u8>>, tag: Option<String>, msg: String, /* canonical value of each field the message carries */ fields: BTreeMap<String, Option<String>>, reply: Option<(String, String)> }

const ROOM: &str = "everyone in room";
fn generate(r: &mut Rng, port: u16) -> Case {
    xml::reset_ids();
    let mut kinds: Vec<(String, Vec<String>)> = vec![];
    for i in 0..1 + r.below(3) {
        let mut f: Vec<String> = vec!["tag".into()];
        for j in 0..*r.pick(&[0usize, 1, 2, 3, 7]) { f.push(["x", "long name", "ÿ", "d", "E", "six", "7"][j].into()); }
        if r.pct(30) { r.shuffle(&mut f); }
        kinds.push((["note", "two words", "square"][i].into(), f));
    }
    let mut ops: HashMap<String, Op> = HashMap::new();
    let mut responses = HashMap::new();
    let mut reactions = HashMap::new();
    let mut per_script = vec![];
    let mut scripts = vec![];
    let lengthy = r.pct(35); // cases in which a question may wait for its time limit
    for s in 0..1 + r.below(5) {
        let mut stmts = vec![blk("receiveGo", &[])];
        let mut tags = vec![];
        let n_ops = 1 + r.below(6);
        for o in 0..n_ops {
            let tag = format!("s{s}o{o}");
            tags.push(tag.clone());
            let before = say(list(&[lit("before"), lit(&tag)]));
            match r.weighted(&[50, 20, 25, 5, 10]) {
                0 => {
                    let service = ["Weather", "Cloud-Vars", "Ω"][r.below(2)];
                    let name = ["get", "doIt", "x_y"][r.below(3)];
                    let host = if r.pct(15) { Some(format!("http://127.0.0.1:{port}/other/place")) } else { None };
                    let mut args: Vec<(String, V)> = vec![("tag".into(), V { xml: lit(&tag), json: json!(tag), canon: String::new() })];
                    for k in 0..*r.pick(&[0usize, 1, 2, 3, 7]) { args.push((["b", "a", "Name", "d", "E", "six", "7"][k].into(), val(r, 2))); }
                    if r.pct(50) { r.shuffle(&mut args); }
                    let (resp, want, soft_text) = response(r);
                    responses.insert(tag.clone(), resp);
                    let call = rpc(&match &host { Some(h) => format!("{h}/{service}"), None => service.into() }, name, &args.iter().map(|a| (a.0.clone(), a.1.xml.clone())).collect::<Vec<_>>());
                    ops.insert(tag.clone(), Op::Rpc { path: format!("{}/{service}/{name}", if host.is_some() { "/other/place" } else { "/services" }), args: args.into_iter().map(|a| (a.0, a.1.json)).collect(), want, soft_text });
                    stmts.push(try_catch(&[before, say(list(&[lit("after"), lit(&tag), call]))], "err", &[say(list(&[lit("error"), lit(&tag), var("err")]))]));
                }
                k @ (1 | 2) => {
                    let (msg, fields) = r.pick(&kinds).clone();
                    let vals: Vec<V> = fields.iter().map(|f| if f == "tag" { V { xml: lit(&tag), json: json!(tag), canon: format!("t:{tag:?}") } } else { val(r, 2) }).collect();
                    let content: J = fields.iter().cloned().zip(vals.iter().map(|v| v.json.clone())).collect::<serde_json::Map<_, _>>().into();
                    let (txml, mut dst) = match r.below(4) {
                        0 | 1 => (opt(ROOM), vec![json!("$ME")]),
                        2 => { let t = text(r); (lit(&t), vec![json!(t)]) }
                        _ => { let t: Vec<String> = (0..r.below(4)).map(|_| if r.pct(40) { ROOM.into() } else { text(r) }).collect(); (list(&t.iter().map(|x| lit(x)).collect::<Vec<_>>()), t.iter().map(|x| if x == ROOM { json!("$ME") } else { json!(x) }).collect()) }
                    };
                    let dst = J::Array(std::mem::take(&mut dst));
                    let mut rx: Vec<React> = vec![];
                    if dst.as_array().unwrap().iter().any(|x| x == "$ME") && r.pct(50) { rx.push(React::Echo { delay_ms: r.below(30) as u64 }); }
                    if k == 2 {
                        for _ in 0..r.below(4) {
                            let late = lengthy && r.pct(25);
                            let delay_ms = if late { 1700 + r.below(300) as u64 } else { r.below(80) as u64 };
                            let (j, _) = any_json(r, 2);
                            rx.push(match r.below(8) {
                                0 => React::Send { delay_ms, text: json!({"type": "message", "msgType": "__reply__", "requestId": "not-this-one", "content": {"body": j}}).to_string(), good: None },
                                1 => React::Send { delay_ms, text: json!({"type": "message", "msgType": "__reply__", "requestId": "$RID", "content": {"bodies": j}}).to_string(), good: None },
                                2 => React::Send { delay_ms, text: json!({"type": "message", "msgType": "__reply__", "content": {"body": j}}).to_string(), good: None },
                                3 => React::Send { delay_ms, text: json!({"type": "notice", "msgType": "__reply__", "requestId": "$RID", "content": {"body": j}}).to_string(), good: None },
                                4 => React::Send { delay_ms, text: json!({"type": "message", "msgType": "__reply__", "requestId": "$RID", "content": [j]}).to_string(), good: None },
                                _ => React::Send { delay_ms, text: json!({"type": "message", "msgType": "__reply__", "requestId": "$RID", "dstId": "$RID", "content": {"body": j, "extra": 1}}).to_string(), good: Some(j) },
                            });
                        }
                        let echo_answered = false;
                        if !lengthy && !rx.iter().any(|x| matches!(x, React::Send { good: Some(_), .. })) && !echo_answered { let (j, _) = any_json(r, 1); rx.push(React::Send { delay_ms: r.below(40) as u64, text: json!({"type": "message", "msgType": "__reply__", "requestId": "$RID", "content": {"body": j}}).to_string(), good: Some(j) }); }
                        r.shuffle(&mut rx);
                    }
                    reactions.insert(tag.clone(), rx);
                    let mut args = vec![lit(&msg)];
                    args.extend(vals.iter().map(|v| v.xml.clone()));
                    args.push(txml);
                    ops.insert(tag.clone(), if k == 1 { Op::Send { msg, content, dst } } else { Op::Ask { msg, content, dst } });
                    let body = if k == 1 { vec![before, blk("doSocketMessage", &args), say(list(&[lit("after"), lit(&tag)]))] } else { vec![before, say(list(&[lit("after"), lit(&tag), blk("doSocketRequest", &args)]))] };
                    stmts.push(try_catch(&body, "err", &[say(list(&[lit("error"), lit(&tag), var("err")]))]));
                }
                3 => { ops.insert(tag.clone(), Op::Id); stmts.push(say(list(&[lit("after"), lit(&tag), rpc("PublicRoles", "getPublicRoleId", &[])]))); }
                _ => { ops.insert(tag.clone(), Op::Other); stmts.push(wait(["0", "0.01", "0.03"][r.below(3)])); stmts.push(say(list(&[lit("after"), lit(&tag)]))); }
            }
        }
        per_script.push(tags);
        scripts.push(top(&stmts));
    }
    let mut receivers = vec![];
    let mut n = 0;
    for (msg, fields) in &kinds {
        for _ in 0..r.below(3) {
            let mut f = fields.clone();
            if r.pct(30) { f.retain(|x| x == "tag" || r.pct(60)); }
            if r.pct(20) { f.push("absent".into()); }
            let mut hat = vec![lit(msg)];
            hat.extend(f.iter().map(|x| lit(x)));
            let answers = r.pct(60);
            let mut items = vec![lit("got"), lit(&n.to_string())];
            for x in &f { items.push(list(&[lit(x), var(x)])); }
            let answer = || blk("doSocketResponse", &[list(&[lit("answer"), lit(&n.to_string()), var("tag")])]);
            let mut b = vec![blk("receiveSocketMessage", &hat), say(list(&items))];
            if answers { if r.pct(30) { b.push(wait("0.02")); } b.push(answer()); if r.pct(30) { b.push(answer()); } if r.pct(30) { b.push(wait("0.01")); b.push(answer()); } }
            receivers.push((msg.clone(), n, answers));
            scripts.push(top(&b));
            n += 1;
        }
    }
    if r.pct(50) { let k = scripts.len(); let i = r.below(k); scripts.swap(0, i); if i != 0 { /* order among starting scripts does not matter */ } }
    let mut arrivals = vec![];
    let burst = r.pct(40); // many messages at the same moment
    for i in 0..if burst { 4 + r.below(12) } else { r.below(7) } {
        let at_ms = if burst && r.pct(80) { 15 } else { r.below(120) as u64 };
        let tag = format!("m{i}");
        if r.pct(25) {
            let (text, bin) = match r.below(9) {
                0 => (Some("not json".to_string()), None),
                1 => (Some(json!([1, 2]).to_string()), None),
                2 => (Some(json!({"type": "message", "content": {"tag": tag}}).to_string()), None),
                3 => (Some(json!({"type": "message", "msgType": kinds[0].0, "content": tag}).to_string()), None),
                4 => (Some(json!({"type": "message", "msgType": kinds[0].0, "requestId": 5, "srcId": "who", "content": {"tag": tag}}).to_string()), None),
                5 => (Some(json!({"type": "message", "msgType": kinds[0].0, "requestId": "r", "content": {"tag": tag}}).to_string()), None),
                6 => (Some(json!({"type": "message", "msgType": 7, "content": {"tag": tag}}).to_string()), None),
                7 => (Some(json!({"type": 3}).to_string()), None),
                _ => (None, Some(vec![1, 2, 3])),
            };
            arrivals.push(Arrival { at_ms, text, bin, tag: None, msg: String::new(), fields: BTreeMap::new(), reply: None });
            continue;
        }
        let (msg, fields) = r.pick(&kinds).clone();
        let mut content = serde_json::Map::new();
        let mut f = BTreeMap::new();
        content.insert("tag".into(), json!(tag));
        f.insert("tag".to_string(), Some(format!("t:{tag:?}")));
        for x in fields.iter().filter(|x| *x != "tag") { if r.pct(80) { let (j, c) = any_json(r, 2); content.insert(x.clone(), j); f.insert(x.clone(), c); } }
        if r.pct(30) { content.insert("unknown field".into(), json!(1)); }
        let mut m = json!({"type": "message", "msgType": msg, "content": content, "dstId": "whoever"});
        let reply = if r.pct(60) { let (s, q) = (text(r), format!("req-{i}-{}", r.below(1000))); m["srcId"] = json!(s); m["requestId"] = json!(q); Some((s, q)) } else { if r.pct(50) { m["srcId"] = json!("someone"); } None };
        arrivals.push(Arrival { at_ms, text: Some(m.to_string()), bin: None, tag: Some(tag), msg, fields: f, reply });
    }
    let injected = (0..if r.pct(40) { 1 + r.below(3) } else { 0 }).map(|i| { let (msg, fields) = r.pick(&kinds).clone(); let tag = format!("j{i}"); (r.below(60) as u64, msg, fields.into_iter().filter(|f| *f == "tag" || r.pct(80)).collect::<Vec<_>>().into_iter().map(|f| (f.clone(), if f == "tag" { V { xml: String::new(), json: json!(tag), canon: format!("t:{tag:?}") } } else { val(r, 2) })).collect()) }).collect();
    r.shuffle(&mut scripts);
    let half = r.below(scripts.len() + 1);
    let s2 = scripts.split_off(half);
    let role = Role { name: "myRole".into(), globals: vec![], msg_types: kinds.clone(), stage_scripts: scripts, sprites: vec![Sprite { name: "Sprite".into(), scripts: s2 }] };
    Case { xml: room("proj", &[role]), ops, per_script, kinds, receivers, responses, reactions, arrivals, injected, soft: r.pct(25), cached: r.pct(50) }
}

/// a response of the server, and what the script should make of it
fn response(r: &mut Rng) -> (Resp, Want, Option<String>) {
    let mut p = Resp { delay_ms: *r.pick(&[0, 0, 1, 5, 20, 60]), status: 200, ctype: Some("application/json; charset=utf-8".into()), body: vec![], mode: Mode::Whole, chunked: r.pct(25), close: r.pct(15) };
    let (mut want, mut soft) = (Want::SomeError, None);
    match r.below(12) {
        0..=3 => { let (j, c) = any_json(r, 3); p.body = j.to_string().into_bytes(); want = c.map(Want::Value).unwrap_or(Want::SomeError); }
        4 => { let s = format!("plain {}", text(r)); p.body = s.clone().into_bytes(); p.ctype = if r.pct(50) { Some("text/plain".into()) } else { None }; want = Want::Value(format!("t:{s:?}")); }
        5 => { p.body = (0..r.below(40)).map(|_| r.below(256) as u8).collect(); p.ctype = Some(["image/png", "IMAGE/JPEG"][r.below(2)].into()); want = Want::Value(format!("image(\"untitled\" None {:?})", p.body)); }
        6 => { p.body = (0..r.below(40)).map(|_| r.below(256) as u8).collect(); p.ctype = Some(["audio/mpeg", "Audio/wav"][r.below(2)].into()); want = Want::Value(format!("audio(\"untitled\" {:?})", p.body)); }
        7 | 8 => { let s = text(r); p.status = *r.pick(&[400, 404, 500, 503]); p.body = s.clone().into_bytes(); if r.pct(20) { p.ctype = Some("image/png".into()); } want = Want::Error(s.clone()); soft = Some(s); }
        9 => { p.status = *r.pick(&[200, 500]); p.body = vec![0xff, 0xfe, b'a']; p.ctype = Some("text/plain".into()); }
        10 => { p.mode = Mode::CloseBeforeResponse; }
        _ => { p.mode = Mode::Truncate; p.body = b"\"partial".to_vec(); }
    }
    (p, want, soft)
}

pub struct Line { pub at: Instant, pub iter_start: Instant, pub prev_start: Instant, pub value: SimpleValue }
fn items(v: &SimpleValue) -> Option<&[SimpleValue]> { match v { SimpleValue::List(l) => Some(l), _ => None } }
fn txt(v: &SimpleValue) -> Option<&str> { match v { SimpleValue::Text(t) => Some(t.as_str()), _ => None } }

/// The connection to the server is lost while scripts run: they must go on without the program failing.
fn lost(cov: &mut Cov, r: &mut Rng) -> Res {
    let mock = Mock::start();
    xml::reset_ids();
    let n = 3 + r.below(6);
    let mut stmts = vec![blk("receiveGo", &[])];
    for i in 0..n {
        let send = if r.pct(70) { blk("doSocketMessage", &[lit("note"), lit(&format!("t{i}")), opt(ROOM)]) } else { say(blk("doSocketRequest", &[lit("note"), lit(&format!("t{i}")), opt(ROOM)])) };
        stmts.push(try_catch(&[send, say(list(&[lit("after"), lit(&i.to_string())]))], "err", &[say(list(&[lit("error"), lit(&i.to_string()), var("err")]))]));
        if i % 2 == 0 { stmts.push(wait("0.02")); }
    }
    let role = Role { name: "myRole".into(), msg_types: vec![("note".into(), vec!["tag".into()])], sprites: vec![Sprite { name: "Sprite".into(), scripts: vec![top(&stmts)] }], ..Default::default() };
    let parsed = ast::Parser::default().parse(&room("proj", &[role])).unwrap();
    let role: &'static ast::Role = Box::leak(Box::new(parsed.roles.into_iter().next().unwrap()));
    let lines: Rc<RefCell<Vec<String>>> = Default::default();
    let l2 = lines.clone();
    let config: Config<C, Sys> = Config { request: None, command: Some(Rc::new(move |_, key, command, _| match command {
        Command::Print { value, .. } => { if let Some(v) = value { l2.borrow_mut().push(v.to_simple().map(|v| canon(&v)).unwrap_or_default()); } key.complete(Ok(())); CommandStatus::Handled }
        _ => CommandStatus::UseDefault { key, command },
    })) };
    let clock = Arc::new(Clock::new(UtcOffset::UTC, None));
    let system = Rc::new(StdSystem::new_sync(mock.base().into(), Some("net test"), config, clock));
    let (bytecode, init, _, _) = ByteCode::compile(role).unwrap();
    let mut env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, Rc::new(bytecode), Settings::default(), system.clone()))) });
    env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, Input::Start));
    let t0 = Instant::now();
    let cut = Duration::from_millis(r.below(60) as u64);
    let mut errors = vec![];
    loop {
        if t0.elapsed() > cut { mock.state.lock().unwrap().close_socket = true; }
        env.mutate(|mc, env| { let mut p = env.proj.borrow_mut(mc); for _ in 0..64 { if let ProjectStep::Error { error, .. } = p.step(mc) { errors.push(format!("{:?}", error.cause)); } } });
        if !errors.is_empty() { return Res::Violation(format!("a script failed outside its try block: {errors:?}")); }
        let done = lines.borrow().iter().filter(|l| l.contains("after") || l.contains("error")).count();
        if done >= n { break }
        if t0.elapsed() > Duration::from_secs(2 * n as u64 + 20) { return Res::Violation(format!("after the connection was lost the script stopped going on: {done} of {n}: {:?}", lines.borrow())); }
        std::thread::sleep(Duration::from_millis(1));
    }
    cov.add("scripts that outlived the connection", 1);
    cov.add("operations tried without a connection that raised an error", lines.borrow().iter().filter(|l| l.contains("error")).count() as u64);
    Res::Ok
}
pub fn c32(cov: &mut Cov, seed: u64, idx: u64, _thorough: bool) -> Res {
    let mut r = Rng::new(seed);
    if idx % 20 == 19 { return lost(cov, &mut r); }
    let mock = Mock::start();
    let case = generate(&mut r, mock.port);
    run(cov, &mut r, &mock, case)
}
fn run(cov: &mut Cov, r: &mut Rng, mock: &Mock, case: Case) -> Res {
    let parsed = match ast::Parser::default().parse(&case.xml) { Ok(x) => x, Err(e) => return Res::Violation(format!("harness: the project does not parse: {e:?}")) };
    let role: &'static ast::Role = Box::leak(Box::new(parsed.roles.into_iter().next().unwrap()));
    { let mut st = mock.state.lock().unwrap(); st.responses = case.responses.clone(); st.reactions = case.reactions.clone(); }
    let lines: Rc<RefCell<Vec<Line>>> = Default::default();
    let starts = Rc::new(RefCell::new((Instant::now(), Instant::now())));
    let (l2, s2) = (lines.clone(), starts.clone());
    let odd: Rc<RefCell<Vec<String>>> = Default::default();
    let o2 = odd.clone();
    let config: Config<C, Sys> = Config {
        request: None,
        command: Some(Rc::new(move |_, key, command, _| match command {
            Command::Print { value, .. } => {
                if let Some(v) = value { match v.to_simple() { Ok(value) => { let s = s2.borrow(); l2.borrow_mut().push(Line { at: Instant::now(), iter_start: s.0, prev_start: s.1, value }); } Err(e) => o2.borrow_mut().push(format!("{e:?}")) } }
                key.complete(Ok(()));
                CommandStatus::Handled
            }
            _ => CommandStatus::UseDefault { key, command },
        })),
    };
    let clock = Arc::new(Clock::new(UtcOffset::UTC, case.cached.then_some(Precision::Medium)));
    let wall0 = (std::time::SystemTime::now(), Instant::now());
    let system = Rc::new(StdSystem::new_sync(mock.base().into(), Some("net test"), config, clock.clone()));
    let me = system.get_public_id().to_string();
    {
        let st = mock.state.lock().unwrap();
        if st.public_id.as_deref() != Some(me.as_str()) { return Res::Violation(format!("the public id is {me:?} but the server was told {:?}", st.public_id)); }
        if st.sockets != 1 { return Res::Violation(format!("{} sockets were opened", st.sockets)); }
    }
    let (bytecode, init, _, _) = ByteCode::compile(role).unwrap();
    let settings = Settings { rpc_error_scheme: if case.soft { ErrorScheme::Soft } else { ErrorScheme::Hard }, ..Default::default() };
    let mut env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, Rc::new(bytecode), settings, system.clone()))) });
    let t0 = Instant::now();
    {
        let mut st = mock.state.lock().unwrap();
        for a in &case.arrivals { st.queue.push((t0 + Duration::from_millis(a.at_ms), a.bin.clone(), a.text.clone().unwrap_or_default(), None, a.tag.clone())); }
    }
    env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, Input::Start));
    let n_ops: usize = case.per_script.iter().map(|s| s.len()).sum();
    let n_msgs = case.ops.values().filter(|o| matches!(o, Op::Send { .. } | Op::Ask { .. })).count();
    let mut injected = case.injected.clone();
    let mut errors: Vec<String> = vec![];
    let mut quiet = 0;
    let mut last_progress = (Instant::now(), (0usize, 0usize, 0usize, 0usize));
    let mut iters = 0u64;
    loop {
        let now = Instant::now();
        { let mut s = starts.borrow_mut(); *s = (now, s.0); }
        clock.update();
        iters += 1;
        injected.retain(|(at, msg, vals)| {
            if t0.elapsed() < Duration::from_millis(*at) { return true }
            system.inject_message(msg.as_str().into(), vals.iter().map(|(k, v)| (k.as_str().into(), SimpleValue::from_netsblox_json(v.json.clone()).unwrap())).collect());
            false
        });
        let mut idle = true;
        env.mutate(|mc, env| {
            let mut p = env.proj.borrow_mut(mc);
            for _ in 0..64 {
                match p.step(mc) {
                    ProjectStep::Idle => (),
                    ProjectStep::Error { error, .. } => { idle = false; errors.push(format!("{:?}", error.cause)); }
                    _ => idle = false,
                }
            }
        });
        if !errors.is_empty() { return Res::Violation(format!("a script failed: {errors:?}")); }
        if iters % 50 == 0 { env.collect_all(); }
        let ended = lines.borrow().iter().filter(|l| items(&l.value).and_then(|i| i.first()).and_then(txt).is_some_and(|t| t == "after" || t == "error")).count();
        let (server_done, marks) = {
            let st = mock.state.lock().unwrap();
            (st.queue.is_empty() && st.pongs.len() >= st.pings && (st.ws_in.iter().filter(|m| m["msgType"] != "__reply__").count() >= n_msgs || last_progress.0.elapsed() > Duration::from_secs(8)), (ended, st.ws_in.len(), st.pongs.len(), st.http.len()))
        };
        if marks != last_progress.1 { last_progress = (Instant::now(), marks); quiet = 0; }
        if idle && ended >= n_ops && server_done && injected.is_empty() { quiet += 1; if quiet > 12 && last_progress.0.elapsed() > Duration::from_millis(20) { break } } else { quiet = 0; }
        if last_progress.0.elapsed() > Duration::from_secs(20) {
            let st = mock.state.lock().unwrap();
            return Res::Violation(format!("nothing moves for 20 s: {ended} of {n_ops} operations ended, {} of {} pings answered, {} frames still queued, lines {:?}", st.pongs.len(), st.pings, st.queue.len(), lines.borrow().iter().map(|l| canon(&l.value)).collect::<Vec<_>>()));
        }
        std::thread::sleep(Duration::from_micros(if idle { 1500 } else { 300 }));
    }
    if ((wall0.0.elapsed().map(|d| d.as_secs_f64()).unwrap_or(-1.0)) - wall0.1.elapsed().as_secs_f64()).abs() > 0.05 { return Res::Inconclusive("the system's clock was adjusted during the case".into()); }
    // whatever was sent last must still reach the server
    let wait_until = Instant::now() + Duration::from_secs(10);
    let lines = lines.borrow();
    let verdict = loop {
        let st = mock.state.lock().unwrap();
        match judge(cov, &case, &lines, &st, &me, false) {
            Ok(()) => break judge(cov, &case, &lines, &st, &me, true),
            Err(e) if Instant::now() > wait_until || !e.contains("missing") => break Err(e),
            Err(_) => (),
        }
        drop(st);
        std::thread::sleep(Duration::from_millis(5));
    };
    if !odd.borrow().is_empty() { return Res::Violation(format!("{:?}", odd.borrow())); }
    let _ = r;
    match verdict { Ok(()) => Res::Ok, Err(e) => Res::Violation(e) }
}

fn judge(cov: &mut Cov, case: &Case, lines: &[Line], st: &State, me: &str, count: bool) -> Result<(), String> {
    let mut cnt = |k: &str, n: u64| if count { cov.add(k, n) };
    let show = || lines.iter().map(|l| canon(&l.value)).collect::<Vec<_>>().join("\n");
    if !st.errors.is_empty() { return Err(format!("server: {:?}", st.errors)); }
    if !st.ws_odd.is_empty() { return Err(format!("frames the server does not know: {:?}", st.ws_odd)); }
    if st.uuid_frames != 1 { return Err(format!("{} set-uuid frames", st.uuid_frames)); }
    if st.pongs.len() != st.pings { return Err(format!("{} pings, {} pongs (missing or extra)", st.pings, st.pongs.len())); }
    cnt("pings answered", st.pings as u64);
    let fix_dst = |j: &J| J::Array(j.as_array().unwrap().iter().map(|x| if x == "$ME" { json!(me) } else { x.clone() }).collect());
    // requests made to the services
    let calls: Vec<&HttpReq> = st.http.iter().filter(|h| h.method == "POST" && h.path != "/projects/" && !h.path.ends_with("/state")).collect();
    if st.http.iter().filter(|h| h.path == "/configuration").count() != 1 || st.http.iter().filter(|h| h.path == "/projects/").count() != 1 { return Err("the client did not set itself up exactly once".into()); }
    let rpcs = case.ops.values().filter(|o| matches!(o, Op::Rpc { .. })).count();
    if calls.len() != rpcs { return Err(format!("{rpcs} service calls were made by scripts, {} requests arrived (missing or repeated): {:?}", calls.len(), calls.iter().map(|c| (c.path.clone(), String::from_utf8_lossy(&c.body).into_owned())).collect::<Vec<_>>())); }
    // what each script saw, in its own order
    let tag_of = |l: &Line| items(&l.value).and_then(|i| i.get(1)).and_then(txt).map(|x| x.to_string());
    let kind_of = |l: &Line| items(&l.value).and_then(|i| i.first()).and_then(txt).map(|x| x.to_string());
    for (s, tags) in case.per_script.iter().enumerate() {
        let seen: Vec<(String, String)> = lines.iter().filter(|l| kind_of(l).is_some_and(|k| k != "got") && tag_of(l).is_some_and(|t| t.starts_with(&format!("s{s}o")))).map(|l| (kind_of(l).unwrap(), tag_of(l).unwrap())).collect();
        let want: Vec<String> = tags.clone();
        let ends: Vec<String> = seen.iter().filter(|x| x.0 != "before").map(|x| x.1.clone()).collect();
        if ends != want { return Err(format!("script {s} finished operations {ends:?}, expected {want:?}; lines:\n{}", show())); }
    }
    let mut asked: Vec<(&String, &J)> = vec![]; // tag, request id
    let mut outgoing: Vec<&J> = st.ws_in.iter().collect();
    let mut positions: HashMap<&str, usize> = HashMap::new();
    for (tag, op) in &case.ops {
        let end = lines.iter().find(|l| tag_of(l).as_deref() == Some(tag) && matches!(kind_of(l).as_deref(), Some("after" | "error"))).unwrap();
        let before = lines.iter().find(|l| tag_of(l).as_deref() == Some(tag) && kind_of(l).as_deref() == Some("before"));
        let failed = kind_of(end).as_deref() == Some("error");
        let it = items(&end.value).unwrap();
        let got = it.get(2).map(canon).unwrap_or_default();
        match op {
            Op::Other => (),
            Op::Id => { if failed || got != format!("t:{me:?}") { return Err(format!("getPublicRoleId gave {got}, not {me:?}")); } cnt("public ids", 1); }
            Op::Rpc { path, args, want, soft_text } => {
                let mine: Vec<_> = calls.iter().filter(|c| serde_json::from_slice::<J>(&c.body).ok().is_some_and(|b| b["tag"] == tag.as_str())).collect();
                if mine.len() != 1 { return Err(format!("{} requests for call {tag}", mine.len())); }
                let c = mine[0];
                let cid = st.client_id.clone().unwrap_or_default();
                let q: BTreeMap<&str, &str> = c.query.split('&').filter_map(|x| x.split_once('=')).collect();
                if c.path != *path || q.get("clientId") != Some(&cid.as_str()) || q.get("t").and_then(|t| t.parse::<u64>().ok()).is_none() || c.method != "POST" { return Err(format!("call {tag} went to {} {}?{}, expected {path}", c.method, c.path, c.query)); }
                let b: J = serde_json::from_slice(&c.body).unwrap();
                let w: J = args.clone().into_iter().collect::<serde_json::Map<_, _>>().into();
                if !json_eq(&b, &w) { return Err(format!("call {tag} carried {b}, expected {w}")); }
                let ok = match want {
                    Want::Value(v) => !failed && got == *v,
                    Want::Error(e) => if case.soft { !failed && got == format!("t:{:?}", soft_text.as_ref().unwrap_or(e)) } else { failed && it.get(2).and_then(txt).is_some_and(|t| t.contains(&format!("{e:?}"))) },
                    Want::SomeError => failed != case.soft && got.starts_with("t:\"") && got.len() > 4 && !got.contains("partial"),
                };
                if !ok { return Err(format!("call {tag} ended with {} {got}; the server answered {:?}, so expected {want:?} (soft errors: {})", kind_of(end).unwrap(), case.responses.get(tag).unwrap(), case.soft)); }
                cnt(match want { Want::Value(_) => "service calls with a value", _ => "service calls that failed" }, 1);
            }
            Op::Send { msg, content, dst } | Op::Ask { msg, content, dst } => {
                let ask = matches!(op, Op::Ask { .. });
                let i = outgoing.iter().position(|m| m["content"]["tag"] == tag.as_str() && m["msgType"] != "__reply__");
                let Some(i) = i else { return Err(format!("missing: message {tag} never reached the server")) };
                let m = outgoing.remove(i);
                positions.insert(tag, st.ws_in.iter().position(|x| std::ptr::eq(x, m)).unwrap());
                let dst = fix_dst(dst);
                let keys: Vec<&String> = m.as_object().unwrap().keys().collect();
                if m["msgType"] != msg.as_str() || !json_eq(&m["content"], content) || m["dstId"] != dst || m["srcId"] != me || m.get("requestId").is_some_and(|x| x.is_string()) != ask || keys.len() != 5 + ask as usize { return Err(format!("message {tag} was sent as {m}, expected type {msg:?}, content {content}, targets {dst}, reply wanted: {ask}")); }
                if failed && !ask { return Err(format!("sending {tag} failed: {got}")); }
                if !ask { cnt("messages sent", 1); continue }
                let rid = &m["requestId"];
                if asked.iter().any(|a| a.1 == rid) { return Err(format!("two questions carry the request id {rid}")); }
                asked.push((tag, rid));
                // good answers in the order they were put on the wire, those passed on from this very project among them
                let answers: Vec<(&Sent, J)> = st.sent.iter().filter_map(|s| match &s.for_tag {
                    Some(t) if t == tag => s.good.clone().map(|g| (s, g)),
                    Some(t) if t == "reply" => serde_json::from_str::<J>(&s.text).ok().filter(|v| v["requestId"] == *rid).map(|v| (s, v["content"]["body"].clone())),
                    _ => None,
                }).collect();
                let expect = |j: &J| SimpleValue::from_netsblox_json(j.clone()).map(|v| canon(&v)).map_err(|_| ());
                let before = before.unwrap();
                if failed {
                    if !answers.first().is_some_and(|a| expect(&a.1).is_err()) { return Err(format!("question {tag} failed: {got}")); }
                    cnt("questions answered with something that is no value", 1);
                } else if got == "t:\"\"" && answers.first().is_none_or(|a| expect(&a.1) != Ok(got.clone())) {
                    let waited = end.at.duration_since(before.iter_start);
                    // a reply whose following ping had been answered two turns before the script went on was known
                    if let Some(a) = answers.first() { if let Some(p) = st.pongs.get(a.0.ping) { if *p < end.prev_start && expect(&a.1).is_ok() { return Err(format!("question {tag} got the empty value {waited:?} after it was asked although the answer {} had been received {:?} before", a.1, end.at.duration_since(*p))); } } }
                    if waited < Duration::from_millis(1499) && !answers.first().is_some_and(|a| expect(&a.1).is_err()) { return Err(format!("question {tag} was given up after {waited:?}")); }
                    cnt("questions that timed out", 1);
                } else {
                    match answers.first() {
                        None => return Err(format!("question {tag} got {got} though nobody answered")),
                        Some(a) => if expect(&a.1) != Ok(got.clone()) { return Err(format!("question {tag} got {got}; the first answer was {}; all: {:?}", a.1, answers.iter().map(|a| a.1.to_string()).collect::<Vec<_>>())); },
                    }
                    cnt("questions answered", 1);
                    if answers.len() > 1 { cnt("questions with several answers", 1); }
                }
            }
        }
    }
    for tags in &case.per_script {
        let ps: Vec<usize> = tags.iter().filter_map(|t| positions.get(t.as_str()).copied()).collect();
        if !ps.windows(2).all(|w| w[0] < w[1]) { return Err(format!("the messages of one script arrived in the order {ps:?}")); }
    }
    // messages that arrived: each receiver of the type, once
    let mut expected: Vec<(String, usize)> = vec![]; // tag, receiver
    let mut asked_by: HashMap<String, (String, String)> = HashMap::new();
    let mut fields: HashMap<String, BTreeMap<String, Option<String>>> = HashMap::new();
    let mut arrive = |tag: &str, msg: &str, f: BTreeMap<String, Option<String>>, expected: &mut Vec<(String, usize)>| { for (m, n, _) in &case.receivers { if m == msg { expected.push((tag.to_string(), *n)); } } fields.insert(tag.to_string(), f); };
    for a in &case.arrivals { if let Some(t) = &a.tag { arrive(t, &a.msg, a.fields.clone(), &mut expected); if let Some(r) = &a.reply { asked_by.insert(t.clone(), r.clone()); } } }
    for (_, msg, vals) in &case.injected { let t = vals.iter().find(|v| v.0 == "tag").unwrap().1.json.as_str().unwrap().to_string(); arrive(&t, msg, vals.iter().map(|(k, v)| (k.clone(), Some(v.canon.clone()))).collect(), &mut expected); }
    for s in &st.sent {
        let Ok(v) = serde_json::from_str::<J>(&s.text) else { continue };
        let Some(t) = v["content"]["tag"].as_str() else { continue };
        let Some(Op::Send { msg, content, .. } | Op::Ask { msg, content, .. }) = case.ops.get(t) else { continue };
        if s.for_tag.is_some() { continue }
        arrive(t, msg, content.as_object().unwrap().iter().map(|(k, v)| (k.clone(), SimpleValue::from_netsblox_json(v.clone()).ok().map(|v| canon(&v)))).collect(), &mut expected);
        if let Some(q) = v["requestId"].as_str() { asked_by.insert(t.to_string(), (me.to_string(), q.to_string())); }
    }
    let mut got: Vec<(String, usize)> = vec![];
    for l in lines.iter().filter(|l| kind_of(l).as_deref() == Some("got")) {
        let it = items(&l.value).unwrap();
        let n: usize = txt(&it[1]).unwrap().parse().unwrap();
        let fs: BTreeMap<String, String> = it[2..].iter().map(|p| { let p = items(p).unwrap(); (txt(&p[0]).unwrap().to_string(), canon(&p[1])) }).collect();
        let Some(tag) = fs.get("tag").and_then(|t| t.strip_prefix("t:\"")).and_then(|t| t.strip_suffix('"')) else { return Err(format!("receiver {n} started with {fs:?}")) };
        let Some(sent) = fields.get(tag) else { return Err(format!("receiver {n} started for {tag:?}, which was never delivered ({fs:?})")) };
        for (k, v) in &fs { let want = sent.get(k).cloned().flatten().unwrap_or("n:0".into()); if *v != want { return Err(format!("receiver {n}, message {tag}: field {k:?} is {v}, the message carried {want}")); } }
        got.push((tag.to_string(), n));
    }
    // every receiver starts for the messages in the order the server sent them
    let mut wire: HashMap<String, usize> = HashMap::new();
    for (i, x) in st.sent.iter().enumerate() { if let Some(t) = serde_json::from_str::<J>(&x.text).ok().and_then(|v| v["content"]["tag"].as_str().map(|t| t.to_string())) { wire.entry(t).or_insert(i); } }
    for n in 0..case.receivers.len() {
        let mine: Vec<(&str, usize)> = got.iter().filter(|g| g.1 == n).filter_map(|g| wire.get(&g.0).map(|i| (g.0.as_str(), *i))).collect();
        if let Some(w) = mine.windows(2).find(|w| w[0].1 > w[1].1) { return Err(format!("receiver {n} started for {:?} before {:?}, which the server had sent earlier", w[0].0, w[1].0)); }
        if mine.len() > 1 { cnt("receivers whose order of messages was checked", 1); }
    }
    got.sort();
    expected.sort();
    if got != expected { return Err(format!("receivers started (message, receiver) {got:?}, expected {expected:?}")); }
    cnt("message deliveries", got.len() as u64);
    // answers given by receivers
    let mut want_answers: Vec<(String, String, String, String)> = vec![]; // dst, rid, receiver, tag
    for (t, n) in &got { if case.receivers[*n].2 { if let Some((src, rid)) = asked_by.get(t) { want_answers.push((src.clone(), rid.clone(), n.to_string(), t.clone())); } } }
    let mut answers: Vec<(String, String, String, String)> = vec![];
    for m in outgoing {
        let s = |x: &J| x.as_str().unwrap_or("?").to_string();
        let b = &m["content"]["body"];
        if m["msgType"] != "__reply__" || b[0] != "answer" || b.as_array().map(|x| x.len()) != Some(3) || m["content"].as_object().map(|x| x.len()) != Some(1) { return Err(format!("the server was sent {m}, which no script asked for")); }
        answers.push((s(&m["dstId"]), s(&m["requestId"]), s(&b[1]), s(&b[2])));
    }
    answers.sort();
    want_answers.sort();
    if answers != want_answers {
        if answers.len() < want_answers.len() && answers.iter().all(|a| want_answers.contains(a)) { return Err(format!("missing: answers sent {answers:?}, expected {want_answers:?}")); }
        return Err(format!("answers sent (to, request, receiver, message) {answers:?}, expected {want_answers:?}"));
    }
    cnt("answers sent", answers.len() as u64);
    cnt("messages ignored as malformed", case.arrivals.iter().filter(|a| a.tag.is_none()).count() as u64);
    if count {
        cnt("kinds of messages", case.kinds.len() as u64);
        // the interleaving seen: what happened in which order
        let order: String = lines.iter().map(|l| { let i = items(&l.value).unwrap(); format!("{}{} ", &txt(&i[0]).unwrap()[..1], i.get(1).and_then(txt).unwrap_or("")) }).collect();
        if lines.len() > 2 { cov.distinct(hash_str(&order)); }
        cov.sample(|| format!("{order}; on the wire: {}", st.ws_in.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    }
    Ok(())
}
