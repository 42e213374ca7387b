//! C30: the real command-line program (nb start / run / dump) as a process, driven over HTTP, its files and its output.
use crate::check::*;
use crate::mock::*;
use crate::rng::*;
use crate::xml::{self, *};
use netsblox_vm::ast;
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::template::EMPTY_PROJECT;
use serde_json::Value as J;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn nb_path() -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join("nb") }
fn tail(s: &str) -> String { let n = s.len(); let mut i = n.saturating_sub(900); while !s.is_char_boundary(i) { i += 1; } s[i..].to_string() }

/// a running nb process and everything it wrote so far
pub struct Nb { pub child: Child, pub out: Arc<Mutex<Vec<u8>>>, pub err: Arc<Mutex<Vec<u8>>>, /* streams read to their end */ read: Arc<std::sync::atomic::AtomicU32> }
impl Nb {
    pub fn spawn(args: &[String]) -> Nb { Nb::spawn_in(args, &std::env::temp_dir()) }
    pub fn spawn_in(args: &[String], dir: &std::path::Path) -> Nb {
        let mut c = Command::new(nb_path());
        c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
        let mut child = crate::check::bound_to_parent(&mut c).spawn().expect("nb does not start");
        let (out, err): (Arc<Mutex<Vec<u8>>>, Arc<Mutex<Vec<u8>>>) = Default::default();
        let read: Arc<std::sync::atomic::AtomicU32> = Default::default();
        fn pump(mut r: impl Read + Send + 'static, to: Arc<Mutex<Vec<u8>>>, end: Arc<std::sync::atomic::AtomicU32>) { std::thread::spawn(move || { let mut b = [0u8; 8192]; while let Ok(n) = r.read(&mut b) { if n == 0 { break } to.lock().unwrap().extend(&b[..n]); } end.fetch_add(1, SeqCst); }); }
        pump(child.stdout.take().unwrap(), out.clone(), read.clone());
        pump(child.stderr.take().unwrap(), err.clone(), read.clone());
        Nb { child, out, err, read }
    }
    pub fn out(&self) -> String { String::from_utf8_lossy(&self.out.lock().unwrap()).into_owned() }
    pub fn err(&self) -> String { String::from_utf8_lossy(&self.err.lock().unwrap()).into_owned() }
    /// None: still running
    pub fn ended(&mut self) -> Option<i32> {
        let c = self.child.try_wait().ok().flatten().map(|s| s.code().unwrap_or(-1))?;
        // what it wrote has been read then, too
        let t = Instant::now();
        while self.read.load(SeqCst) < 2 && t.elapsed() < Duration::from_secs(10) { std::thread::sleep(Duration::from_millis(1)); }
        Some(c)
    }
    pub fn wait_end(&mut self, d: Duration) -> Option<i32> { let t = Instant::now(); loop { if let Some(c) = self.ended() { std::thread::sleep(Duration::from_millis(10)); return Some(c) } if t.elapsed() > d { return None } std::thread::sleep(Duration::from_millis(2)); } }
}
impl Drop for Nb { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub struct Scratch(pub PathBuf);
impl Scratch { pub fn new() -> Scratch { use std::sync::atomic::AtomicU64; static N: AtomicU64 = AtomicU64::new(0); let p = std::env::temp_dir().join(format!("vmon-{}-{}", std::process::id(), N.fetch_add(1, SeqCst))); std::fs::create_dir_all(&p).unwrap(); Scratch(p) } }
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Debug)]
struct Reply { status: u16, head: String, body: Vec<u8> }
fn http(port: u16, method: &str, path: &str, body: &[u8]) -> Result<Reply, String> {
    let e = |x: std::io::Error| format!("{method} {path}: {x}");
    let mut c = TcpStream::connect(("127.0.0.1", port)).map_err(e)?;
    c.set_read_timeout(Some(Duration::from_secs(25))).unwrap();
    let _ = c.set_nodelay(true);
    let mut m = format!("{method} {path} HTTP/1.1\r\nHost: 127.0.0.1:{port}\r\nOrigin: https://editor.netsblox.org\r\nConnection: close\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
    m.extend(body);
    c.write_all(&m).map_err(e)?;
    let mut r = vec![];
    c.read_to_end(&mut r).map_err(e)?;
    let i = r.windows(4).position(|w| w == b"\r\n\r\n").ok_or(format!("{method} {path}: no response"))?;
    let head = String::from_utf8_lossy(&r[..i]).to_lowercase();
    let status = head.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut body = r[i + 4..].to_vec();
    if head.contains("transfer-encoding: chunked") {
        let (mut o, mut p) = (vec![], 0);
        while let Some(k) = body[p..].windows(2).position(|w| w == b"\r\n") { let n = usize::from_str_radix(&String::from_utf8_lossy(&body[p..p + k]), 16).unwrap_or(0); if n == 0 { break } o.extend(&body[p + k + 2..p + k + 2 + n]); p += k + 2 + n + 2; }
        body = o;
    }
    Ok(Reply { status, head, body })
}

// ---------------------------------------------------------------- projects

pub fn id_of(x: &str) -> String { x.split("collabId=\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string() }
#[derive(Clone, Debug)]
pub struct Ev { /* the line it prints; errors: the entity */ pub line: String, pub error: Option<String>, /* block id */ pub at: String }
#[derive(Clone, Debug)]
pub struct Script { pub key: String, pub events: Vec<Ev>, /* number of events before each doPauseAll */ pub pauses: Vec<usize> }
#[derive(Clone, Debug)]
pub struct Proj { pub name: String, pub xml: String, pub tag: String, pub scripts: Vec<Script>, pub globals: Vec<(String, String)> }
impl Proj { pub fn pausing(&self) -> bool { self.scripts.iter().any(|s| !s.pauses.is_empty()) } }

fn word(r: &mut Rng) -> String { let p = ["alpha", "β-γ", "two  words", "x\"y", "it's", "<&>", "日本", "a\\b", "{0}", ">>> loaded project 'x'", "tab\there"]; p[r.below(p.len())].to_string() }
pub fn gen_role(r: &mut Rng, tag: &str, name: &str, pausing: bool, long: bool) -> (Role, Vec<Script>, Vec<(String, String)>) {
    let ents: Vec<String> = (0..r.below(3)).map(|i| format!("{}{i}", ["Cat", "Über \"C\"", "sprite"][r.below(3)])).collect();
    let mut stage_scripts = vec![];
    let mut sprites: Vec<Sprite> = ents.iter().map(|e| Sprite { name: e.clone(), scripts: vec![] }).collect();
    let mut scripts = vec![];
    let n = 1 + r.below(4);
    let mut sends = r.pct(40);
    let mut receiver = false;
    for s in 0..n {
        let ent = r.below(ents.len() + 1);
        let ename = if ent == 0 { "Stage".to_string() } else { ents[ent - 1].clone() };
        let mut stmts = vec![blk("receiveGo", &[])];
        let mut sc = Script { key: format!("s{s}"), events: vec![], pauses: vec![] };
        let mut k = 0;
        let mut say1 = |sc: &mut Script, extra: Option<(String, String)>| { k += 1; let mut it = vec![lit(tag), lit(&format!("s{s}")), lit(&k.to_string())]; let mut shown = format!("[{tag:?},\"s{s}\",\"{k}\""); if let Some((x, t)) = extra { it.push(x); shown += &format!(",{t}"); } shown.push(']'); sc.events.push(Ev { line: format!("Entity {ename:?} > {shown}"), error: None, at: String::new() }); say(list(&it)) };
        for _ in 0..1 + r.below(5) {
            match r.below(10) {
                0 | 1 => stmts.push(say1(&mut sc, None)),
                2 => { let w = word(r); stmts.push(say1(&mut sc, Some((lit(&w), format!("{w:?}"))))); }
                3 => stmts.push(wait(["0", "0.002", "0.01"][r.below(3)])),
                4 | 5 => {
                    // the same line is said with the loop's counter
                    let m = 1 + r.below(if long { 12 } else { 5 });
                    k_loop(&mut sc, &mut stmts, r, tag, &format!("s{s}"), &ename, m);
                }
                6 => { let t = blk("doThrow", &[lit("inner")]); let h = say1(&mut sc, None); stmts.push(try_catch(&[t, say(lit("never"))], "err", &[h])); }
                9 => {
                    // a place or a sprite held by a variable is handed to a host that does not move sprites
                    let (v, f) = if r.pct(50) { (list(&[lit("1"), lit("2")]), "XY") } else { (blk("reportObject", &[lit(if ent == 0 { "Stage" } else { &ename })]), "Entity") };
                    let (b, f) = if r.pct(50) { ("doGotoObject", format!("Goto{f}")) } else { ("doFaceTowards", format!("PointTowards{f}")) };
                    stmts.push(blk("doSetVar", &[lit("hold"), v]));
                    let h = say1(&mut sc, Some((var("err"), format!("{:?}", format!("NotSupported {{ feature: {f} }}")))));
                    stmts.push(try_catch(&[blk(b, &[var("hold")]), say(lit("never"))], "err", &[h]));
                }
                7 if sends && s == 0 => { sends = false; receiver = true; stmts.push(blk("doBroadcast", &[lit("go on")])); }
                7 if pausing && sc.pauses.is_empty() => { stmts.push(blk("doPauseAll", &[])); sc.pauses.push(sc.events.len()); stmts.push(say1(&mut sc, None)); }
                _ => stmts.push(blk("doWarp", &[script(&[say1(&mut sc, None)])])),
            }
        }
        if r.pct(35) {
            let msg = format!("boom {tag} s{s} {}", ["alpha", "β-γ", "it's", "日本", "x = 5 (five)"][r.below(5)]);
            let b = blk("doThrow", &[lit(&msg)]);
            sc.events.push(Ev { line: ename.clone(), error: Some(msg), at: id_of(&b) });
            stmts.push(b);
            stmts.push(say(list(&[lit(tag), lit(&format!("s{s}")), lit("never")])));
        } else { stmts.push(say1(&mut sc, None)); }
        if ent == 0 { stage_scripts.push(top(&stmts)); } else { sprites[ent - 1].scripts.push(top(&stmts)); }
        scripts.push(sc);
    }
    if receiver {
        let ent = r.below(ents.len() + 1);
        let ename = if ent == 0 { "Stage".to_string() } else { ents[ent - 1].clone() };
        let b = top(&[blk("receiveMessage", &[lit("go on")]), say(list(&[lit(tag), lit("r"), lit("1")]))]);
        if ent == 0 { stage_scripts.push(b); } else { sprites[ent - 1].scripts.push(b); }
        scripts.push(Script { key: "r".into(), events: vec![Ev { line: format!("Entity {ename:?} > [{tag:?},\"r\",\"1\"]"), error: None, at: String::new() }], pauses: vec![] });
    }
    let globals: Vec<(String, String)> = (0..r.below(3)).map(|i| (format!("g{i}"), word(r))).collect();
    let mut declared = globals.clone();
    declared.push(("hold".into(), "0".into()));
    (Role { name: name.into(), globals: declared, msg_types: vec![], stage_scripts, sprites }, scripts, globals)
}
fn k_loop(sc: &mut Script, stmts: &mut Vec<String>, r: &mut Rng, tag: &str, key: &str, ename: &str, m: usize) {
    let mark = format!("loop{}", sc.events.len());
    let mut body = vec![say(list(&[lit(tag), lit(key), lit(&mark), var("i")]))];
    if r.pct(60) { body.push(wait(["0", "0.003"][r.below(2)])); }
    for i in 1..=m { sc.events.push(Ev { line: format!("Entity {ename:?} > [{tag:?},{key:?},{mark:?},{i}]"), error: None, at: String::new() }); }
    stmts.push(blk("doFor", &[lit("i"), lit("1"), lit(&m.to_string()), script(&body)]));
}
fn gen_proj(r: &mut Rng, n: usize, pausing: bool, long: bool) -> Proj {
    xml::reset_ids();
    let tag = format!("p{n}");
    let (mut role, scripts, globals) = gen_role(r, &tag, "role", pausing, long);
    if r.pct(4) { role.globals.push(("padding".into(), "abcdefgh".repeat(120_000))); }
    let name = format!("{} {n}", ["proj", "it's", "Größe", "a'b'", "\"q\""][r.below(5)]);
    Proj { xml: room(&name, &[role]), name, tag, scripts, globals }
}
/// something that cannot be loaded; what the load prints: whether it announces the project (by name) first, words of the
/// reason, and the block the editor is to mark
struct Bad { body: String, announced: Option<String>, why: Vec<&'static str>, at: Option<String> }
fn gen_bad(r: &mut Rng, n: usize) -> Bad {
    xml::reset_ids();
    let name = format!("bad {n}");
    let one = |blocks: &[String]| Role { name: "r".into(), stage_scripts: vec![top(blocks)], ..Default::default() };
    let go = blk("receiveGo", &[]);
    let with = |b: String| { let at = id_of(&b); (room(&name, &[one(&[go.clone(), say(lit("never")), b])]), at) };
    match r.below(14) {
        0 => Bad { body: String::new(), announced: None, why: vec!["NoRoot"], at: None },
        1 => Bad { body: "no project at all <<".into(), announced: None, why: vec![], at: None },
        2 => Bad { body: room(&name, &[]), announced: None, why: vec!["NoRoles"], at: None },
        3 => Bad { body: room(&name, &[one(&[go.clone()]), one(&[go])]), announced: None, why: vec!["MultipleRoles", "2"], at: None },
        4 => { let b = room(&name, &[one(&[go.clone(), say(lit("never"))])]); let k = b.len() * (1 + r.below(8)) / 10; let mut k = k; while !b.is_char_boundary(k) { k += 1; } Bad { body: b[..k].into(), announced: None, why: vec![], at: None } }
        5 => { let (body, at) = with(blk("doSetVar", &[lit("x")])); Bad { body, announced: None, why: vec!["BlockChildCount"], at: Some(at) } }
        6 => { let (body, at) = with(blk("doStopThis", &[opt("no such mode")])); Bad { body, announced: None, why: vec!["no such mode"], at: Some(at) } }
        7 => { let v = var("no such variable"); let at = id_of(&v); Bad { body: room(&name, &[one(&[go.clone(), say(v)])]), announced: None, why: vec!["UndefinedVar"], at: Some(at) } }
        8 => { let (body, _) = with(blk("bounceOffEdge", &[])); Bad { body, announced: Some(name), why: vec!["UnsupportedStmt", "BounceOffEdge"], at: None } }
        9 => { let (body, _) = with(say(blk("reportStageWidth", &[]))); Bad { body, announced: Some(name), why: vec!["UnsupportedExpr", "StageWidth"], at: None } }
        10 => { let (body, _) = with("<block collabId=\"strange-id\" s=\"bubble\"><l>never</l></block>".into()); Bad { body, announced: Some(name), why: vec!["InvalidLocation"], at: None } }
        11 => { let (body, _) = with(say("<ref id=\"77\"/>".into())); Bad { body, announced: Some(name), why: vec![], at: None } }
        12 => Bad { body: room(&name, &[one(&[blk("receiveKey", &[opt("long key")]), say(lit("never"))])]), announced: Some(name), why: vec!["BadKeycode", "long key"], at: None },
        _ => Bad { body: room(&name, &[one(&[blk("receiveInteraction", &[opt("clicked")]), say(lit("never"))])]), announced: Some(name), why: vec!["UnsupportedEvent"], at: None },
    }
}

// ---------------------------------------------------------------- the server

#[derive(Debug, Clone, PartialEq)]
enum Item { Loaded(String), LoadErr(String), RunErr { entity: String, cause: String }, Say(String), Other(String) }
fn items_of(s: &str) -> Vec<Item> {
    s.split('\n').filter(|l| !l.is_empty() && *l != ">>> see red error comments..." && *l != ">>> keeping previous project...").map(|l| {
        if let Some(x) = l.strip_prefix(">>> loaded project '").and_then(|x| x.strip_suffix('\'')) { return Item::Loaded(x.into()) }
        if let Some(x) = l.strip_prefix(">>> project load error: ") { return Item::LoadErr(x.into()) }
        if let Some(x) = l.strip_prefix(">>> runtime error in entity ") {
            // the entity is shown as a quoted text
            let mut end = None; let mut esc = false;
            for (i, c) in x.char_indices().skip(1) { if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { end = Some(i); break } }
            if let Some(i) = end { return Item::RunErr { entity: x[..=i].into(), cause: x[i + 1..].trim_start_matches(": ").into() } }
        }
        if l.starts_with("Entity \"") { return Item::Say(l.into()) }
        Item::Other(l.into())
    }).collect()
}
enum Sent { Load(usize), Bad(usize), Start, Stop }

struct Serv { nb: Nb, port: u16, pulled: Arc<Mutex<(Vec<String>, Vec<J>, Vec<String>)>>, sent: Vec<Sent>, projs: Vec<Proj>, bads: Vec<Bad>, skip: usize, requests: u64, pulls: Arc<std::sync::atomic::AtomicU64> }
type R<T> = Result<T, String>;
fn pull(port: u16, to: &Mutex<(Vec<String>, Vec<J>, Vec<String>)>, keep: bool) -> R<bool> {
    // the lock is held over the request unless several pollers are to compete
    let guard = if keep { Some(to.lock().unwrap()) } else { None };
    let p = http(port, "POST", "/pull", b"")?;
    if p.status != 200 { return Err(format!("/pull answered {}", p.status)) }
    if !p.head.contains("access-control-allow-origin") { return Err(format!("the editor may not read the answer: {}", p.head)) }
    let j: J = serde_json::from_slice(&p.body).map_err(|e| format!("/pull is no JSON: {e}: {}", String::from_utf8_lossy(&p.body)))?;
    let (Some(running), Some(out), Some(errs)) = (j["running"].as_bool(), j["output"].as_str(), j["errors"].as_array()) else { return Err(format!("/pull gave {j}")) };
    let mut g = match guard { Some(g) => g, None => to.lock().unwrap() };
    if !out.is_empty() { g.0.push(out.to_string()); }
    g.1.extend(errs.iter().cloned());
    Ok(running)
}
impl Serv {
    fn stdout(&self) -> String { self.nb.out()[self.skip..].to_string() }
    fn items(&self) -> Vec<Item> { let s = self.stdout(); let end = s.rfind('\n').map(|i| i + 1).unwrap_or(0); items_of(&s[..end]) }
    fn pull(&mut self) -> R<bool> { self.requests += 1; pull(self.port, &self.pulled, true) }
    fn alive(&mut self) -> R<()> {
        if let Some(c) = self.nb.ended() { return Err(format!("the server ended with {c}: {}", tail(&self.nb.err()))) }
        if self.nb.err().contains("panicked") { return Err(format!("the server failed: {}", tail(&self.nb.err()))) }
        Ok(())
    }
    fn post(&mut self, path: &str, body: &[u8], want: u16) -> R<Reply> {
        self.requests += 1;
        let p = http(self.port, "POST", path, body).map_err(|e| { let _ = self.nb.wait_end(Duration::from_millis(200)); format!("{e}; {}", tail(&self.nb.err())) })?;
        if p.status != want { return Err(format!("POST {path} answered {} instead of {want}: {}", p.status, String::from_utf8_lossy(&p.body))) }
        Ok(p)
    }
    fn load(&mut self, i: usize) -> R<()> { let b = self.projs[i].xml.clone(); self.sent.push(Sent::Load(i)); self.post("/project", b.as_bytes(), 200).map(|_| ()) }
    fn bad(&mut self, r: &mut Rng) -> R<()> { let b = gen_bad(r, self.bads.len()); let body = b.body.clone(); self.bads.push(b); self.sent.push(Sent::Bad(self.bads.len() - 1)); self.post("/project", body.as_bytes(), 200).map(|_| ()) }
    fn input(&mut self, start: bool) -> R<()> { self.sent.push(if start { Sent::Start } else { Sent::Stop }); self.post("/input", if start { b"start" } else { b"stop" }, 200).map(|_| ()) }
    fn toggle(&mut self) -> R<()> { self.post("/toggle-paused", b"", 200).map(|_| ()) }
    fn wait(&mut self, what: &str, mut done: impl FnMut(&mut Self) -> R<bool>) -> R<()> {
        let (mut t, mut n) = (Instant::now(), 0);
        loop {
            self.alive()?;
            if done(self)? { return Ok(()) }
            let m = self.stdout().len();
            if m != n { n = m; t = Instant::now(); }
            if t.elapsed() > Duration::from_secs(20) { return Err(format!("waited 20 s for {what}; output:\n{}", tail(&self.stdout()))) }
            std::thread::sleep(Duration::from_micros(1500));
        }
    }
    /// everything sent so far has been acted on
    fn barrier(&mut self, r: &mut Rng) -> R<()> {
        self.bad(r)?;
        let n = self.bads.len();
        self.wait("a refused project to be reported", |s| Ok(s.items().iter().filter(|i| matches!(i, Item::LoadErr(_))).count() >= n))
    }
    fn still(&mut self, what: &str) -> R<()> {
        let a = self.items();
        std::thread::sleep(Duration::from_millis(25));
        let b = self.items();
        if a.len() != b.len() { return Err(format!("{what}, yet the program went on: {:?}", &b[a.len()..])) }
        Ok(())
    }
    fn junk(&mut self, r: &mut Rng, cov: &mut Cov, known: &[usize]) -> R<()> {
        cov.add("refused or odd requests", 1);
        match r.below(8) {
            0 => self.post("/input", [&b"Start"[..], b"", b"start ", b"pause", b"stop!"][r.below(5)], 400).map(|_| ()),
            1 => self.post("/input", &[0xff, b's'], 400).map(|_| ()),
            2 => { let mut b = b"<room name=\"x\">".to_vec(); b.push(0xc0); self.post("/project", &b, 400).map(|_| ()) }
            3 => { let p = http(self.port, "GET", "/no/such/thing", b"")?; if p.status != 404 { return Err(format!("an unknown path answered {}", p.status)) } Ok(()) }
            4 => { let p = http(self.port, "GET", "/input", b"start")?; if p.status < 400 || p.status >= 500 { return Err(format!("GET /input answered {}", p.status)) } Ok(()) }
            5 => { let p = http(self.port, "GET", "/extension.js", b"")?; if p.status != 200 || !String::from_utf8_lossy(&p.body).contains(&format!("http://127.0.0.1:{}", self.port)) { return Err(format!("/extension.js answered {}: {}", p.status, tail(&String::from_utf8_lossy(&p.body)))) } Ok(()) }
            6 => { let mut c = TcpStream::connect(("127.0.0.1", self.port)).map_err(|e| e.to_string())?; let _ = c.write_all([&b"POST /project HTTP/1.1\r\nContent-Length: 50\r\n\r\n<room"[..], b"\r\n\r\n\r\n", b"GARBAGE\r\n\r\n"][r.below(3)]); Ok(()) }
            _ => {
                let p = http(self.port, "GET", "/project", b"")?;
                if p.status != 200 || !(p.body == EMPTY_PROJECT.as_bytes() || known.iter().any(|i| self.projs[*i].xml.as_bytes() == p.body)) { return Err(format!("GET /project gave {} and a text that was never loaded: {}", p.status, tail(&String::from_utf8_lossy(&p.body)))) }
                Ok(())
            }
        }
    }
}
fn progress(p: &Proj, items: &[Item]) -> BTreeMap<String, Vec<Item>> {
    let mut m: BTreeMap<String, Vec<Item>> = p.scripts.iter().map(|s| (s.key.clone(), vec![])).collect();
    for it in items { if let Some((t, k)) = whose(it) { if t == p.tag { m.entry(k).or_default().push(it.clone()); } } }
    m
}
/// the project and script a line belongs to
fn whose(i: &Item) -> Option<(String, String)> {
    match i {
        Item::Say(l) => { let (_, v) = l.split_once(" > [\"")?; let mut p = v.split("\",\""); Some((p.next()?.to_string(), p.next()?.trim_end_matches("\"]").to_string())) }
        Item::RunErr { cause, .. } => { let (_, v) = cause.split_once("boom ")?; let mut p = v.split(' '); Some((p.next()?.to_string(), p.next()?.to_string())) }
        _ => None,
    }
}
pub fn shown(cause: &str, msg: &str) -> bool { cause.contains(msg) }
fn same(ev: &Ev, it: &Item) -> bool {
    match (it, &ev.error) { (Item::Say(l), None) => *l == ev.line, (Item::RunErr { entity, cause }, Some(m)) => *entity == format!("{:?}", ev.line) && shown(cause, m), _ => false }
}

pub fn start_server(r: &mut Rng, mock: &Mock, fs: bool) -> R<(Nb, u16, usize)> {
    for attempt in 0..12u32 {
        let port = 10_000 + ((std::process::id() * 131).wrapping_add(r.below(20_000) as u32).wrapping_add(attempt * 977) % 20_000) as u16;
        if TcpListener::bind(("127.0.0.1", port)).is_err() || TcpListener::bind(("::1", port)).is_err_and(|e| e.kind() == std::io::ErrorKind::AddrInUse) { continue }
        let mut a: Vec<String> = if fs { vec!["--fs".into()] } else { vec![] };
        a.extend(["start", "--server"].map(String::from));
        a.extend([mock.base(), "--port".into(), port.to_string()]);
        let mut nb = Nb::spawn(&a);
        let t = Instant::now();
        loop {
            if nb.err().contains("AddrInUse") || nb.err().contains("in use") { break }
            if let Some(c) = nb.ended() { return Err(format!("nb start ended with {c}: {}", tail(&nb.err()))) }
            let o = nb.out();
            if let Some(i) = o.find("public id: ").and_then(|i| o[i..].find('\n').map(|k| i + k + 1)) { if TcpStream::connect(("127.0.0.1", port)).is_ok() { return Ok((nb, port, i)) } }
            if t.elapsed() > Duration::from_secs(30) { return Err(format!("nb start does not serve: {} {}", nb.out(), tail(&nb.err()))) }
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    Err("no free port".into())
}
fn server_case(cov: &mut Cov, r: &mut Rng) -> R<()> {
    let mock = Mock::start();
    let fs = r.pct(30);
    let (nb, port, skip) = start_server(r, &mock, fs)?;
    let pulled: Arc<Mutex<(Vec<String>, Vec<J>, Vec<String>)>> = Default::default();
    let stop = Arc::new(AtomicBool::new(false));
    let pulls: Arc<std::sync::atomic::AtomicU64> = Default::default();
    let pollers = r.below(3); // 0: only the driver polls; 1: a second poller in turns; 2: competing pollers
    let mut threads = vec![];
    for k in 0..pollers {
        let (p2, s2, c2) = (pulled.clone(), stop.clone(), pulls.clone());
        let gap = *r.pick(&[1u64, 4, 11]);
        threads.push(std::thread::spawn(move || while !s2.load(SeqCst) { match pull(port, &p2, pollers == 1) { Ok(_) => { c2.fetch_add(1, SeqCst); } Err(e) => { p2.lock().unwrap().2.push(format!("poller {k}: {e}")); return } } std::thread::sleep(Duration::from_millis(gap)); }));
    }
    let mut s = Serv { nb, port, pulled, sent: vec![], projs: vec![], bads: vec![], skip, requests: 0, pulls };
    let res = drive(cov, r, &mut s, fs, pollers);
    stop.store(true, SeqCst);
    for t in threads { let _ = t.join(); }
    res.map_err(|e| { let p = s.pulled.lock().unwrap(); if p.2.is_empty() { e } else { format!("{e}; {:?}", p.2) } })
}
fn drive(cov: &mut Cov, r: &mut Rng, s: &mut Serv, fs: bool, pollers: usize) -> R<()> {
    let ext = http(s.port, "GET", "/extension.js", b"")?;
    let et = String::from_utf8_lossy(&ext.body).into_owned();
    if ext.status != 200 || !ext.head.contains("text/javascript") || !et.contains(&format!("http://127.0.0.1:{}", s.port)) { return Err(format!("/extension.js: {} {}", ext.status, ext.head)) }
    for n in ["open", "close", "readLine", "writeLine"] { if et.contains(&format!("\"{n}\":\"{n}\"")) != fs { return Err(format!("the extension's menu lists {n}: {}, file access is {fs}", !fs)) } }
    let mut current: Option<usize> = None; // what a settled server holds
    let mut loaded: Vec<usize> = vec![];
    let mut windows: Vec<(usize, usize, usize)> = vec![];
    let phases = 1 + r.below(4);
    for _ in 0..phases {
        // a burst of commands nobody waits for
        if r.pct(40) {
            for _ in 0..1 + r.below(8) {
                match r.below(10) {
                    0..=3 => s.input(true)?,
                    4 => s.input(false)?,
                    5 => s.toggle()?,
                    6 => { let (pa, lo) = (r.pct(20), r.pct(50)); let p = gen_proj(r, s.projs.len(), pa, lo); s.projs.push(p); let i = s.projs.len() - 1; loaded.push(i); s.load(i)?; current = Some(i); }
                    7 => s.bad(r)?,
                    8 => { s.pull()?; }
                    _ => s.junk(r, cov, &loaded)?,
                }
                if r.pct(50) { std::thread::sleep(Duration::from_millis(r.below(12) as u64)); }
            }
            cov.add("bursts", 1);
        }
        if current.is_none() || r.pct(60) {
            let (pa, lo) = (r.pct(25), r.pct(40));
            let p = gen_proj(r, s.projs.len(), pa, lo);
            s.projs.push(p);
            let i = s.projs.len() - 1;
            loaded.push(i);
            s.load(i)?;
            current = Some(i);
            cov.add("projects loaded", 1);
        }
        if r.pct(30) { s.bad(r)?; }
        let cur = current.unwrap();
        s.input(false)?;
        s.barrier(r)?;
        let g = http(s.port, "GET", "/project", b"")?;
        if g.status != 200 || g.body != s.projs[cur].xml.as_bytes() { return Err(format!("GET /project gave {} and {} bytes instead of the {} bytes last loaded: {}", g.status, g.body.len(), s.projs[cur].xml.len(), tail(&String::from_utf8_lossy(&g.body)))) }
        s.still("everything was stopped")?;
        if !s.pull()? && r.pct(50) { s.toggle()?; if !s.pull()? { return Err("toggling a paused server left it paused".into()) } s.still("everything was stopped")?; }
        // a run, watched to its end
        let resting = !s.pull()?;
        let from = s.items().len();
        s.input(true)?;
        // a server left paused goes on being paused until it has taken the start: such a pause is not one by the program
        if resting { s.barrier(r)?; }
        let p = s.projs[cur].clone();
        let mut disturb = r.below(5);
        let mut paused_at: Vec<String> = vec![];
        let mut stops = 0;
        loop {
            let it = s.items();
            let pr = progress(&p, &it[from..]);
            if p.scripts.iter().all(|x| pr[&x.key].len() >= x.events.len()) { break }
            if disturb > 0 && r.pct(25) {
                disturb -= 1;
                match r.below(4) {
                    0 => { s.bad(r)?; cov.add("refused projects during a run", 1); }
                    1 => s.junk(r, cov, &loaded)?,
                    2 if !p.pausing() => {
                        // the start must have been taken before the pause, which it would undo
                        s.barrier(r)?;
                        s.toggle()?;
                        s.barrier(r)?;
                        s.still("the project was paused")?;
                        if s.pull()? { return Err("a paused server says that it is running".into()) }
                        s.toggle()?;
                        if !s.pull()? { return Err("a server that was paused and resumed says that it is not running".into()) }
                        cov.add("pauses by command", 1);
                    }
                    _ => { s.pull()?; }
                }
            }
            let before = s.items().len();
            s.wait("the scripts to go on", |s| {
                let now = s.items();
                if now.len() > before { return Ok(true) }
                if p.pausing() { let pr = progress(&p, &now[from..]); if p.scripts.iter().any(|x| x.pauses.iter().any(|k| pr[&x.key].len() == *k && !paused_at.contains(&x.key))) { return s.pull().map(|x| !x) } }
                let pr = progress(&p, &now[from..]);
                Ok(p.scripts.iter().all(|x| pr[&x.key].len() >= x.events.len()))
            })?;
            if p.pausing() && !s.pull()? {
                s.barrier(r)?;
                s.still("the project paused itself")?;
                let pr = progress(&p, &s.items()[from..]);
                let here: Vec<String> = p.scripts.iter().filter(|x| !paused_at.contains(&x.key) && x.pauses.iter().any(|k| pr[&x.key].len() == *k)).map(|x| x.key.clone()).collect();
                if here.is_empty() { return Err(format!("the server is paused though no script stands at a pause block: {:?}", s.items())) }
                // more than one script may stand before its pause; which of them paused shows when it goes on
                if here.len() == 1 { paused_at.extend(here); }
                s.toggle()?;
                stops += 1;
                cov.add("pauses by the program", 1);
            }
        }
        let want: usize = p.scripts.iter().map(|x| x.pauses.len()).sum();
        if stops != want { return Err(format!("{want} pause blocks ran, the server was paused {stops} times")) }
        s.input(false)?;
        s.barrier(r)?;
        windows.push((from, s.items().len(), cur));
        cov.add("runs watched to the end", 1);
    }
    s.alive()?;
    // everything that was printed reaches the editor
    let t = Instant::now();
    loop {
        s.pull()?;
        let n: usize = s.pulled.lock().unwrap().0.iter().map(|x| x.len()).sum();
        if n >= s.stdout().len() || t.elapsed() > Duration::from_secs(10) { break }
        std::thread::sleep(Duration::from_millis(3));
    }
    std::thread::sleep(Duration::from_millis(15));
    s.pull()?;
    let (out, pulled) = (s.stdout(), s.pulled.lock().unwrap());
    if !pulled.2.is_empty() { return Err(format!("{:?}", pulled.2)) }
    let got = pulled.0.concat();
    if pollers < 2 { if got != out { return Err(format!("the editor was given {} bytes, the program printed {}; first difference at {:?}\n--- printed\n{}\n--- given\n{}", got.len(), out.len(), got.bytes().zip(out.bytes()).position(|(a, b)| a != b), tail(&out), tail(&got))) } }
    else {
        let mut a: Vec<&str> = pulled.0.iter().flat_map(|c| c.split_inclusive('\n')).collect();
        let mut b: Vec<&str> = out.split_inclusive('\n').collect();
        a.sort(); b.sort();
        if a != b { return Err(format!("the pollers together were given {} lines, the program printed {}\n--- printed\n{}\n--- given\n{}", a.len(), b.len(), tail(&out), tail(&got))) }
    }
    let items = items_of(&out);
    if let Some(o) = items.iter().find(|i| matches!(i, Item::Other(_))) { return Err(format!("unexpected output {o:?}")) }
    // announcements, in the order of the loads; whose lines may come between
    let mut ann = items.iter().filter(|i| matches!(i, Item::Loaded(_) | Item::LoadErr(_)));
    let mut errs_want: Vec<(String, String, Option<String>, usize)> = vec![]; // entity, cause contains, block; index of the project + 1
    for x in &s.sent {
        match x {
            Sent::Load(i) => { let w = Item::Loaded(s.projs[*i].name.clone()); let g = ann.next(); if g != Some(&w) { return Err(format!("expected {w:?}, the server said {g:?}")) } }
            Sent::Bad(i) => {
                let b = &s.bads[*i];
                if let Some(n) = &b.announced { let w = Item::Loaded(n.clone()); let g = ann.next(); if g != Some(&w) { return Err(format!("expected {w:?}, the server said {g:?}")) } }
                match ann.next() { Some(Item::LoadErr(t)) if !t.trim().is_empty() && b.why.iter().all(|w| t.contains(w)) => (), g => return Err(format!("a project that cannot be loaded ({:?}) was answered with {g:?}", b.why)) }
            }
            _ => (),
        }
    }
    if let Some(x) = ann.next() { return Err(format!("the server announced {x:?}, which was never sent")) }
    // per project held: its scripts' lines are runs or beginnings of runs
    let mut starts: Vec<(Option<usize>, u64)> = vec![(None, 0)];
    for x in &s.sent { match x { Sent::Load(i) => starts.push((Some(*i), 0)), Sent::Start => starts.last_mut().unwrap().1 += 1, _ => () } }
    let mut epoch = 0;
    let mut pos: BTreeMap<String, (usize, u64)> = BTreeMap::new();
    let mut loads = s.sent.iter().filter_map(|x| match x { Sent::Load(_) => Some(true), Sent::Bad(i) if s.bads[*i].announced.is_some() => Some(false), _ => None });
    let mut bads = 0;
    for it in &items {
        match it {
            Item::Loaded(_) => if loads.next() == Some(true) { epoch += 1; pos.clear(); },
            Item::LoadErr(_) => { let nth = s.sent.iter().filter_map(|x| match x { Sent::Bad(i) => Some(*i), _ => None }).nth(bads); bads += 1; if let Some(b) = nth { if let Some(at) = &s.bads[b].at { errs_want.push((String::new(), s.bads[b].why[0].into(), Some(at.clone()), 0)); } } }
            Item::Other(_) => (),
            _ => {
                let (pi, n_starts) = starts[epoch];
                let Some(pi) = pi else { return Err(format!("{it:?} although no project had been loaded")) };
                let p = &s.projs[pi];
                let w = whose(it);
                let Some((t, k)) = w.filter(|w| w.0 == p.tag) else { return Err(format!("{it:?} while project {:?} ({}) was loaded", p.name, p.tag)) };
                let Some(sc) = p.scripts.iter().find(|x| x.key == k) else { return Err(format!("{it:?}: project {t} has no script {k}")) };
                let e = pos.entry(k).or_insert((0, 0));
                if e.0 < sc.events.len() && e.0 > 0 && same(&sc.events[e.0], it) { e.0 += 1; }
                else if same(&sc.events[0], it) { e.0 = 1; e.1 += 1; if e.1 > n_starts { return Err(format!("script {} of {t} began {} times after {n_starts} starts", sc.key, e.1)) } }
                else { return Err(format!("{it:?} came where script {} should say {:?}", sc.key, sc.events.get(e.0))) }
                if let Item::RunErr { .. } = it { let ev = &sc.events[e.0 - 1]; errs_want.push((ev.line.clone(), ev.error.clone().unwrap(), Some(ev.at.clone()), pi + 1)); }
            }
        }
    }
    for (from, to, i) in &windows {
        let pr = progress(&s.projs[*i], &items[*from..*to]);
        for sc in &s.projs[*i].scripts { let g = &pr[&sc.key]; if g.len() != sc.events.len() || !g.iter().zip(&sc.events).all(|(a, b)| same(b, a)) { return Err(format!("a whole run of script {} gave {g:?}, expected {:?}", sc.key, sc.events)) } }
        cov.add("script lines checked", s.projs[*i].scripts.iter().map(|x| x.events.len() as u64).sum());
    }
    // runtime and load errors for the editor, once and in order
    let show = || format!("--- given\n{:?}\n--- expected\n{errs_want:?}", pulled.1);
    if pulled.1.len() != errs_want.len() { return Err(format!("the editor was given {} errors, there were {}\n{}", pulled.1.len(), errs_want.len(), show())) }
    let mut given: Vec<&J> = pulled.1.iter().collect();
    for w in &errs_want {
        let fits = |j: &&J| {
            let (c, e) = (j["cause"].as_str().unwrap_or(""), j["entity"].as_str().unwrap_or("?"));
            let at = j["trace"].as_array().and_then(|t| t.last()).and_then(|t| t["location"].as_str());
            c.contains(&w.1) && at == w.2.as_deref() && (w.3 == 0 || e == w.0)
                && (w.3 == 0 || { let gs = j["globals"].as_array().cloned().unwrap_or_default(); let gs: BTreeMap<&str, &str> = gs.iter().map(|v| (v["name"].as_str().unwrap_or(""), v["value"].as_str().unwrap_or(""))).collect(); s.projs[w.3 - 1].globals.iter().all(|(n, v)| gs.get(n.as_str()) == Some(&format!("{v:?}").as_str())) })
        };
        let i = if pollers < 2 { Some(0).filter(|_| fits(&given[0])) } else { given.iter().position(fits) };
        match i { Some(i) => { given.remove(i); } None => return Err(format!("the editor was not given {w:?} in its place\n{}", show())) }
    }
    cov.add("errors handed over", errs_want.len() as u64);
    cov.add("output bytes compared", out.len() as u64);
    cov.add("requests", s.requests + s.pulls.load(SeqCst));
    cov.add("refused projects", s.bads.len() as u64);
    let sig = items.iter().map(|i| match i { Item::Loaded(_) => "L".to_string(), Item::LoadErr(_) => "E".into(), _ => whose(i).map(|w| w.0 + &w.1).unwrap_or_default() }).collect::<Vec<_>>().join(" ");
    if cov.distinct(crate::rng::hash_str(&sig)) { cov.sample(|| format!("{} pollers; {sig}", pollers)); }
    Ok(())
}

// ---------------------------------------------------------------- nb run, nb dump

fn run_case(cov: &mut Cov, r: &mut Rng) -> R<()> {
    let mock = Mock::start();
    let dir = Scratch::new();
    let file = dir.0.join(["project.xml", "a b.xml", "ä.xml"][r.below(3)]);
    let f = file.to_string_lossy().into_owned();
    let dump = r.pct(25);
    let mode = if dump { "dump" } else { "run" };
    let args = |role: Option<&str>| { let mut a = vec![mode.to_string(), f.clone()]; if let Some(x) = role { a.extend(["--role".to_string(), x.to_string()]); } if !dump { a.extend(["--server".to_string(), mock.base()]); } a };
    if r.pct(30) {
        // refused: a message, an exit code, no crash
        xml::reset_ids();
        let ok = |n: &str| Role { name: n.into(), stage_scripts: vec![top(&[blk("receiveGo", &[]), say(lit("never"))])], ..Default::default() };
        let (content, role, code): (Option<Vec<u8>>, Option<&str>, i32) = match r.below(6) {
            0 => (None, None, 1),
            1 => (Some(vec![0xff, 0xfe, 0x80]), None, 1),
            2 => (Some(room("p", &[ok("a"), ok("b")]).into_bytes()), Some("c"), 2),
            3 => (Some(room("p", &[ok("a"), ok("b")]).into_bytes()), None, 2),
            4 => (Some(room("p", &[]).into_bytes()), if r.pct(50) { Some("a") } else { None }, 2),
            _ => { let b = loop { let b = gen_bad(r, 0); if b.announced.is_some() == r.pct(50) { break b } }; let c = if b.announced.is_none() { 2 } else if dump { 3 } else { 0 }; (Some(b.body.into_bytes()), None, c) }
        };
        if let Some(c) = &content { std::fs::write(&file, c).unwrap(); }
        let mut nb = Nb::spawn(&args(role));
        let Some(c) = nb.wait_end(Duration::from_secs(30)) else { return Err(format!("nb {mode} of an unusable file or role does not end: {}", nb.out())) };
        let said = if code == 0 { nb.out() } else { nb.err() };
        let min = if code == 0 { nb.out().find("error").is_some() } else { !said.trim().is_empty() };
        if nb.err().contains("panicked") || c == 101 || (code != 0) != (c != 0) || !min || nb.out().contains("never") && !dump { return Err(format!("nb {mode} of an unusable file or role ended with {c} and said {:?} {:?}", tail(&nb.out()), tail(&nb.err()))) }
        cov.add("unusable files and roles refused", 1);
        if cov.distinct(crate::rng::hash_str(&format!("{mode} {c} {}", nb.err()))) { cov.sample(|| format!("nb {mode}: exit {c}, {}", tail(&said))); }
        return Ok(());
    }
    xml::reset_ids();
    let n = 1 + r.below(3);
    let names = ["first", "Rolle 2", "it's \"3\""];
    let mut roles = vec![];
    let mut all = vec![];
    for i in 0..n { let lo = r.pct(50); let (role, sc, _) = gen_role(r, &format!("p{i}"), names[i], false, lo); roles.push(role); all.push(sc); }
    let pick = r.below(n);
    let pname = ["My Project", "ü'"][r.below(2)];
    let text = room(pname, &roles);
    std::fs::write(&file, &text).unwrap();
    let mut nb = Nb::spawn(&args(if n == 1 && r.pct(50) { None } else { Some(names[pick]) }));
    if dump {
        let Some(c) = nb.wait_end(Duration::from_secs(30)) else { return Err("nb dump does not end".into()) };
        let parsed = ast::Parser::default().parse(&text).map_err(|e| format!("harness: {e:?}"))?;
        let (code, _, _, _) = ByteCode::compile(&parsed.roles[pick]).map_err(|e| format!("harness: {e:?}"))?;
        let (mut a, mut b) = (vec![], vec![]);
        code.dump_code(&mut a).unwrap();
        code.dump_data(&mut b).unwrap();
        let want = format!("instructions:\n{}\ndata:\n{}\ntotal size: {}\n", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b), code.total_size());
        if c != 0 || nb.out() != want { return Err(format!("nb dump ended with {c}; {} bytes, expected {}: {}", nb.out().len(), want.len(), tail(&nb.out()))) }
        cov.add("listings", 1);
        cov.distinct(crate::rng::hash_str(&want));
        return Ok(());
    }
    let want = &all[pick];
    let p = Proj { name: String::new(), xml: String::new(), tag: format!("p{pick}"), scripts: want.clone(), globals: vec![] };
    let norm = |o: &str| -> Vec<Item> {
        o.split('\n').filter(|l| !l.is_empty()).map(|l| match l.strip_prefix(">>> runtime error: ") { Some(c) => Item::RunErr { entity: String::new(), cause: c.into() }, None if l.starts_with("Entity \"") => Item::Say(l.into()), None => Item::Other(l.into()) }).collect()
    };
    let total: usize = want.iter().map(|s| s.events.len()).sum();
    let (mut t, mut last) = (Instant::now(), 0);
    let whole = |o: &str| norm(&o[..o.rfind('\n').map(|i| i + 1).unwrap_or(0)]);
    loop {
        let o = nb.out();
        if whole(&o).iter().filter(|i| !matches!(i, Item::Other(_))).count() >= total { break }
        if let Some(c) = nb.ended() { return Err(format!("nb run ended with {c}: {} {}", tail(&nb.out()), tail(&nb.err()))) }
        if o.len() != last { last = o.len(); t = Instant::now(); }
        if t.elapsed() > Duration::from_secs(20) { return Err(format!("nb run stopped going on: {}\nexpected {want:?}", tail(&o))) }
        std::thread::sleep(Duration::from_millis(2));
    }
    std::thread::sleep(Duration::from_millis(25));
    let o = nb.out();
    let it = whole(&o);
    if !nb.err().is_empty() { return Err(format!("nb run: {}", tail(&nb.err()))) }
    let id = mock.state.lock().unwrap().public_id.clone().unwrap_or_default();
    if !id.starts_with(&format!("{pname}@")) { return Err(format!("the server was told {id:?} for the project {pname:?}")) }
    let others: Vec<&Item> = it.iter().filter(|i| matches!(i, Item::Other(_))).collect();
    if others != [&Item::Other(format!(">>> public id: {id}"))] { return Err(format!("unexpected output {others:?}, the public id is {id}")) }
    let pr = progress(&p, &it);
    if pr.len() != want.len() || pr.values().map(|v| v.len()).sum::<usize>() != it.len() - 1 { return Err(format!("nb run of role {:?} printed lines of other roles or scripts: {it:?}", names[pick])) }
    for sc in want {
        let g = &pr[&sc.key];
        let fits = |ev: &Ev, it: &Item| match (it, &ev.error) { (Item::RunErr { cause, .. }, Some(m)) => shown(cause, m), (Item::Say(l), None) => *l == ev.line, _ => false };
        if g.len() != sc.events.len() || !g.iter().zip(&sc.events).all(|(a, b)| fits(b, a)) { return Err(format!("script {} printed {g:?}, expected {:?}", sc.key, sc.events)) }
    }
    cov.add("projects run by nb run", 1);
    cov.add("lines of nb run", total as u64);
    let sig = it.iter().filter_map(whose).map(|w| w.1).collect::<Vec<_>>().join(" ");
    if cov.distinct(crate::rng::hash_str(&format!("{mode} {sig}"))) { cov.sample(|| format!("nb run: {sig}")); }
    Ok(())
}
pub fn c30(cov: &mut Cov, seed: u64, idx: u64, _thorough: bool) -> Res {
    let mut r = Rng::new(seed);
    let e = if idx % 3 == 2 { run_case(cov, &mut r) } else { server_case(cov, &mut r) };
    match e { Ok(()) => Res::Ok, Err(e) => Res::Violation(e) }
}
