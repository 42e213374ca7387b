//! C33: the file syscalls of `nb --fs run`, against a reference file system and the files really on disk.
use crate::check::*;
use crate::cli::{Nb, Scratch};
use crate::mock::*;
use crate::rng::*;
use crate::xml::{self, *};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

enum Want { Line(String), Err(String, Vec<String>) }
#[derive(Clone)]
struct Handle { write: bool, path: usize, pos: usize, open: bool }
struct Fs { /* name as the program knows it, content; None: does not exist */ files: Vec<(String, Option<Vec<u8>>)>, /* contents only known as a beginning */ loose: Vec<bool>, handles: Vec<Handle>, full: Vec<usize> }
impl Fs { fn busy(&self, p: usize, write: bool) -> bool { self.loose[p] || self.handles.iter().any(|h| h.open && h.path == p && (write || h.write)) } }

fn content(r: &mut Rng) -> (String, String) {
    // the block giving the value; what is written for it
    let t = ["", "plain", "zwei Wörter", "日本語 👍🏽", "a,b;\"c\" 'd' <e> & \\n", "  spaces  ", "\ttab", "line one\nline two", "\r", "x", "y"];
    match r.below(10) {
        0 => { let a = r.below(2000) as i64 - 1000; let b = r.below(50) as i64; (blk("reportDifference", &[lit(&a.to_string()), lit(&b.to_string())]), (a - b).to_string()) }
        1 => (blk("reportQuotient", &[lit("1"), lit("8")]), "0.125".into()),
        2 => { let b = r.pct(50); (format!("<l><bool>{b}</bool></l>"), b.to_string()) }
        3 => (list(&[lit("p q"), blk("reportQuotient", &[lit("3"), lit("2")]), list(&[])]), "[p q,1.5,[]]".into()),
        4 => { let n = [4000, 8191, 8192, 8193, 20_000][r.below(5)]; let s: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect(); (lit(&s), s) }
        _ => { let s = t[r.below(t.len())]; (lit(s), s.replace('\r', "\n")) }
    }
}
fn line_at(data: &[u8], pos: &mut usize) -> Vec<u8> {
    let end = data[*pos..].iter().position(|b| *b == b'\n').map(|i| *pos + i + 1).unwrap_or(data.len());
    let l = data[*pos..end].to_vec();
    *pos = end;
    l
}
struct Gen<'r> { r: &'r mut Rng, key: String, fs: Fs, vars: Vec<Option<usize>>, stmts: Vec<String>, want: Vec<Want>, k: usize, on: bool, ops: BTreeMap<&'static str, u64> }
impl Gen<'_> {
    fn hv(&self, v: usize) -> String { format!("{}h{v}", self.key) }
    /// a value giving the handle in a variable: itself, or through a list
    fn handle(&mut self, v: usize) -> String { let x = var(&self.hv(v)); if self.r.pct(20) { blk("reportListItem", &[lit("1"), list(&[x, lit("other")])]) } else { x } }
    /// one call; how it ends: the text of the value, or words of the error
    fn call(&mut self, what: &'static str, name: &str, args: Vec<String>, into: Option<usize>, out: Result<String, Vec<String>>) {
        *self.ops.entry(what).or_default() += 1;
        self.k += 1;
        let k = self.k.to_string();
        let form = format!("<list>{}</list>", args.concat());
        // the arguments are written out or computed as a list
        let form = if self.r.pct(25) { list(&args) } else { form };
        let say3 = |v: String| say(list(&[lit(&self.key), lit(&k), v]));
        let run = into.is_none() && self.r.pct(25);
        let body = if run { vec![blk("nativeRunSyscall", &[lit(name), form]), say3(lit("done"))] }
            else if let Some(v) = into { let h = self.hv(v); vec![blk("doSetVar", &[lit(&h), blk("nativeCallSyscall", &[lit(name), form])]), say3(var(&h))] }
            else { vec![say3(blk("nativeCallSyscall", &[lit(name), form]))] };
        let handler = say(list(&[lit(&self.key), lit(&k), lit("error"), var("err")]));
        self.stmts.push(try_catch(&body, "err", &[handler]));
        let pre = format!("Entity \"Stage\" > [{:?},{k:?},", self.key);
        self.want.push(match out { _ if !self.on => Want::Err(format!("{pre}\"error\",\""), vec!["NotSupported".into(), "Syscall".into(), name.into()]), Ok(t) => Want::Line(format!("{pre}{}]", if run { "\"done\"".to_string() } else { t })), Err(w) => Want::Err(format!("{pre}\"error\",\""), w) });
    }
    fn open(&mut self) {
        let v = self.r.below(self.vars.len());
        let (p, mode) = (self.r.below(self.fs.files.len()), ["r", "w", "a", "r", "w"][self.r.below(5)]);
        let write = mode != "r";
        if self.fs.busy(p, write) { return }
        // a handle that nothing holds any more may or may not have reached its file
        if let Some(h) = self.vars[v] { if self.fs.handles[h].open && self.fs.handles[h].write && self.vars.iter().filter(|x| **x == Some(h)).count() == 1 { return } }
        let name = self.fs.files[p].0.clone();
        let full = self.fs.full.contains(&p);
        if full && !write { return }
        if !write && self.fs.files[p].1.is_none() { return self.call("open of a file that is not there", "open", vec![lit(&name), lit(mode)], Some(v), Err(vec!["open".into(), "error".into()])) }
        if self.on {
            if mode == "w" { self.fs.files[p].1 = Some(vec![]); } else if write { self.fs.files[p].1.get_or_insert_default(); }
            self.fs.handles.push(Handle { write, path: p, pos: 0, open: true });
            self.vars[v] = Some(self.fs.handles.len() - 1);
        }
        self.call(if mode == "a" { "opened to append" } else if write { "opened to write" } else { "opened to read" }, "open", vec![lit(&name), lit(mode)], Some(v), Ok(if write { "[OutputFile]" } else { "[InputFile]" }.into()))
    }
    fn close(&mut self, v: usize) {
        let h = self.handle(v);
        let Some(i) = self.vars[v] else { return self.call("close of something else", "close", vec![h], None, Err(vec!["expected type".into()])) };
        let hd = self.fs.handles[i].clone();
        self.fs.handles[i].open = false;
        let lost = hd.open && hd.write && self.fs.full.contains(&hd.path) && hd.pos > 0;
        self.call(if lost { "closed with data that cannot be written" } else if hd.open { "closed" } else { "closed again" }, "close", vec![h], None, if lost { Err(vec!["close".into(), "error".into()]) } else { Ok("\"OK\"".into()) })
    }
    fn read(&mut self, v: usize) {
        let h = self.handle(v);
        let Some(i) = self.vars[v] else { return self.call("read of something else", "readLine", vec![h], None, Err(vec!["readLine".into(), "expected type".into()])) };
        let hd = self.fs.handles[i].clone();
        if hd.write { return self.call("read of an output file", "readLine", vec![h], None, Err(vec!["expected type".into(), "InputFile".into(), "OutputFile".into()])) }
        if !hd.open { return self.call("read after close", "readLine", vec![h], None, Err(vec!["readLine".into(), "closed".into()])) }
        let l = line_at(self.fs.files[hd.path].1.as_ref().unwrap(), &mut self.fs.handles[i].pos);
        match String::from_utf8(l) {
            Ok(s) => self.call(if s.is_empty() { "read at the end" } else { "line read" }, "readLine", vec![h], None, Ok(format!("{s:?}"))),
            Err(_) => self.call("read of broken text", "readLine", vec![h], None, Err(vec!["readLine".into(), "read error".into()])),
        }
    }
    fn write(&mut self, v: usize) {
        let h = self.handle(v);
        let (b, t) = content(self.r);
        let Some(i) = self.vars[v] else { return self.call("write to something else", "writeLine", vec![h, b], None, Err(vec!["writeLine".into(), "expected type".into()])) };
        let hd = self.fs.handles[i].clone();
        if !hd.write { return self.call("write to an input file", "writeLine", vec![h, b], None, Err(vec!["expected type".into(), "InputFile".into(), "OutputFile".into()])) }
        if !hd.open { return self.call("write after close", "writeLine", vec![h, b], None, Err(vec!["writeLine".into(), "closed".into()])) }
        if self.fs.full.contains(&hd.path) {
            // small lines fit the buffer: they are accepted, and missed at the latest when the file is closed
            if hd.pos > 4000 { return }
            self.fs.handles[i].pos += 6;
            return self.call("line accepted for a full disk", "writeLine", vec![h, lit("short")], None, Ok("\"OK\"".into()));
        }
        let f = self.fs.files[hd.path].1.as_mut().unwrap();
        f.extend(t.as_bytes());
        f.push(b'\n');
        self.call("line written", "writeLine", vec![h, b], None, Ok("\"OK\"".into()))
    }
    fn odd(&mut self) {
        let v = self.r.below(self.vars.len());
        let h = self.handle(v);
        let p = self.fs.files[0].0.clone();
        match self.r.below(12) {
            0 => self.call("bad call", "open", vec![lit(&p)], None, Err(vec!["expected 2 args".into(), "received 1".into()])),
            1 => self.call("bad call", "open", vec![lit(&p), lit("r"), lit("x")], None, Err(vec!["expected 2 args".into(), "received 3".into()])),
            2 => { let m = ["rw", "", "R", "x", "w+"][self.r.below(5)]; self.call("bad call", "open", vec![lit(&p), lit(m)], None, Err(vec!["unknown mode".into(), m.into()])) }
            3 => self.call("bad call", "open", vec![list(&[]), lit("r")], None, Err(vec!["2 string args".into()])),
            4 => self.call("bad call", "close", vec![], None, Err(vec!["expected 1 arg".into(), "received 0".into()])),
            5 => self.call("bad call", "readLine", vec![h, lit("x")], None, Err(vec!["expected 1 arg".into(), "received 2".into()])),
            6 => self.call("bad call", "writeLine", vec![h], None, Err(vec!["expected 2 args".into(), "received 1".into()])),
            7 => self.call("bad call", "readLine", vec![lit(&p)], None, Err(vec!["expected type".into()])),
            8 => { let m = ["r", "w", "a"][self.r.below(3)]; self.call("bad call", "open", vec![lit("no such folder/x"), lit(m)], None, Err(vec!["open".into(), "error".into()])) }
            9 => { let m = ["w", "a"][self.r.below(2)]; self.call("bad call", "open", vec![lit("."), lit(m)], None, Err(vec!["open".into(), "error".into()])) }
            10 => { let n = ["delete", "", "Open", "readline"][self.r.below(4)]; self.call("unknown call", n, vec![lit(&p)], None, Err(vec!["NotSupported".into(), "Syscall".into(), n.into()])) }
            _ => { if self.on { let (a, b) = (self.r.below(self.vars.len()), v); if let Some(h) = self.vars[a] { if self.fs.handles[h].open && self.fs.handles[h].write && self.vars.iter().filter(|x| **x == Some(h)).count() == 1 { return } } self.vars[a] = self.vars[b]; let s = blk("doSetVar", &[lit(&self.hv(a)), var(&self.hv(b))]); self.stmts.push(s); } }
        }
    }
}
fn case(cov: &mut Cov, r: &mut Rng) -> Result<(), String> {
    let mock = Mock::start();
    let (dir, other) = (Scratch::new(), Scratch::new());
    let file = other.0.join("project.xml");
    xml::reset_ids();
    let on = r.pct(90);
    let n = 1 + r.below(3);
    let (mut scripts, mut globals, mut wants, mut disk, mut loose) = (vec![], vec![], vec![], BTreeMap::<String, Vec<u8>>::new(), vec![]);
    for s in 0..n {
        let mut fs = Fs { files: vec![], loose: vec![], handles: vec![], full: vec![] };
        let names = ["in.txt", "ein gabe.txt", "入力", "b", "out \"1\".txt", "log'", "ö&<>", "0.5"];
        for i in 0..2 + r.below(4) {
            let rel = format!("{s}{i} {}", names[r.below(names.len())]);
            let open_end = if r.pct(40) { Some(r.below(5)) } else { None };
            let c: Option<Vec<u8>> = if r.pct(65) { Some((0..r.below(6)).flat_map(|_| [&b"first line\n"[..], b"crlf\r\n", b"\n", "zw\u{f6}lf \u{1f44d}\n".as_bytes(), b"broken \xff\xfe text\n", b"\"quoted\\\"\n", &[b"z".repeat(9000), b"\n".to_vec()].concat(), b"nul \0 inside\n"][r.below(8)].to_vec()).chain(if let Some(k) = open_end { [&b"last, not ended"[..], b"last\r", b"\r", b" \t", "\u{a0}ende\u{2028}".as_bytes()][k].to_vec() } else { vec![] }).collect()) } else { None };
            if let Some(c) = &c { std::fs::write(dir.0.join(&rel), c).unwrap(); }
            let name = if r.pct(25) { dir.0.join(&rel).to_string_lossy().into_owned() } else { rel };
            fs.files.push((name, c));
            fs.loose.push(false);
        }
        if on && r.pct(35) { fs.full.push(fs.files.len()); fs.files.push(("/dev/full".into(), Some(vec![]))); fs.loose.push(false); }
        let key = format!("f{s}");
        let nv = 1 + r.below(3);
        for v in 0..nv { globals.push((format!("{key}h{v}"), "0".to_string())); }
        let mut g = Gen { r: &mut *r, key, fs, vars: vec![None; nv], stmts: vec![blk("receiveGo", &[])], want: vec![], k: 0, on, ops: BTreeMap::new() };
        for _ in 0..4 + g.r.below(22) {
            let v = g.r.below(nv);
            match g.r.below(13) { 0 | 1 => g.open(), 2 => g.close(v), 3 | 4 | 5 | 6 | 7 => match g.vars[v] { Some(h) if g.fs.handles[h].write => g.write(v), Some(_) => g.read(v), None => g.open() }, 8 => g.read(v), 9 => g.write(v), 10 if g.r.pct(50) => g.stmts.push(wait("0")), _ => g.odd() }
        }
        let tidy = g.r.pct(80);
        for v in 0..nv { if let Some(h) = g.vars[v] { if g.fs.handles[h].open { if tidy { g.close(v); } else if g.fs.handles[h].write { let p = g.fs.handles[h].path; g.fs.loose[p] = true; } } } }
        for (i, (name, c)) in g.fs.files.iter().enumerate() { if let Some(c) = c { if !g.fs.full.contains(&i) { let rel = name.strip_prefix(&format!("{}/", dir.0.to_string_lossy())).unwrap_or(name).to_string(); if g.fs.loose[i] { loose.push(rel.clone()); } disk.insert(rel, c.clone()); } } }
        for (k, n) in std::mem::take(&mut g.ops) { cov.add(k, n); }
        scripts.push(top(&g.stmts));
        wants.push(g.want);
    }
    let role = Role { name: "r".into(), globals, stage_scripts: scripts, ..Default::default() };
    let text = room("files", &[role]);
    std::fs::write(&file, &text).unwrap();
    let mut a: Vec<String> = if on { vec!["--fs".into()] } else { vec![] };
    a.extend(["run".to_string(), file.to_string_lossy().into_owned(), "--server".into(), mock.base()]);
    let mut nb = Nb::spawn_in(&a, &dir.0);
    let total: usize = wants.iter().map(|w| w.len()).sum();
    let lines = |o: &str| -> Vec<String> { o[..o.rfind('\n').map(|i| i + 1).unwrap_or(0)].split('\n').filter(|l| l.starts_with("Entity ")).map(String::from).collect() };
    let (mut t, mut last) = (Instant::now(), 0);
    loop {
        let o = nb.out();
        if lines(&o).len() >= total { break }
        if let Some(c) = nb.ended() { return Err(format!("nb run ended with {c}: {} {}", nb.out(), nb.err())) }
        if o.len() != last { last = o.len(); t = Instant::now(); }
        if t.elapsed() > Duration::from_secs(20) || o.contains("runtime error") { return Err(format!("nb run stopped going on: {o}")) }
        std::thread::sleep(Duration::from_millis(2));
    }
    std::thread::sleep(Duration::from_millis(5));
    let o = nb.out();
    let got = lines(&o);
    if !nb.err().is_empty() { return Err(format!("nb run: {}", nb.err())) }
    let cut = |s: &str| -> String { s.chars().take(400).collect() };
    let mut at = vec![0; n];
    for l in &got {
        let Some(s) = (0..n).find(|s| l.starts_with(&format!("Entity \"Stage\" > [\"f{s}\","))) else { return Err(format!("unexpected line {}", cut(l))) };
        let Some(w) = wants[s].get(at[s]) else { return Err(format!("line too many: {}", cut(l))) };
        let ok = match w { Want::Line(x) => x == l, Want::Err(p, ws) => l.starts_with(p) && ws.iter().all(|w| l.contains(w.as_str())) };
        if !ok { return Err(format!("script f{s} printed {}\nexpected {}", cut(l), match w { Want::Line(x) => cut(x), Want::Err(p, ws) => format!("{p}... {ws:?}") })) }
        at[s] += 1;
    }
    if at.iter().sum::<usize>() != total { return Err(format!("{total} results were due, {at:?} came")) }
    // what is on disk
    let mut seen = vec![];
    for e in std::fs::read_dir(&dir.0).unwrap() {
        let e = e.unwrap();
        let name = e.file_name().to_string_lossy().into_owned();
        let c = std::fs::read(e.path()).unwrap();
        let Some(want) = disk.get(&name) else { return Err(format!("a file {name:?} was created that no script opened")) };
        let ok = if loose.contains(&name) { want.starts_with(&c) } else { *want == c };
        if !ok { return Err(format!("file {name:?} holds {} bytes, expected {}: {:?}\nexpected {:?}", c.len(), want.len(), cut(&String::from_utf8_lossy(&c)), cut(&String::from_utf8_lossy(want)))) }
        cov.add("bytes on disk compared", c.len() as u64);
        seen.push(name);
    }
    if let Some(m) = disk.keys().find(|k| !seen.contains(k)) { return Err(format!("file {m:?} is missing")) }
    cov.add("results compared", total as u64);
    cov.add("files compared", seen.len() as u64);
    let sig: String = got.iter().map(|l| l.chars().skip(16).take(40).collect::<String>()).collect::<Vec<_>>().join(" ");
    if cov.distinct(crate::rng::hash_str(&sig)) { cov.sample(|| cut(&sig)); }
    Ok(())
}
pub fn c33(cov: &mut Cov, seed: u64, _idx: u64, _thorough: bool) -> Res {
    let mut r = Rng::new(seed);
    match case(cov, &mut r) { Ok(()) => Res::Ok, Err(e) => Res::Violation(e) }
}
