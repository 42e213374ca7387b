//! C34: `nb run` on a terminal: a pseudo-terminal plays the user and watches the screen.
use crate::check::*;
use crate::cli::{Scratch, nb_path};
use crate::mock::*;
use crate::rng::*;
use crate::xml::{self, *};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, OwnedFd, AsRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type R<T> = Result<T, String>;
/// what was shown: finished lines, and every drawing of the bottom line as (row, prompt, input)
#[derive(Default, Clone)]
struct Screen { lines: Vec<String>, bars: Vec<(u32, String, String)>, odd: Vec<String> }
fn parse(b: &[u8]) -> Screen {
    let text = String::from_utf8_lossy(b);
    let (mut s, mut line) = (Screen::default(), String::new());
    let mut rest: &str = &text;
    while let Some(c) = rest.chars().next() {
        if c == '\u{1b}' {
            if let Some(x) = rest.strip_prefix("\u{1b}7") {
                let Some(e) = x.find("\u{1b}8") else { break };
                let seg = &x[..e];
                rest = &x[e + 2..];
                let bar = (|| {
                    let p = seg.strip_prefix("\u{1b}[")?;
                    let (row, p) = p.split_once(";1H")?;
                    let p = p.strip_prefix("\u{1b}[2K")?;
                    if p.is_empty() { return Some((row.parse().ok()?, String::new(), String::new())) }
                    let (q, i) = p.strip_prefix("\u{1b}[38;5;12m")?.split_once("\u{1b}[0m")?;
                    Some((row.parse().ok()?, q.to_string(), i.to_string()))
                })();
                match bar { Some(b) => s.bars.push(b), None => s.odd.push(seg.to_string()) }
                continue
            }
            let Some(e) = rest[1..].find(|c: char| c.is_ascii_alphabetic()) else { break };
            rest = &rest[e + 2..];
            continue
        }
        if c == '\n' { if line.ends_with('\r') { line.pop(); } else { s.odd.push(format!("line {line:?} ends without a carriage return")); } let l = std::mem::take(&mut line); if !l.is_empty() { s.lines.push(l); } } else { line.push(c); }
        rest = &rest[c.len_utf8()..];
    }
    s
}
struct Tty { child: Child, master: OwnedFd, out: Arc<Mutex<Vec<u8>>>, err: Arc<Mutex<Vec<u8>>>, before: libc::termios, slave: Option<OwnedFd>, done: Arc<AtomicU32>, syncs: u32 }
fn size(fd: i32, rows: u16) { let w = libc::winsize { ws_row: rows, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 }; unsafe { libc::ioctl(fd, libc::TIOCSWINSZ, &w); } }
fn attrs(fd: i32) -> libc::termios { unsafe { let mut t = std::mem::zeroed(); libc::tcgetattr(fd, &mut t); t } }
impl Tty {
    fn start(args: &[String], rows: u16) -> R<Tty> {
        let (mut m, mut s) = (0, 0);
        if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) } != 0 { return Err("harness: no pseudo-terminal".into()) }
        let (master, slave) = unsafe { (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s)) };
        unsafe { libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC); libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC); }
        size(m, rows);
        let before = attrs(s);
        let io = || Stdio::from(slave.try_clone().unwrap());
        let mut c = Command::new(nb_path());
        c.args(args).current_dir(std::env::temp_dir()).stdin(io()).stdout(io()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").env("TERM", "xterm").env_remove("NO_COLOR");
        unsafe { c.pre_exec(|| { if libc::setsid() < 0 || libc::ioctl(0, libc::TIOCSCTTY, 0) < 0 { return Err(std::io::Error::last_os_error()) } Ok(()) }); }
        let mut child = crate::check::bound_to_parent(&mut c).spawn().map_err(|e| format!("harness: nb does not start: {e}"))?;
        drop(c);
        let (out, err): (Arc<Mutex<Vec<u8>>>, Arc<Mutex<Vec<u8>>>) = Default::default();
        let done: Arc<AtomicU32> = Default::default();
        fn pump(mut r: impl Read + Send + 'static, to: Arc<Mutex<Vec<u8>>>, done: Arc<AtomicU32>) { std::thread::spawn(move || { let mut b = [0u8; 8192]; while let Ok(n) = r.read(&mut b) { if n == 0 { break } to.lock().unwrap().extend(&b[..n]); } done.fetch_add(1, SeqCst); }); }
        pump(std::fs::File::from(master.try_clone().unwrap()), out.clone(), done.clone());
        pump(child.stderr.take().unwrap(), err.clone(), done.clone());
        Ok(Tty { child, master, out, err, before, slave: Some(slave), done, syncs: 0 })
    }
    fn screen(&self) -> Screen { let b = self.out.lock().unwrap().clone(); parse(&b) }
    fn send(&self, s: &str) -> R<()> { std::fs::File::from(self.master.try_clone().unwrap()).write_all(s.as_bytes()).map_err(|e| format!("harness: {e}")) }
    /// one of two keys in turn, until its line is there: the scripts of the keys before have had their turns and are over
    fn sync(&mut self) -> R<()> {
        let k = ["y", "z"][self.syncs as usize % 2];
        self.syncs += 1;
        let want = (self.syncs + 1) / 2;
        self.send(k)?;
        let what = format!("[\"key\",{k:?}]");
        let want = if k == "y" { want } else { self.syncs / 2 };
        self.wait(&format!("the hat of key {k}"), 120, |s| s.lines.iter().filter(|l| l.contains(&what)).count() >= want as usize)
    }
    /// the program has ended: all it wrote is read, and the terminal is as it was
    fn ended(&mut self) -> R<()> {
        let now = attrs(self.slave.as_ref().unwrap().as_raw_fd());
        if (now.c_iflag, now.c_oflag, now.c_cflag, now.c_lflag) != (self.before.c_iflag, self.before.c_oflag, self.before.c_cflag, self.before.c_lflag) { return Err("the terminal was left in another mode".into()) }
        self.slave = None;
        let t = Instant::now();
        while self.done.load(SeqCst) < 2 { if t.elapsed() > Duration::from_secs(20) { return Err("harness: the terminal does not close".into()) } std::thread::sleep(Duration::from_millis(1)); }
        let o = self.out.lock().unwrap();
        let (show, hide) = (o.windows(6).rposition(|w| w == b"\x1b[?25h"), o.windows(6).rposition(|w| w == b"\x1b[?25l"));
        if show < hide { return Err("the cursor was left hidden".into()) }
        Ok(())
    }
    fn tail(&self) -> String { let s = self.screen(); let n = s.lines.len().saturating_sub(12); let k = s.bars.len().saturating_sub(4); format!("... {:?} {:?} {}", &s.lines[n..], &s.bars[k..], String::from_utf8_lossy(&self.err.lock().unwrap())) }
    /// patience ends when nothing new was shown for 20 s, or after two minutes
    fn wait(&mut self, what: &str, secs: u64, mut done: impl FnMut(&Screen) -> bool) -> R<()> {
        let (mut t, mut n, t0) = (Instant::now(), 0, Instant::now());
        loop {
            if done(&self.screen()) { return Ok(()) }
            if let Ok(Some(c)) = self.child.try_wait() { return Err(format!("nb run ended with {c} while waiting for {what}: {}", self.tail())) }
            let m = self.out.lock().unwrap().len();
            if m != n { n = m; t = Instant::now(); }
            if t.elapsed() > Duration::from_secs(20) || t0.elapsed() > Duration::from_secs(secs) { return Err(format!("waited in vain for {what}: {}", self.tail())) }
            std::thread::sleep(Duration::from_micros(1500));
        }
    }
}
impl Drop for Tty { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

const KEYS: [(&str, &str, &str); 9] = [("a", "a", "A"), ("b", "b", "B"), ("7", "7", "7"), ("space", " ", " "), ("up arrow", "\u{1b}[A", "\u{1b}[A"), ("down arrow", "\u{1b}[B", "\u{1b}[B"), ("left arrow", "\u{1b}[D", "\u{1b}[D"), ("right arrow", "\u{1b}[C", "\u{1b}[C"), ("q", "q", "Q")];
fn typed(r: &mut Rng) -> (Vec<String>, String) {
    let chars = ["a", "b", "q", "7", " ", "Z", "é", "日", "👍", "\"", "\\", "<", "-", "x"];
    let (mut keys, mut text) = (vec![], vec![]);
    for _ in 0..r.below(9) { if r.pct(22) { keys.push("\u{7f}".to_string()); text.pop(); } else { let c = chars[r.below(chars.len())]; keys.push(c.to_string()); text.push(c); } }
    (keys, text.concat())
}
fn case(cov: &mut Cov, r: &mut Rng) -> R<()> {
    let mock = Mock::start();
    let other = Scratch::new();
    let file = other.0.join("project.xml");
    xml::reset_ids();
    let n = r.below(4);
    let ticks = r.pct(50);
    let fails = r.pct(30);
    let (mut stage, mut sprite, mut asks) = (vec![], vec![], vec![]);
    let add = |r: &mut Rng, s: String, stage: &mut Vec<String>, sprite: &mut Vec<String>| if r.pct(50) { stage.push(s); "Stage" } else { sprite.push(s); "Cat \"1\"" };
    // the scripts of the stage come first, then those of the sprite
    let (mut owners, mut silent) = (vec![], r.pct(30)); // one question at most has no text
    for i in 0..n {
        let k = format!("ask{i}");
        let m = 1 + r.below(4);
        let prompts: Vec<Option<String>> = (0..m).map(|j| if silent && r.pct(20) { silent = false; None } else { Some(format!("{} {k} {j}?", ["What", "Wie heißt du", "数", "a \"b\""][r.below(4)])) }).collect();
        let mut st = vec![blk("receiveGo", &[])];
        for (j, p) in prompts.iter().enumerate() { st.push(blk("doAsk", &[lit(p.as_deref().unwrap_or(""))])); st.push(say(list(&[lit(&k), lit(&j.to_string()), blk("getLastAnswer", &[])]))); }
        let own = add(r, top(&st), &mut stage, &mut sprite);
        owners.push(own);
        asks.push(prompts);
    }
    let mut hats: Vec<(usize, &str)> = vec![];
    for k in 0..KEYS.len() - 1 { if r.pct(45) { let s = top(&[blk("receiveKey", &[opt(KEYS[k].0)]), say(list(&[lit("key"), lit(KEYS[k].0)]))]); let o = add(r, s, &mut stage, &mut sprite); hats.push((k, o)); } }
    let any = r.pct(30);
    if any { let s = top(&[blk("receiveKey", &[opt("any key")]), say(list(&[lit("key"), lit("any")]))]); add(r, s, &mut stage, &mut sprite); }
    let q = r.pct(50);
    let mut qown = "";
    if q { let s = top(&[blk("receiveKey", &[opt("q")]), blk("doAsk", &[lit("from q?")]), say(list(&[lit("q"), blk("getLastAnswer", &[])]))]); qown = add(r, s, &mut stage, &mut sprite); }
    for k in ["y", "z"] { stage.push(top(&[blk("receiveKey", &[opt(k)]), say(list(&[lit("key"), lit(k)]))])); }
    if ticks { stage.push(top(&[blk("receiveGo", &[]), blk("doForever", &[script(&[wait("0.01"), blk("doChangeVar", &[lit("t"), lit("1")]), say(list(&[lit("tick"), var("t")]))])])])); }
    if fails { stage.push(top(&[blk("receiveGo", &[]), blk("doThrow", &[lit("boom")]), say(lit("never"))])); }
    let bad = r.pct(6);
    if bad { stage.push(top(&[blk("receiveGo", &[]), blk("bounceOffEdge", &[])])); }
    let role = Role { name: "r".into(), globals: vec![("t".into(), "0".into())], stage_scripts: stage, sprites: vec![Sprite { name: "Cat \"1\"".into(), scripts: sprite }], ..Default::default() };
    std::fs::write(&file, room("on a terminal", &[role])).unwrap();
    let mut rows = if r.pct(8) { 0 } else { 10 + r.below(40) as u16 }; // some terminals do not tell their size
    let mut t = Tty::start(&["run".into(), file.to_string_lossy().into_owned(), "--server".into(), mock.base()], rows)?;
    let mut presses = 0u64;
    if bad {
        let t0 = Instant::now();
        let code = loop { if let Ok(Some(c)) = t.child.try_wait() { break c } if t0.elapsed() > Duration::from_secs(30) { return Err(format!("a project that cannot run does not end: {}", t.tail())) } std::thread::sleep(Duration::from_millis(2)); };
        t.ended()?;
        let s = t.screen();
        if code.code() != Some(0) || !s.lines.iter().any(|l| l.contains("BounceOffEdge")) || !t.err.lock().unwrap().is_empty() { return Err(format!("a project that cannot run ended with {code}: {}", t.tail())) }
        cov.add("unusable projects refused", 1);
        return Ok(());
    }
    // questions: the scripts of the stage run before those of the sprite, each in their order
    let mut order: Vec<usize> = (0..n).filter(|i| owners[*i] == "Stage").collect();
    order.extend((0..n).filter(|i| owners[*i] != "Stage"));
    let mut queue: VecDeque<(usize, usize)> = order.into_iter().map(|i| (i, 0)).collect();
    let mut said: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let shown = |o: &str, p: &Option<String>| format!("Entity {o:?} {p:?} > ");
    let give_up = if r.pct(20) { Some(r.below(4)) } else { None };
    let mut answered = 0;
    t.wait("the public id", 60, |s| s.lines.first().is_some_and(|l| l.starts_with("public id: on a terminal@")))?;
    while let Some((i, j)) = queue.pop_front() {
        let bar = shown(owners[i], &asks[i][j]);
        t.wait(&format!("question {bar:?}"), 120, |s| s.bars.last().is_some_and(|b| b.1 == bar && b.2.is_empty()))?;
        if give_up == Some(answered) { queue.push_front((i, j)); break }
        if r.pct(15) { rows = if r.pct(8) { 0 } else if rows > 30 { rows - 7 } else { rows + 2 + r.below(15) as u16 }; size(t.master.as_raw_fd(), rows); t.wait("the bottom line to move", 120, |s| s.bars.last().is_some_and(|b| b.0 == rows.max(1) as u32))?; cov.add("resizes", 1); }
        let (keys, text) = typed(r);
        presses += keys.len() as u64 + 1;
        if r.pct(25) { t.send(["\u{1b}[A", "\u{1b}[D", "\u{1b}[C", "\u{1b}[B"][r.below(4)])?; presses += 1; }
        let mut go = keys.concat();
        if r.pct(40) { for k in &keys { t.send(k)?; if r.pct(30) { std::thread::sleep(Duration::from_micros(700)); } } go.clear(); }
        else if r.pct(50) { t.send(&go)?; go.clear(); }
        if go.is_empty() && r.pct(70) { t.wait(&format!("{bar}{text} on the bottom line"), 120, |s| s.bars.last().is_some_and(|b| b.1 == bar && b.2 == text))?; }
        go.push('\r');
        said.entry(format!("{}|ask{i}", owners[i])).or_default().push(format!("[\"ask{i}\",\"{j}\",{text:?}]"));
        if j + 1 < asks[i].len() { queue.push_back((i, j + 1)); }
        answered += 1;
        // the next question is already waiting: answer it in the same breath
        if let Some((i2, j2)) = queue.front().copied() { if i2 != i && r.pct(40) {
            let (keys, text) = typed(r);
            presses += keys.len() as u64 + 1;
            go += &keys.concat();
            go.push('\r');
            queue.pop_front();
            said.entry(format!("{}|ask{i2}", owners[i2])).or_default().push(format!("[\"ask{i2}\",\"{j2}\",{text:?}]"));
            // whose next question comes first is settled: both are asked in the turn order of the scripts
            let again = |x: (usize, usize)| x.1 + 1 < asks[x.0].len();
            let back = if j + 1 < asks[i].len() { queue.pop_back() } else { None };
            let mut both: Vec<(usize, usize)> = vec![];
            if let Some(b) = back { both.push(b); }
            if again((i2, j2)) { both.push((i2, j2 + 1)); }
            let both_again = both.len() == 2;
            queue.extend(both);
            answered += 1;
            cov.add("answers in one burst", 1);
            t.send(&go)?;
            if both_again {
                // the two may be read in one go or not; ask the screen which of them is ahead
                let (x, y) = (queue[queue.len() - 2], queue[queue.len() - 1]);
                if queue.len() == 2 {
                    let (bx, by) = (shown(owners[x.0], &asks[x.0][x.1]), shown(owners[y.0], &asks[y.0][y.1]));
                    let (wx, wy) = (said[&format!("{}|ask{}", owners[i], i)].len(), said[&format!("{}|ask{}", owners[i2], i2)].len());
                    let (ki, k2) = (format!("[\"ask{i}\","), format!("[\"ask{i2}\","));
                    t.wait("the two answers", 120, |s| s.lines.iter().filter(|l| l.contains(&ki)).count() >= wx && s.lines.iter().filter(|l| l.contains(&k2)).count() >= wy && s.bars.last().is_some_and(|b| b.1 == bx || b.1 == by))?;
                    if t.screen().bars.last().unwrap().1 == by && bx != by { queue.swap(0, 1); }
                } else { order_unknown(&mut t, &mut queue, &asks, &owners, r, &mut said, &mut presses)?; }
            }
            continue
        } }
        t.send(&go)?;
    }
    let due: usize = said.values().map(|v| v.len()).sum();
    t.wait("the answers and the error", 120, |s| s.lines.iter().filter(|l| l.contains("[\"ask")).count() >= due && (!fails || s.lines.iter().any(|l| l.contains("boom"))))?;
    let stale = queue.len();
    let stopped = if stale > 0 || ticks && r.pct(60) {
        // Escape stops everything; keys after it still count
        let mut ok = false;
        for k in 0..6u64 {
            t.send("\u{1b}")?;
            std::thread::sleep(Duration::from_millis(40 << (k * 2).min(6)));
            if stale > 0 && k == 0 {
                // questions whose script was stopped: answering them does nothing
                for _ in 0..stale { t.send("x\r")?; }
                presses += 2 * stale as u64;
                t.wait("the stale questions to go", 120, |s| s.bars.last().is_some_and(|b| b.1.is_empty()))?;
            }
            t.sync()?;
            if ticks { std::thread::sleep(Duration::from_millis(60)); }
            let s = t.screen();
            let at = s.lines.iter().rposition(|l| l.contains("[\"key\",\"z\"]") || l.contains("[\"key\",\"y\"]")).unwrap();
            if !ticks || !s.lines[at..].iter().any(|l| l.contains("[\"tick\",")) { ok = true; break }
        }
        if !ok { return Err(format!("Escape was pressed six times and the project still runs: {}", t.tail())) }
        cov.add("stopped by Escape", 1);
        true
    } else { false };
    if n > 0 && !stopped { t.wait("the bottom line to be empty", 120, |s| s.bars.last().is_some_and(|b| b.1.is_empty()))?; }
    // keys
    let count = |s: &Screen, what: &str| s.lines.iter().filter(|l| l.contains(what)).count();
    let mut want: BTreeMap<&str, usize> = BTreeMap::new();
    let (mut wq, mut pressed) = (vec![], 0);
    for _ in 0..r.below(8) {
        let k = r.below(KEYS.len());
        let key = if r.pct(30) { KEYS[k].2 } else { KEYS[k].1 };
        if r.pct(20) { t.send(["\r", "\u{7f}", "\t"][r.below(3)])?; }
        t.send(key)?;
        presses += 1;
        pressed += 1;
        if k == KEYS.len() - 1 {
            if q {
                let bar = shown(qown, &Some("from q?".into()));
                t.wait("the question of key q", 120, |s| s.bars.last().is_some_and(|b| b.1 == bar && b.2.is_empty()))?;
                let (keys, text) = typed(r);
                t.send(&format!("{}\r", keys.concat()))?;
                presses += keys.len() as u64 + 1;
                wq.push(format!("[\"q\",{text:?}]"));
                let m = wq.len();
                t.wait("the answer of key q", 120, |s| count(s, "[\"q\",") >= m && s.bars.last().is_some_and(|b| b.1.is_empty()))?;
            }
        } else if hats.iter().any(|h| h.0 == k) { *want.entry(KEYS[k].0).or_default() += 1; }
        for (name, m) in &want { let what = format!("[\"key\",{name:?}]"); t.wait(&format!("the hat of key {name}"), 120, |s| count(s, &what) >= *m)?; }
        t.sync()?; // a key for a script still running would be dropped
    }
    if ticks && !stopped { let a = count(&t.screen(), "[\"tick\","); t.wait("the clock script", 120, |s| count(s, "[\"tick\",") > a + 1)?; }
    t.send("\u{3}")?;
    let t0 = Instant::now();
    let code = loop { if let Ok(Some(c)) = t.child.try_wait() { break c } if t0.elapsed() > Duration::from_secs(20) { return Err(format!("Ctrl-C does not end the program: {}", t.tail())) } std::thread::sleep(Duration::from_millis(1)); };
    t.ended()?;
    if code.code() != Some(0) || !t.err.lock().unwrap().is_empty() { return Err(format!("nb run ended with {code}: {}", t.tail())) }
    let s = t.screen();
    if !s.odd.is_empty() { return Err(format!("strange output {:?}", s.odd)) }
    let mut tick = 0;
    let mut boom = 0;
    let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut keys: BTreeMap<String, usize> = BTreeMap::new();
    let mut gq = vec![];
    for l in s.lines.iter().skip(1) {
        if l.starts_with(">>> runtime error: ") && l.contains("boom") { boom += 1; continue }
        let Some((e, v)) = l.split_once(" > ") else { return Err(format!("unexpected line {l:?}")) };
        let Some(e) = ["Stage", "Cat \"1\""].into_iter().find(|o| format!("Entity {o:?}") == e) else { return Err(format!("unexpected line {l:?}")) };
        if let Some(x) = v.strip_prefix("[\"tick\",") { tick += 1; if x != format!("{tick}]") { return Err(format!("the clock script said {v} as its line {tick}")) } }
        else if v.starts_with("[\"ask") { got.entry(format!("{e}|{}", &v[2..6])).or_default().push(v.to_string()); }
        else if v.starts_with("[\"q\",") { if e != qown { return Err(format!("unexpected line {l:?}")) } gq.push(v.to_string()); }
        else if let Some(x) = v.strip_prefix("[\"key\",\"").and_then(|x| x.strip_suffix("\"]")) { *keys.entry(x.to_string()).or_default() += 1; }
        else { return Err(format!("unexpected line {l:?}")) }
    }
    if got != said { return Err(format!("the scripts were given {got:?}, typed was {said:?}")) }
    if gq != wq { return Err(format!("the script of key q was given {gq:?}, typed was {wq:?}")) }
    // every key that is not an answer runs the hat of any key, unless that is still running
    let anys = keys.remove("any").unwrap_or(0);
    let syncs = keys.remove("y").unwrap_or(0) + keys.remove("z").unwrap_or(0);
    if syncs != t.syncs as usize { return Err(format!("{} keys y and z were pressed, their hats ran {syncs} times", t.syncs)) }
    if anys > if any { pressed + syncs } else { 0 } || any && pressed + syncs > 0 && anys == 0 { return Err(format!("the hat of any key ran {anys} times, {} keys were pressed", pressed + syncs)) }
    let w: BTreeMap<String, usize> = want.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    if keys != w { return Err(format!("the key hats ran {keys:?}, the keys pressed call for {w:?}")) }
    if boom != usize::from(fails) { return Err(format!("{boom} errors were shown, there was {}", usize::from(fails))) }
    cov.add("answers compared", said.values().map(|v| v.len() as u64).sum::<u64>() + wq.len() as u64);
    cov.add("key hats compared", keys.values().map(|v| *v as u64).sum());
    cov.add("keys pressed", presses);
    cov.add("bottom lines read", s.bars.len() as u64);
    cov.add("lines read", s.lines.len() as u64);
    let sig = s.lines.iter().filter(|l| !l.contains("tick")).skip(1).map(|l| l.split_once(" > ").map(|x| x.1).unwrap_or("E")).collect::<Vec<_>>().join(" ");
    if cov.distinct(crate::rng::hash_str(&sig)) { cov.sample(|| sig.chars().take(300).collect()); }
    Ok(())
}
/// both last questions of the queue were asked after a burst, in an order only the screen can tell: answer what is ahead of
/// them, then look
fn order_unknown(t: &mut Tty, queue: &mut VecDeque<(usize, usize)>, asks: &[Vec<Option<String>>], owners: &[&str], r: &mut Rng, said: &mut BTreeMap<String, Vec<String>>, presses: &mut u64) -> R<()> {
    let shown = |x: (usize, usize)| format!("Entity {:?} {:?} > ", owners[x.0], asks[x.0][x.1]);
    let mut later = vec![];
    while queue.len() > 2 {
        let x = queue.pop_front().unwrap();
        let bar = shown(x);
        t.wait(&format!("question {bar:?}"), 120, |s| s.bars.last().is_some_and(|b| b.1 == bar && b.2.is_empty()))?;
        let (keys, text) = typed(r);
        *presses += keys.len() as u64 + 1;
        said.entry(format!("{}|ask{}", owners[x.0], x.0)).or_default().push(format!("[\"ask{}\",\"{}\",{text:?}]", x.0, x.1));
        let what = format!("[\"ask{}\",\"{}\",", x.0, x.1);
        t.send(&format!("{}\r", keys.concat()))?;
        t.wait("the answer", 120, |s| s.lines.iter().any(|l| l.contains(&what)))?;
        if x.1 + 1 < asks[x.0].len() { later.push((x.0, x.1 + 1)); }
    }
    let (bx, by) = (shown(queue[0]), shown(queue[1]));
    t.wait("one of the two questions", 120, |s| s.bars.last().is_some_and(|b| b.1 == bx || b.1 == by))?;
    if t.screen().bars.last().unwrap().1 == by && bx != by { queue.swap(0, 1); }
    queue.extend(later);
    Ok(())
}
pub fn c34(cov: &mut Cov, seed: u64, _idx: u64, _thorough: bool) -> Res {
    let mut r = Rng::new(seed);
    match case(cov, &mut r) { Ok(()) => Res::Ok, Err(e) if e.starts_with("harness: ") => Res::Inconclusive(e), Err(e) => Res::Violation(e) }
}
