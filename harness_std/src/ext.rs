//! C35: the browser extension, rendered by the crate and run by node against stand-ins for the editor.
use crate::check::*;
use crate::rng::*;
use netsblox_vm::template::{ExtensionArgs, SyscallMenu};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Duration;

struct Node { _child: Child, to: ChildStdin, from: BufReader<ChildStdout> }
thread_local! { static NODE: RefCell<Option<Node>> = const { RefCell::new(None) }; }
fn node(line: &str) -> Result<J, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let mut c = Command::new("node");
            c.args(["--max-old-space-size=400", "-e", include_str!("../ext/driver.js")]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
            let mut child = crate::check::bound_to_parent(&mut c).spawn().map_err(|e| format!("node: {e}"))?;
            *n = Some(Node { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), _child: child });
        }
        let x = n.as_mut().unwrap();
        let mut out = String::new();
        let r = x.to.write_all(line.as_bytes()).and_then(|_| x.to.write_all(b"\n")).and_then(|_| x.to.flush()).and_then(|_| x.from.read_line(&mut out));
        if r.is_err() || out.is_empty() { *n = None; return Err("node ended".into()); }
        serde_json::from_str(&out).map_err(|e| format!("node said {:?}: {e}", out.chars().take(200).collect::<String>()))
    })
}

const LABELS: &[&str] = &["open", "read line", "it's", "say \"hi\"", "back\\slash", "new\nline", "tab\t", "日本語", "👍🏽", "é", "${SERVER}", "`tick`", "</script>", "{brace}", "{}", "a:b,c", "\u{2028}", "\u{7f}", "\u{1b}[0m", "//x", "", " ", "constructor", "toString", "é̈"];
enum M { Entry(String, String), Sub(String, Vec<M>) }
fn menu(r: &mut Rng, depth: u32) -> Vec<M> {
    let n = r.below(if depth == 0 { 6 } else { 4 });
    let mut names: Vec<String> = vec![];
    for _ in 0..n { let s = if r.pct(60) { r.pick(LABELS).to_string() } else { format!("{}{}", r.pick(LABELS), r.below(100)) }; if !names.contains(&s) && s.parse::<u64>().is_err() && s != "__proto__" { names.push(s); } }
    names.into_iter().map(|l| if depth < 3 && r.pct(25) { M::Sub(l, menu(r, depth + 1)) } else if r.pct(50) { M::Entry(l.clone(), l) } else { M::Entry(l, r.pick(LABELS).to_string()) }).collect()
}
fn real(m: &[M]) -> Vec<SyscallMenu> { m.iter().map(|x| match x { M::Entry(l, v) if l == v => SyscallMenu::simple_entry(l.clone()), M::Entry(l, v) => SyscallMenu::Entry { label: l.clone(), value: v.clone() }, M::Sub(l, c) => SyscallMenu::Submenu { label: l.clone(), content: real(c) } }).collect() }
fn want(m: &[M]) -> J { J::Array(m.iter().map(|x| match x { M::Entry(l, v) => json!([l, v]), M::Sub(l, c) => json!([l, want(c)]) }).collect()) }

struct X { tag: &'static str, attrs: Vec<(&'static str, String)>, kids: Vec<X>, text: String }
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;") }
fn xml(r: &mut Rng, depth: u32) -> X {
    let tags = ["scene", "sprite", "thumbnail", "pentrails", "history", "replay", "thumbnail", "block", "l", "costume"];
    let n = if depth > 4 { 0 } else { r.below(5) };
    let mut attrs = vec![];
    if r.pct(50) { attrs.push(("name", r.pick(&["a", "x & y", "<b>", "say \"q\"", "日本"]).to_string())); }
    if r.pct(30) { attrs.push(("collabId", format!("item_{}", r.below(50)))); }
    let kids: Vec<X> = (0..n).map(|_| xml(r, depth + 1)).collect();
    let text = if kids.is_empty() && r.pct(50) { r.pick(&["some text", "a & b < c", "data:image/png;base64,AAAA", "日本"]).to_string() } else { String::new() };
    X { tag: if depth == 0 { "role" } else { tags[r.below(tags.len())] }, attrs, kids, text }
}
fn write(x: &X, omit: &[&str], out: &mut String, gone: &mut u64) {
    if omit.contains(&x.tag) { *gone += 1; return; }
    let mut inner = esc(&x.text);
    for k in &x.kids { write(k, omit, &mut inner, gone); }
    out.push('<'); out.push_str(x.tag);
    for (k, v) in &x.attrs { out.push_str(&format!(" {k}=\"{}\"", esc(v))); }
    if inner.is_empty() { out.push_str("/>"); } else { out.push('>'); out.push_str(&inner); out.push_str(&format!("</{}>", x.tag)); }
}

/// what is on screen: the blocks in the order the driver numbers them
struct Block { id: String, comment: Option<(usize, String)> }
fn tree(r: &mut Rng, depth: u32, blocks: &mut Vec<Block>, fam: &mut usize) -> J {
    let block = depth > 0 && r.pct(70);
    let mut id = String::new();
    let mut comment = J::Null;
    if block {
        if r.pct(85) { id = format!("item_{}", r.below(14)); }
        let c = if r.pct(15) { let t = format!("note {}", r.below(9)); comment = json!(t); *fam += 1; Some((*fam, t)) } else { None };
        blocks.push(Block { id: id.clone(), comment: c });
    }
    let n = if depth > 3 { 0 } else { r.below(4) };
    let kids: Vec<J> = (0..n).map(|_| tree(r, depth + 1, blocks, fam)).collect();
    json!({"block": block, "id": id, "comment": comment, "children": kids})
}
fn defs(r: &mut Rng, blocks: &mut Vec<Block>, fam: &mut usize) -> Vec<J> { (0..r.below(3)).map(|_| if r.pct(15) { J::Null } else { tree(r, 1, blocks, fam) }).collect() }

fn units(s: &str) -> Vec<u16> { s.encode_utf16().collect() }
fn sum(t: &[u16]) -> u32 { t.iter().fold(0u32, |h, c| h.wrapping_mul(31).wrapping_add(*c as u32)) }
const MAX: usize = 1024 * 1024;

#[derive(Clone, Copy, PartialEq)]
enum Loop { Off, At(u64), Flight }

pub fn c35(cov: &mut Cov, seed: u64, idx: u64, _thorough: bool) -> Res {
    let _ = idx;
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut fails: Vec<String> = vec![];
    let server = r.pick(&["http://127.0.0.1:6286", "http://example.org:80", "https://nb.example/x"]).to_string();
    let interval = [250u64, 1, 40, 1000, 250][r.below(5)];
    let m = menu(r, 0);
    let all = ["thumbnail", "pentrails", "history", "replay"];
    let omit: Vec<&str> = match r.below(4) { 0 => vec![], 1 => vec![all[r.below(4)]], _ => all.to_vec() };
    let menus = real(&m);
    let src = ExtensionArgs { server: &server, syscalls: &menus, omitted_elements: &omit, pull_interval: Duration::from_millis(interval) }.render();

    let mut blocks: Vec<Block> = vec![];
    let mut fam = 0;
    let world = tree(r, 0, &mut blocks, &mut fam);
    let global_blocks = defs(r, &mut blocks, &mut fam);
    let stage_blocks = defs(r, &mut blocks, &mut fam);
    let sprite_blocks: Vec<J> = (0..r.below(3)).map(|_| J::Array(defs(r, &mut blocks, &mut fam))).collect();

    // ---- the session and, as it is written, what each step must show ----
    struct Step { what: String, events: Vec<J>, text: Vec<u16>, toggle: Option<&'static str>, comments: Vec<Option<String>>, terminals: u64, hits: J }
    let mut ops: Vec<J> = vec![];
    let mut steps: Vec<Step> = vec![];
    let (mut now, mut loop_, mut on, mut open) = (0u64, Loop::Off, false, false);
    let mut text: Vec<u16> = vec![];
    let mut toggle: Option<&'static str> = None;
    let mut cur = String::from("");
    let mut got_project = false;
    let mut pulls = 0u64;
    let (mut n_err, mut n_missing, mut n_gone, mut n_clip) = (0u64, 0u64, 0u64, 0u64);
    let n = 6 + r.below(40);
    let mut line = 0;
    for k in 0..n {
        let mut ev: Vec<J> = vec![];
        let mut hits = J::Null;
        let pending_pull = loop_ == Loop::Flight;
        let choice = if k == 0 && r.pct(70) { 0 } else if !open { [0, 2, 7][r.below(3)] } else if pending_pull && r.pct(60) { 1 } else { [0, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 2][r.below(12)] };
        let (op, what) = match choice {
            0 => {
                if !open { open = true; toggle = Some("$"); loop_ = Loop::At(now + interval); }
                on = true;
                (json!({"op": "menu"}), "open the terminal".to_string())
            }
            1 if pending_pull => {
                let bad = r.pct(15);
                let body = if bad { r.pick(&["", "oops", "{}"]).to_string() } else {
                    let running = r.pct(60);
                    let output = match r.below(8) { 0 | 1 => String::new(), 2 if r.pct(4) => { let c = *r.pick(&["x", "é", "👍"]); c.repeat(300_000 + r.below(700_000)) } _ => (0..1 + r.below(3)).map(|_| { line += 1; format!("{line} {}\n", r.pick(&["hello", "日本 👍🏽", "\"q\" \\n", "<b>", "", "\u{0}", "\u{2028}"])) }).collect() };
                    let mut errors: Vec<J> = vec![];
                    for _ in 0..(if r.pct(40) { 1 + r.below(3) } else { 0 }) {
                        let vars = |r: &mut Rng, p: &str| -> (J, String) { let v: Vec<(String, String)> = (0..r.below(3)).map(|i| (format!("{p}{i}"), r.pick(&["1", "\"t\"", "[1,2]", ""]).to_string())).collect(); (J::Array(v.iter().map(|x| json!({"name": x.0, "value": x.1})).collect()), v.iter().map(|x| format!("{} = {}", x.0, x.1)).collect::<Vec<_>>().join("\n")) };
                        let (g, gt) = vars(r, "g");
                        let (f, ft) = vars(r, "f");
                        n_err += 1;
                        let cause = format!("{} {n_err}", r.pick(&["IndexOutOfBounds", "oops", "日本"]));
                        let mut locs: Vec<usize> = (0..18).collect();
                        r.shuffle(&mut locs);
                        locs.truncate(r.below(5));
                        fam += 1;
                        let mut trace = vec![];
                        for l in locs {
                            let id = format!("item_{l}");
                            let (lo, lt) = vars(r, "l");
                            trace.push(json!({"location": id, "locals": lo}));
                            if !blocks.iter().any(|b| b.id == id) { n_missing += 1; }
                            for b in 0..blocks.len() {
                                if blocks[b].id != id { continue; }
                                if let Some((old, _)) = &blocks[b].comment { let old = *old; for x in &mut blocks { if x.comment.as_ref().is_some_and(|c| c.0 == old) { x.comment = None; } } }
                                let vars: Vec<&str> = [&lt, &ft, &gt].into_iter().map(|x| x.as_str()).filter(|x| !x.is_empty()).collect();
                                blocks[b].comment = Some((fam, if vars.is_empty() { cause.clone() } else { format!("{cause}\n\n{}", vars.join("\n\n")) }));
                            }
                        }
                        errors.push(json!({"cause": cause, "entity": "Stage", "globals": g, "fields": f, "trace": trace}));
                    }
                    toggle = Some(if running { "pause" } else { "pointRight" });
                    text.extend(units(&output));
                    if text.len() > MAX { n_clip += 1; text.drain(..text.len() - MAX); }
                    json!({"running": running, "output": output, "errors": errors}).to_string()
                };
                loop_ = Loop::At(now + interval);
                hits = json!(1);
                (json!({"op": "reply", "path": "/pull", "status": if bad { *r.pick(&[500, 404, 0]) } else { 200 }, "body": body}), "answer a pull".into())
            }
            3 => { on = false; (json!({"op": "press", "button": "Close"}), "close".into()) }
            4 => { text.clear(); (json!({"op": "press", "button": "Clear"}), "clear".into()) }
            5 => { let (b, path, body) = *r.pick(&[("flag", "input", Some("start")), ("octagon", "input", Some("stop")), ("toggle", "toggle-paused", None)]); ev.push(json!(["xhr", "POST", format!("{server}/{path}"), body])); hits = json!(1); (json!({"op": "press", "button": b}), format!("press {b}")) }
            6 => { ev.push(json!(["open", format!("{server}/project"), "_blank"])); (json!({"op": "press", "button": "Download"}), "download".into()) }
            7 => { let x = xml(r, 0); cur.clear(); write(&x, &[], &mut cur, &mut 0); ops.push(json!({"op": "xml", "text": cur})); steps.push(Step { what: "edit".into(), events: vec![], text: text.clone(), toggle, comments: blocks.iter().map(|b| b.comment.as_ref().map(|c| c.1.clone())).collect(), terminals: open as u64, hits: J::Null });
                if !open { (json!({"op": "tick", "ms": 0}), "nothing".into()) } else {
                    let mut kept = String::new();
                    write(&x, &omit, &mut kept, &mut n_gone);
                    ev.push(json!(["xhr", "POST", format!("{server}/project"), kept]));
                    (json!({"op": "press", "button": "Upload"}), "upload".into())
                } }
            8 => { let b = r.below(blocks.len().max(1)); if b < blocks.len() { if let Some((old, _)) = blocks[b].comment { for x in &mut blocks { if x.comment.as_ref().is_some_and(|c| c.0 == old) { x.comment = None; } } hits = json!(true); } else { hits = json!(false); } (json!({"op": "destroy", "block": b}), "remove a comment".into()) } else { (json!({"op": "tick", "ms": 0}), "nothing".into()) } }
            9 if got_project => { got_project = false; let bad = r.pct(30); let t = format!("<project name=\"{}\"/>", r.below(9)); if !bad { ev.push(json!(["dropped", t])); } else { ev.push(json!(["alert"])); } (json!({"op": "reply", "path": "/project", "method": "GET", "status": if bad { 500 } else { 200 }, "body": t}), "answer the project request".into()) }
            _ => {
                let ms = [1, interval - 1, interval, interval + 1, 499, 500, 3 * interval + 7, 0][r.below(8)];
                let end = now + ms;
                loop {
                    // the project is asked for once, half a second after loading
                    let first = if now < 500 && end >= 500 && !got_project && !steps.iter().any(|s| s.events.iter().any(|e| e[1] == "GET")) && !ev.iter().any(|e| e[1] == "GET") { Some(500) } else { None };
                    let tick = if let Loop::At(t) = loop_ { if t <= end { Some(t) } else { None } } else { None };
                    match (first, tick) {
                        (Some(f), t) if t.is_none_or(|t| f <= t) => { ev.push(json!(["xhr", "GET", format!("{server}/project"), null])); got_project = true; }
                        (_, Some(t)) => if on { pulls += 1; ev.push(json!(["xhr", "POST", format!("{server}/pull"), null])); loop_ = Loop::Flight; } else { loop_ = Loop::At(t + interval); }
                        _ => break,
                    }
                }
                now = end;
                (json!({"op": "tick", "ms": ms}), format!("let {ms} ms pass"))
            }
        };
        ops.push(op);
        steps.push(Step { what, events: ev, text: text.clone(), toggle, comments: blocks.iter().map(|b| b.comment.as_ref().map(|c| c.1.clone())).collect(), terminals: open as u64, hits });
    }
    let got = match node(&json!({"src": src, "world": world, "globalBlocks": global_blocks, "stageBlocks": stage_blocks, "spriteBlocks": sprite_blocks, "ops": ops}).to_string()) { Ok(x) => x, Err(e) => return Res::Inconclusive(e) };
    if let Some(c) = got["crash"].as_str() { return Res::Inconclusive(format!("stand-in: {c}")); }
    if let Some(e) = got["loadError"].as_str() { return Res::Violation(format!("the extension does not load: {e}; menu {}", want(&m))); }
    if got["registered"] != 1 { return Res::Violation("the extension does not register itself once".into()); }
    if got["menu"] != want(&m) { fails.push(format!("syscall menu: expected {} observed {}", want(&m), got["menu"])); }
    if got["readonly"] != true { fails.push("the syscall menu can be typed into".into()); }
    let sel = json!([["nativeRunSyscall", "command", "syscall %syscall %exp"], ["nativeCallSyscall", "reporter", "syscall %syscall %exp"], ["nativeSyscallError", "reporter", "error"]]);
    if got["blocks"] != sel { fails.push(format!("blocks {}", got["blocks"])); }
    let names = json!(["nativeRunSyscall", "nativeCallSyscall", "nativeSyscallError"]);
    if got["palette"] != json!([["sprite", names], ["stage", names]]) { fails.push(format!("palette {}", got["palette"])); }
    let obs = got["steps"].as_array().unwrap();
    for (i, s) in steps.iter().enumerate() {
        let o = &obs[i];
        let mut bad = |m: String| fails.push(format!("step {i} ({}): {m}; steps before: {}", s.what, steps[..i].iter().map(|s| s.what.as_str()).collect::<Vec<_>>().join(", ")));
        // complaints on the console are free; an alert only has to come
        let ev: Vec<J> = o["events"].as_array().unwrap().iter().filter(|e| e[0] != "warn" && e[0] != "console-error").map(|e| if e[0] == "alert" { json!(["alert"]) } else { e.clone() }).collect();
        if ev != s.events { bad(format!("expected {} observed {}", J::Array(s.events.clone()), J::Array(ev))); break; }
        if o["terminals"] != s.terminals { bad(format!("{} terminals", o["terminals"])); break; }
        if s.terminals > 0 && (o["len"] != s.text.len() || o["sum"] != sum(&s.text)) { bad(format!("the terminal shows {} characters ending in {} instead of {} ending in {:?}", o["len"], o["tail"], s.text.len(), String::from_utf16_lossy(&s.text[s.text.len().saturating_sub(60)..]))); break; }
        if let Some(t) = s.toggle { if o["toggles"] != json!([t]) { bad(format!("the pause button shows {} instead of {t}", o["toggles"])); break; } }
        if !s.hits.is_null() && o["note"].as_u64().map(|n| n.min(1)).map(J::from).unwrap_or(o["note"].clone()) != s.hits { bad(format!("{} instead of {}", o["note"], s.hits)); break; }
        if o["comments"] != json!(s.comments) { let b = (0..s.comments.len()).find(|&b| o["comments"][b] != json!(s.comments[b])).unwrap_or(0); bad(format!("block {b} ({}) has the comment {} instead of {}", blocks[b].id, o["comments"][b], json!(s.comments[b]))); break; }
    }
    cov.add("steps", steps.len() as u64);
    cov.add("pulls", pulls);
    cov.add("errors shown", n_err);
    cov.add("trace entries without a block", n_missing);
    cov.add("elements omitted from uploads", n_gone);
    cov.add("outputs clipped", n_clip);
    cov.add("menu entries", m.len() as u64);
    cov.max("blocks on screen", blocks.len() as u64);
    cov.distinct(hash_str(&format!("{}{:?}", want(&m), steps.iter().map(|s| (&s.what, s.events.len(), s.text.len())).collect::<Vec<_>>())));
    cov.sample(|| steps.iter().map(|s| format!("{} -> {}", s.what, J::Array(s.events.clone()))).collect::<Vec<_>>().join("; "));
    if fails.is_empty() { Res::Ok } else { fails.truncate(3); Res::Violation(fails.join(" | ")) }
}
