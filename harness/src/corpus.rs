//! Real projects and blocks (as the editor saves them), mutated at the level of the saved file, parsed, and run like any generated case.
use crate::battery::random_text;
use crate::check::*;
use crate::host::*;
use crate::model::*;
use crate::progs::*;
use crate::rng::*;
use crate::run::*;
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK};
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::runtime::KeyCode;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub enum Node { El { tag: String, attrs: Vec<(String, String)>, kids: Vec<Node> }, Text(String) }
impl Node {
    pub fn write(&self, out: &mut String) {
        match self {
            Node::Text(t) => out.push_str(t),
            Node::El { tag, attrs, kids } => {
                out.push('<'); out.push_str(tag);
                for (k, v) in attrs { out.push(' '); out.push_str(k); out.push_str("=\""); out.push_str(v); out.push('"'); }
                if kids.is_empty() { out.push_str("/>"); return; }
                out.push('>');
                for k in kids { k.write(out); }
                out.push_str("</"); out.push_str(tag); out.push('>');
            }
        }
    }
    fn tag(&self) -> &str { match self { Node::El { tag, .. } => tag, Node::Text(_) => "" } }
    fn attr(&self, k: &str) -> Option<&str> { match self { Node::El { attrs, .. } => attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()), _ => None } }
    fn kids(&self) -> &[Node] { match self { Node::El { kids, .. } => kids, _ => &[] } }
    fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) { f(self); for k in self.kids() { k.walk(f); } }
    fn count(&self, p: &dyn Fn(&Node) -> bool) -> usize { let mut n = 0; self.walk(&mut |x| if p(x) { n += 1; }); n }
    /// the n-th node (in document order) for which p holds
    fn nth(&mut self, p: &dyn Fn(&Node) -> bool, n: &mut usize) -> Option<&mut Node> {
        if p(self) { if *n == 0 { return Some(self); } *n -= 1; }
        match self { Node::El { kids, .. } => kids.iter_mut().find_map(|k| k.nth(p, n)), _ => None }
    }
}
/// reads well-formed XML (of the kind the editor writes); texts and attributes stay escaped
pub fn read(s: &str) -> Vec<Node> {
    let b = s.as_bytes();
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Node>)> = vec![(String::new(), vec![], vec![])];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            let e = s[i..].find('<').map(|x| i + x).unwrap_or(b.len());
            let t = &s[i..e];
            if !t.trim().is_empty() { stack.last_mut().unwrap().2.push(Node::Text(t.into())); }
            i = e;
        } else if s[i..].starts_with("<?") || s[i..].starts_with("<!") { i = s[i..].find('>').map(|x| i + x + 1).unwrap_or(b.len()); }
        else if b[i + 1] == b'/' {
            i = s[i..].find('>').map(|x| i + x + 1).unwrap_or(b.len());
            let (tag, attrs, kids) = stack.pop().unwrap();
            stack.last_mut().unwrap().2.push(Node::El { tag, attrs, kids });
        } else {
            let mut j = i + 1;
            while !b" \n\r\t/>".contains(&b[j]) { j += 1; }
            let tag = s[i + 1..j].to_string();
            let mut attrs = vec![];
            loop {
                while b" \n\r\t".contains(&b[j]) { j += 1; }
                if b[j] == b'>' || b[j] == b'/' { break; }
                let k = j + s[j..].find('=').unwrap();
                let q = k + 2 + s[k + 2..].find(b[k + 1] as char).unwrap();
                let v = &s[k + 2..q];
                attrs.push((s[j..k].trim().to_string(), if v.len() > 2000 { "data:audio/mp3;base64,AAAA".into() } else { v.to_string() }));
                j = q + 1;
            }
            if b[j] == b'/' { stack.last_mut().unwrap().2.push(Node::El { tag, attrs, kids: vec![] }); i = j + 2; } else { stack.push((tag, attrs, vec![])); i = j + 1; }
        }
    }
    stack.swap_remove(0).2
}

pub struct File { pub name: String, pub roots: Vec<Node>, pub blocks: bool }
pub struct Corpus { pub files: Vec<File>, pub selectors: [Vec<String>; 2], pub pieces: [Vec<Node>; 2], pub options: Vec<String> }
pub fn corpus() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| {
        let mut names: Vec<_> = std::fs::read_dir(concat!(env!("CARGO_MANIFEST_DIR"), "/../corpus")).expect("corpus").map(|e| e.unwrap().path()).collect();
        names.sort();
        let mut c = Corpus { files: vec![], selectors: [vec![], vec![]], pieces: [vec![], vec![]], options: vec![] };
        for p in names {
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            let roots = read(&std::fs::read_to_string(&p).unwrap());
            for r in &roots { r.walk(&mut |n| {
                if n.tag() == "option" { for k in n.kids() { if let Node::Text(t) = k { if !c.options.contains(t) { c.options.push(t.clone()); } } } }
                for k in n.kids() {
                    if !is_block(k) { continue; }
                    let cat = (n.tag() == "script" && !reports(k)) as usize;
                    if let Some(s) = k.attr("s") { if !c.selectors[cat].iter().any(|x| x == s) { c.selectors[cat].push(s.into()); } }
                    if k.count(&|_| true) < 60 { c.pieces[cat].push(k.clone()); }
                }
            }); }
            c.files.push(File { blocks: !name.starts_with("proj-"), name, roots });
        }
        c
    })
}
fn is_block(n: &Node) -> bool { matches!(n.tag(), "block" | "l" | "custom-block") }
/// blocks that make no sense as statements
fn reports(n: &Node) -> bool { n.tag() == "l" || n.attr("var").is_some() || n.attr("s").is_some_and(|s| s.starts_with("report") || s.starts_with("reify")) }
/// the n-th place a block of the category is at
fn place<'a>(x: &'a mut Node, cat: usize, n: &mut usize) -> Option<&'a mut Node> {
    let script = x.tag() == "script";
    let Node::El { kids, .. } = x else { return None };
    for k in kids {
        if is_block(k) && (script && !reports(k)) as usize == cat { if *n == 0 { return Some(k); } *n -= 1; }
        if let Some(f) = place(k, cat, n) { return Some(f); }
    }
    None
}
fn places(x: &Node, cat: usize) -> usize { let script = x.tag() == "script"; x.kids().iter().map(|k| (is_block(k) && (script && !reports(k)) as usize == cat) as usize + places(k, cat)).sum() }
fn esc(s: &str) -> String { s.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), c if (c as u32) < 32 => format!("&#x{:X};", c as u32), c => c.to_string() }).collect() }
fn lit(r: &mut Rng) -> Node {
    let t = match r.below(4) { 0 => random_text(r), 1 => r.range(-3, 30).to_string(), 2 => (*r.pick(&["0", "1", "2", "10", "-1", "0.5", "last", "random", "x", "1e3", "", "true"])).into(), _ => format!("{}", r.range(0, 5)) };
    Node::El { tag: "l".into(), attrs: vec![], kids: vec![Node::Text(esc(&t))] }
}
/// one change somewhere in the file
fn mutate(r: &mut Rng, roots: &mut Node) {
    let c = corpus();
    let block = |n: &Node| n.tag() == "block" && n.attr("s").is_some();
    let at = |r: &mut Rng, root: &Node, p: &dyn Fn(&Node) -> bool| { let n = root.count(p); if n == 0 { None } else { Some(r.below(n)) } };
    match r.weighted(&[12, 3, 14, 1, 1, 3, 3, 8, 4, 1]) {
        0 => { if let Some(mut k) = at(r, roots, &|n| n.tag() == "l") { *roots.nth(&|n| n.tag() == "l", &mut k).unwrap() = lit(r); } }
        1 => { let cat = r.below(2); let n = places(roots, cat); if n > 0 { let s = r.pick(&c.selectors[cat]).clone(); if let Some(Node::El { attrs, .. }) = place(roots, cat, &mut r.below(n)) { for a in attrs { if a.0 == "s" { a.1 = s.clone(); } } } } }
        2 => { let cat = r.below(2); let n = places(roots, cat); if n > 0 { *place(roots, cat, &mut r.below(n)).unwrap() = r.pick(&c.pieces[cat]).clone(); } }
        // children of a block: left out, doubled, exchanged
        3 => { if let Some(mut k) = at(r, roots, &block) { if let Some(Node::El { kids, .. }) = roots.nth(&block, &mut k) { if !kids.is_empty() { let i = r.below(kids.len()); kids.remove(i); } } } }
        4 => { if let Some(mut k) = at(r, roots, &block) { if let Some(Node::El { kids, .. }) = roots.nth(&block, &mut k) { if !kids.is_empty() { let i = r.below(kids.len()); let x = kids[i].clone(); kids.insert(i, x); } } } }
        5 => { if let Some(mut k) = at(r, roots, &block) { if let Some(Node::El { kids, .. }) = roots.nth(&block, &mut k) { if kids.len() > 1 { let i = r.below(kids.len()); let j = r.below(kids.len()); kids.swap(i, j); } } } }
        6 => { if let Some(mut k) = at(r, roots, &|n| n.tag() == "option") { if let Some(Node::El { kids, .. }) = roots.nth(&|n| n.tag() == "option", &mut k) { *kids = vec![Node::Text(r.pick(&c.options).clone())]; } } }
        // a block more, or one twice, or moved
        7 => { if let Some(mut k) = at(r, roots, &|n| n.tag() == "script") { if let Some(Node::El { kids, .. }) = roots.nth(&|n| n.tag() == "script", &mut k) {
            let i = r.below(kids.len() + 1);
            if kids.is_empty() || r.pct(60) { kids.insert(i, r.pick(&c.pieces[1]).clone()); } else if r.pct(50) { let x = r.pick(kids).clone(); kids.insert(i, x); } else { let j = r.below(kids.len()); let x = kids.remove(j); let i = i.min(kids.len()); kids.insert(i, x); }
        } } }
        8 => { if let Some(mut k) = at(r, roots, &|n| n.attr("var").is_some()) {
            let mut names = vec![];
            roots.walk(&mut |n| if let Some(v) = n.attr("var") { names.push(v.to_string()); });
            let v = r.pick(&names).clone();
            if let Some(Node::El { attrs, .. }) = roots.nth(&|n| n.attr("var").is_some(), &mut k) { for a in attrs { if a.0 == "var" { a.1 = v.clone(); } } }
        } }
        _ => { if let Some(mut k) = at(r, roots, &|n| matches!(n, Node::El { attrs, .. } if !attrs.is_empty())) { if let Some(Node::El { attrs, .. }) = roots.nth(&|n| matches!(n, Node::El { attrs, .. } if !attrs.is_empty()), &mut k) { let i = r.below(attrs.len()); if r.pct(50) { attrs.remove(i); } else { attrs[i].1 = esc(&random_text(r)); } } } }
    }
}

/// variables a block file uses without defining them: every name becomes a global one
fn globals(roots: &Node) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let add = |x: &str, v: &mut Vec<String>| if !x.is_empty() && !v.iter().any(|y| y == x) { v.push(x.to_string()); };
    roots.walk(&mut |n| {
        if let Some(x) = n.attr("var") { add(x, &mut v); }
        if matches!(n.attr("s"), Some("doSetVar" | "doChangeVar" | "doShowVar" | "doHideVar")) { if let Some(k) = n.kids().first() { if k.tag() == "l" { if let Some(Node::Text(t)) = k.kids().first() { add(t, &mut v); } } } }
    });
    v
}
fn template(defs: &str, globals: &[String]) -> String {
    let g: String = globals.iter().map(|g| format!("<variable name=\"{g}\"><l>0</l></variable>")).collect();
    format!("<room name=\"p\" app=\"NetsBlox 1.31.3, http://netsblox.org\"><role name=\"r\"><project name=\"r\" app=\"NetsBlox 1.31.3, http://netsblox.org\" version=\"1.31.3\"><notes></notes><stage name=\"Stage\" width=\"480\" height=\"360\" costume=\"0\" color=\"255,255,255,1\" tempo=\"60\" threadsafe=\"false\" volume=\"100\" pan=\"0\" lines=\"round\" ternary=\"false\" hyperops=\"true\" codify=\"false\" inheritance=\"false\" sublistIDs=\"false\" scheduled=\"false\"><costumes><list struct=\"atomic\"></list></costumes><sounds><list struct=\"atomic\"></list></sounds><variables></variables><blocks></blocks><messageTypes></messageTypes><scripts></scripts><sprites></sprites></stage><hidden></hidden><headers></headers><code></code>{defs}<variables>{g}</variables><history></history></project><media name=\"r\" app=\"NetsBlox 1.31.3, http://netsblox.org\" version=\"1.31.3\"></media></role></room>")
}
pub struct Made { pub case: Case, pub xml: String, pub file: &'static str }
/// None: the file is not acceptable to the parser. `Err`: the parser itself gave up
pub fn case(r: &mut Rng, changes: usize) -> Result<Option<Made>, String> {
    let c = corpus();
    let f = &c.files[r.below(c.files.len())];
    let mut root = Node::El { tag: "all".into(), attrs: vec![], kids: f.roots.clone() };
    let written = |root: &Node| { let mut body = String::new(); for k in root.kids() { k.write(&mut body); } if f.blocks { template(&body, &globals(root)) } else { body } };
    let parsed = |xml: &str| std::panic::catch_unwind(|| Parser::default().parse(xml).ok().map(|p| p.roles));
    for _ in 0..changes {
        // a change the parser refuses is undone, mostly
        for _ in 0..4 {
            let mut next = root.clone();
            mutate(r, &mut next);
            if r.pct(2) || matches!(parsed(&written(&next)), Ok(Some(_))) { root = next; break; }
        }
    }
    let xml = written(&root);
    let Ok(roles) = parsed(&xml) else { return Err("the project parser gave up".into()) };
    let Some(mut roles) = roles else { return Ok(None) };
    if roles.is_empty() { return Ok(None); }
    let mut role = roles.swap_remove(r.below(roles.len()));
    if f.blocks {
        // the blocks are called from the green flag, with any arguments
        let mut stmts = vec![];
        for func in &role.funcs {
            if func.name.trim() != "main" && !r.pct(40) { continue; }
            let n = func.params.len();
            let args: Vec<Expr> = (0..n).map(|_| match r.below(6) { 0 => txt(&random_text(r)), 1 => bare(EK::MakeList { values: (0..r.below(4)).map(|_| num(r.range(-2, 9) as f64)).collect() }), 2 => num(r.range(0, 200) as f64 / 4.0), _ => num(r.range(0, 10) as f64) }).collect();
            let function = FnRef { name: func.name.clone(), trans_name: func.trans_name.clone(), location: FnLocation::Global };
            if !func.upvars.is_empty() { continue; }
            for _ in 0..1 + r.below(2) { stmts.push(bare_stmt(if func.returns { SK::Say { content: bx(bare(EK::CallFn { function: function.clone(), args: args.clone(), upvars: vec![] })), duration: None } } else { SK::CallFn { function: function.clone(), args: args.clone(), upvars: vec![] } })); }
        }
        r.shuffle(&mut stmts);
        let at = r.below(role.entities.len());
        role.entities[at].scripts.push(Script { hat: Some(Box::new(Hat { kind: HK::OnFlag, info: BlockInfo::none() })), stmts });
    }
    // inputs the project listens to, and others
    let mut inputs: Vec<PlanInput> = vec![PlanInput::Start, PlanInput::Start, PlanInput::Stop, PlanInput::Key(KeyCode::Char('a'))];
    let some = |fields: &[VariableRef], r: &mut Rng| -> Vec<(String, HVal)> { fields.iter().map(|f| f.name.to_string()).collect::<std::collections::BTreeSet<_>>().into_iter().filter_map(|f| if r.pct(85) { Some((f, match r.below(3) { 0 => HVal::Text("q".into()), 1 => HVal::List(vec![HVal::Num(1.0)]), _ => HVal::Num(r.range(0, 9) as f64) })) } else { None }).collect() };
    for s in role.entities.iter().flat_map(|e| &e.scripts) {
        match s.hat.as_ref().map(|h| &h.kind) {
            Some(HK::OnKey { key }) => {
                let k = match key.as_str() { "up arrow" => KeyCode::Up, "down arrow" => KeyCode::Down, "left arrow" => KeyCode::Left, "right arrow" => KeyCode::Right, "enter" => KeyCode::Enter, "space" => KeyCode::Char(' '), k => KeyCode::Char(k.chars().next().unwrap_or('z')) };
                inputs.push(PlanInput::Key(k));
            }
            Some(HK::NetworkMessage { msg_type, fields }) => inputs.push(PlanInput::Msg(InMsg { msg_type: msg_type.to_string(), values: some(fields, r), reply: if r.pct(40) { Some(("src".into(), format!("rq{}", r.below(100)))) } else { None } })),
            Some(HK::Unknown { name, fields }) => inputs.push(PlanInput::Custom { name: name.to_string(), args: some(fields, r), interrupt: r.pct(30), max_queue: r.below(3) }),
            _ => (),
        }
    }
    let mut plan = vec![(0, PlanInput::Start)];
    let mut t = 0;
    for _ in 0..r.below(7) { t += r.below(25) as u64; plan.push((t, r.pick(&inputs).clone())); }
    let host = if r.pct(40) { HostCfg::random(r) } else { HostCfg::calm(r.next()) };
    let mcfg = ModelCfg { limit: *r.pick(&[1024, 64, 12]), rpc_soft: r.pct(50), sys_soft: r.pct(50), turn_cap: 400, ..Default::default() };
    let role: &'static ast::Role = Box::leak(Box::new(role));
    Ok(Some(Made { case: Case { role, plan, host, mcfg, gc: *r.pick(&[GcMode::Debt, GcMode::Every(20)]), reload: r.pct(15), layers: None, manual: None }, xml, file: &f.name }))
}

/// blocks whose results depend on the platform's mathematical functions in their last digits
const TRANSCENDENTAL: &[&str] = &["Sin {", "Cos {", "Tan {", "Asin {", "Acos {", "Atan {", "Atan2 {", "Ln {", "Log {", "Pow {", "Exp {", "Pow2 {", "Pow10 {", "Sqrt {", "Log2 {", "Log10 {", "Sin{"];
/// the lines with every number in them taken out, and the numbers
fn numbers(s: &str) -> (String, Vec<f64>) {
    let (mut rest, mut nums) = (String::new(), vec![]);
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'.' || (matches!(b[j], b'e' | b'E') && j + 1 < b.len() && (b[j + 1].is_ascii_digit() || (b[j + 1] == b'-' && j + 2 < b.len() && b[j + 2].is_ascii_digit()))) || (b[j] == b'-' && matches!(b[j - 1], b'e' | b'E'))) { j += 1; }
            match s[i..j].parse::<f64>() { Ok(x) => { nums.push(x); rest.push('\u{1}'); } Err(_) => rest.push_str(&s[i..j]) }
            i = j;
        } else { let n = s[i..].chars().next().unwrap(); rest.push(n); i += n.len_utf8(); }
    }
    (rest, nums)
}
fn close(a: &str, b: &str) -> bool {
    if a == b { return true; }
    let ((x, n), (y, m)) = (numbers(a), numbers(b));
    x == y && n.len() == m.len() && n.iter().zip(&m).all(|(p, q)| p == q || (p - q).abs() <= 1e-9 * p.abs().max(q.abs()).max(1e-6))
}
/// replaces what is close enough by what was observed
fn soften(m: &mut [String], v: &[String]) { for (a, b) in m.iter_mut().zip(v) { if a != b && close(a, b) { *a = b.clone(); } } }

/// Runs one real project with that many changes. A project the model cannot follow is still run (nothing may panic).
pub fn judge_one(cov: &mut Cov, r: &mut Rng, changes: usize, view: View) -> Res {
    let m = match case(r, changes) { Err(e) => return Res::Inconclusive(e), Ok(None) => return Res::Inconclusive("the changed project is not one the parser accepts".into()), Ok(Some(m)) => m };
    cov.add("real projects run", 1);
    let text = format!("{:?}", m.case.role);
    let loose = TRANSCENDENTAL.iter().any(|t| text.contains(t));
    let model = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_model(&m.case)));
    let Ok(mut model) = model else {
        let why = LAST.lock().map(|x| x.clone()).unwrap_or_default();
        let why = if why.contains("not modelled") { "the project uses a block the model does not know" } else { "the model gave up on the project" };
        if !risky(&text) {
            // such a program must still not bring anything down
            match run_vm(&m.case, 20_000) { Ok(v) => { cov.add("VM steps without a model", v.steps); if let Some(b) = v.broken.first() { return Res::Violation(format!("host protocol: {b} ({})", m.file)); } } Err(_) => () }
        }
        return Res::Inconclusive(why.into());
    };
    if model.end == End::Fuel { return Res::Inconclusive("the program exceeds the exploration budget".into()); }
    let vm = match run_vm(&m.case, 300 * model.evals + 200_000) { Ok(v) => v, Err(_) => return Res::Inconclusive("the compiler refuses a block of the project".into()) };
    if loose { let keepv = |l: &String| keep(view, l); let mut a: Vec<String> = model.log.iter().filter(|l| keepv(l)).cloned().collect(); let b: Vec<String> = vm.log.iter().filter(|l| keepv(l)).cloned().collect(); soften(&mut a, &b); model.log = a; soften(&mut model.dump, &vm.dump); }
    match judge(&model, &vm, view) {
        Verdict::Same => (),
        Verdict::Inconclusive(w) => return Res::Inconclusive(w.into()),
        Verdict::Differ(_) if loose => return Res::Inconclusive("a rounding difference of a mathematical function may have spread".into()),
        Verdict::Differ(d) => return Res::Violation(format!("project {} with {changes} changes: {d}", m.file)),
    }
    cov.add("real projects agreeing", 1);
    cov.add(&format!("projects with {changes} changes"), 1);
    if model.log.len() >= 3 && cov.distinct(hash2(hash_str(m.file), model.log.iter().fold(0, |x, l| mix(x ^ hash_str(l))))) { cov.sample(|| format!("{}: {}", m.file, model.log.iter().take(12).cloned().collect::<Vec<_>>().join(" ; "))); }
    Res::Ok
}
/// may use up memory in few steps
fn risky(text: &str) -> bool { ["Range {", "ListCat {", "ListCombinations {", "ListReshape {", "StrCat {"].iter().any(|t| text.contains(t)) }
#[allow(dead_code)] fn _n(_: CompactString) {}
