//! Random block programs: mostly well-typed, terminating, rich in interactions; every choice comes from one seeded source.
use crate::host::*;
use crate::model::*;
use crate::rng::*;
use crate::run::*;
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{ExprKind as EK, HatKind as HK, StmtKind as SK};
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::runtime::KeyCode;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Num, Bool, Text, NList, List, Ring1, Ring2, Ring0, Pred, Ent }

#[derive(Clone)]
pub struct GenCfg {
    pub math: u32, pub text: u32, pub lists: u32, pub rings: u32, pub calls: u32, pub errors: u32, pub bcast: u32, pub fork: u32, pub clones: u32, pub stops: u32,
    pub hostops: u32, pub net: u32, pub waits: u32, pub warp: u32, pub watch: u32, pub media: u32, pub loops: u32, pub recursion: u32, pub pause: u32,
    pub ill: u32, pub shadow: u32,
    /// 0: no block has an id, 1: some, 2: all
    pub located: u32,
    pub budget: u32, pub max_ents: usize, pub max_scripts: usize, pub max_funcs: usize,
    /// scripts that never end (bounded by the turn cap)
    pub endless: u32,
    pub gc: bool, pub faults: bool, pub inputs: usize,
    pub turn_cap: u64,
    /// factor on the lengths of waits (and, in the host, on the speed of the clock)
    pub time_scale: f64,
    /// date and time blocks
    pub dates: bool,
    /// blocks which draw at random
    pub random: bool,
}
impl GenCfg {
    pub fn base() -> Self {
        GenCfg { math: 10, text: 8, lists: 10, rings: 6, calls: 6, errors: 4, bcast: 3, fork: 2, clones: 2, stops: 2, hostops: 5, net: 2, waits: 2, warp: 3, watch: 1, media: 1, loops: 8, recursion: 3, pause: 0, ill: 3, shadow: 10, located: 1, budget: 60, max_ents: 3, max_scripts: 3, max_funcs: 4, endless: 0, gc: true, faults: true, inputs: 3, turn_cap: 800, time_scale: 1.0, dates: false, random: false }
    }
}

type Var = (String, Ty);
#[derive(Default)]
struct Layer { vars: Vec<Var>, used: Vec<String> }
struct Sc { ent: Option<usize>, layers: Vec<Layer>, fn_level: usize, ret: Option<Ty>, loops: u32, budget: i32, nest: u32, script: bool, in_ring: bool }
struct FInfo { name: String, params: Vec<Var>, upvars: Vec<usize>, ret: Option<Ty>, ent: Option<usize>, rec: bool }
struct EInfo { name: String, fields: Vec<Var>, costumes: Vec<String>, sounds: Vec<String> }

pub struct G { pub r: Rng, pub cfg: GenCfg, globals: Vec<Var>, ents: Vec<EInfo>, funcs: Vec<FInfo>, nloc: i64, pub loc_style: usize, next_local: usize, next_ref: usize, msgs: Vec<&'static str> }

fn cs(s: &str) -> CompactString { CompactString::new(s) }
fn def(s: &str) -> VariableDef { VariableDef { name: cs(s), trans_name: cs(s) } }
fn vref(s: &str, location: VarLocation) -> VariableRef { VariableRef { name: cs(s), trans_name: cs(s), location } }

pub fn bare(kind: EK) -> Expr { Expr { kind, info: BlockInfo::none() } }
pub fn bx(e: Expr) -> Box<Expr> { Box::new(e) }
pub fn num(x: f64) -> Expr { bare(EK::Value(Value::Number(x))) }
pub fn txt(x: &str) -> Expr { bare(EK::Value(Value::String(cs(x)))) }
pub fn bare_stmt(kind: SK) -> Stmt { Stmt { kind, info: BlockInfo::none() } }
pub fn local(s: &str) -> VariableRef { vref(s, VarLocation::Local) }
pub fn global(s: &str) -> VariableRef { vref(s, VarLocation::Global) }
pub fn var(v: VariableRef) -> Expr { bare(EK::Variable { var: v }) }
pub fn mk_def(s: &str) -> VariableDef { def(s) }

/// the id of the n-th block, in one of five styles or one made up from the number of the style
pub fn loc_text(style: usize, n: i64) -> String { match style { 0 => format!("item_{n}"), 5.. => made_up_loc(style, n), 1 => format!("collab_{}_{}", n / 7, n % 7 - 3), 2 => format!("{n}"), 3 => format!("b{}:{}z", n * 1000, n), _ => format!("item_{}", if n % 2 == 0 { i64::MAX.wrapping_sub(n) } else { i64::MIN.wrapping_add(n) }) } }
fn made_up_loc(style: usize, n: i64) -> String {
    let mut r = Rng::new(style as u64);
    let (prefix, sep, suffix) = (*r.pick(&["", "p ", " ", "__", "é_", "id=", "a:b "]), *r.pick(&[" ", "_", "::", " + ", "é", ".", "z"]), *r.pick(&["", "", "", " ", "z", "_é"]));
    let (most, scale, base) = (1 + r.below(4), *r.pick(&[1i64, 1, 3, 100, 1 << 40]), *r.pick(&[0i64, 0, -50, 1000, -(1 << 50), 1 << 55]));
    let mut s = format!("{prefix}{}", base.wrapping_add(n.wrapping_mul(scale)));
    for i in 1..1 + (if r.pct(50) { most } else { (n.rem_euclid(most as i64)) as usize + 1 }).saturating_sub(1) { s += &format!("{sep}{}", match (n.wrapping_add(i as i64)).rem_euclid(4) { 0 => 0, 1 => n / 3, 2 => n.wrapping_neg(), _ => base }); }
    s + suffix
}
const FIELDS: &[&str] = &["x", "y", "é z", "", "X"];
const NETMSGS: &[&str] = &["n0", "n1", "n0", "n1", "n0", "n1", "n 2", "N0", ""];
pub const TEXTS: &[&str] = &["", "a", "hello", "Hello", "x y", "5", "-3", "0x1F", "a,b", "1\n2", "é", "naïve café", "👍🏽", "\"q\"", "tab\there", "true", "[1,2]", "zz", "a\r\nb", "\n", "10", "3.5", "+5", "-0", "5.0", "007", " 6", "1e3", "2147483648"];

impl G {
    pub fn new(seed: u64, cfg: GenCfg) -> G {
        let mut r = Rng::new(seed);
        let loc_style = r.below(8);
        let loc_style = if loc_style < 5 { loc_style } else { 5 + (r.next() >> 8) as usize };
        G { r, cfg, globals: vec![], ents: vec![], funcs: vec![], nloc: 0, loc_style, next_local: 0, next_ref: 1, msgs: vec!["m0", "m1", "m2", "7"] }
    }
    fn info(&mut self) -> Box<BlockInfo> {
        let on = match self.cfg.located { 0 => false, 1 => self.r.pct(50), _ => true };
        let location = if on {
            self.nloc += 1;
            let n = self.nloc;
            Some(loc_text(self.loc_style, n))
        } else { None };
        Box::new(BlockInfo { comment: None, location: location.map(|x| cs(&x)) })
    }
    fn ex(&mut self, kind: EK) -> Expr { let info = self.info(); Expr { kind, info } }
    fn st(&mut self, kind: SK) -> Stmt { let info = self.info(); Stmt { kind, info } }

    // ---- variables ----
    fn visible(&self, sc: &Sc, ty: Ty) -> Vec<(String, VarLocation, Option<usize>)> {
        let mut res: Vec<(String, VarLocation, Option<usize>)> = vec![];
        let mut seen: Vec<&str> = vec![];
        for (i, l) in sc.layers.iter().enumerate().rev() {
            for v in l.vars.iter().rev() { if !seen.contains(&v.0.as_str()) { seen.push(&v.0); if v.1 == ty { res.push((v.0.clone(), VarLocation::Local, Some(i))); } } }
        }
        if let Some(e) = sc.ent { for v in &self.ents[e].fields { if !seen.contains(&v.0.as_str()) { seen.push(&v.0); if v.1 == ty { res.push((v.0.clone(), VarLocation::Field, None)); } } } }
        for v in &self.globals { if !seen.contains(&v.0.as_str()) { seen.push(&v.0); if v.1 == ty { res.push((v.0.clone(), VarLocation::Global, None)); } } }
        res
    }
    fn pick_var(&mut self, sc: &mut Sc, ty: Ty) -> Option<VariableRef> {
        let vs = self.visible(sc, ty);
        if vs.is_empty() { return None; }
        let k = if self.r.pct(60) { self.r.below(vs.len().min(3)) } else { self.r.below(vs.len()) };
        let (n, loc, layer) = vs[k].clone();
        if let Some(i) = layer { for l in &mut sc.layers[i + 1..] { if !l.used.contains(&n) { l.used.push(n.clone()); } } }
        Some(vref(&n, loc))
    }
    fn new_local(&mut self) -> String {
        if self.r.pct(self.cfg.shadow) && !self.globals.is_empty() { let i = self.r.below(self.globals.len()); return self.globals[i].0.clone(); }
        self.next_local += 1;
        if self.r.pct(20) { format!("loc {}", self.next_local % 5) } else { format!("l{}", self.next_local) }
    }
    fn add_local(&mut self, sc: &mut Sc, name: &str, ty: Ty) {
        let l = sc.layers.last_mut().unwrap();
        l.vars.retain(|v| v.0 != name);
        l.vars.push((name.into(), ty));
        // an inner declaration hides a captured variable of the same name: the capture is dropped only when never used before
    }

    // ---- expressions ----
    fn any_ty(&mut self) -> Ty { *self.r.pick(&[Ty::Num, Ty::Num, Ty::Bool, Ty::Text, Ty::NList, Ty::List]) }
    fn number(&mut self) -> f64 {
        match self.r.weighted(&[12, 4, 3, 1]) {
            0 => self.r.range(-3, 9) as f64,
            1 => *self.r.pick(&[0.5, -1.5, 2.25, 0.1, -0.25, 3.75, 1.0, 0.0]),
            2 => self.r.range(-100, 1000) as f64,
            _ => *self.r.pick(&[1e10, -1e10, 1e300, 1e-7, 123456789.125, 9007199254740993.0, -0.0]),
        }
    }
    fn leaf(&mut self, sc: &mut Sc, ty: Ty) -> Expr {
        if self.r.pct(65) { if let Some(v) = self.pick_var(sc, ty) { return self.ex(EK::Variable { var: v }); } }
        match ty {
            Ty::Num => { let x = self.number(); if self.r.pct(6) { txt(&format!("{x}")) } else if self.r.pct(4) { bare(EK::Value(Value::Constant(if self.r.pct(50) { Constant::E } else { Constant::Pi }))) } else { num(x) } }
            Ty::Bool => { let b = self.r.pct(50); bare(EK::Value(Value::Bool(b))) }
            Ty::Text => { let t = *self.r.pick(TEXTS); txt(t) }
            Ty::NList => { let n = self.r.below(5); if self.r.pct(30) { let v = (0..n).map(|_| Value::Number(self.number())).collect(); bare(EK::Value(Value::List(v, None))) } else { let v = (0..n).map(|_| num(self.number())).collect(); self.ex(EK::MakeList { values: v }) } }
            Ty::List => { let n = self.r.below(4); let v = (0..n).map(|_| { let t = self.any_ty(); self.leaf(sc, t) }).collect(); self.ex(EK::MakeList { values: v }) }
            Ty::Ent => if self.cfg.clones > 0 && self.r.pct(6 + self.cfg.clones / 2) && !sc.in_ring { let target = self.b(sc, Ty::Ent, 0); self.ex(EK::Clone { target }) } else if self.r.pct(35) { self.ex(EK::This) } else { let i = self.r.below(self.ents.len()); let n = self.ents[i].name.clone(); self.ex(EK::Entity { name: cs(&n), trans_name: cs(&n) }) },
            Ty::Ring0 => self.ring(sc, 0, Ty::Num, 2),
            Ty::Ring1 => self.ring(sc, 1, Ty::Num, 2),
            Ty::Ring2 => self.ring(sc, 2, Ty::Num, 2),
            Ty::Pred => self.ring(sc, 1, Ty::Bool, 2),
        }
    }
    fn ring(&mut self, sc: &mut Sc, params: usize, ret: Ty, d: u32) -> Expr {
        let ps: Vec<String> = (0..params).map(|i| { if self.r.pct(self.cfg.shadow) { self.new_local() } else { format!("q{}{}", sc.layers.len(), i) } }).collect();
        let ps: Vec<String> = if (1..ps.len()).any(|i| ps[..i].contains(&ps[i])) { (0..ps.len()).map(|i| format!("q{}", (b'a' + i as u8) as char)).collect() } else { ps };
        let old = (sc.ret, sc.in_ring, sc.loops);
        sc.ret = Some(ret);
        sc.in_ring = true;
        sc.loops += 1;
        sc.layers.push(Layer { vars: ps.iter().map(|p| (p.clone(), Ty::Num)).collect(), used: vec![] });
        sc.nest += 1;
        let mut stmts = vec![];
        let kind = if self.r.pct(if params > 2 { 30 } else { 70 }) { if ret == Ty::Bool { ClosureKind::Predicate } else { ClosureKind::Reporter } } else { ClosureKind::Command };
        if matches!(kind, ClosureKind::Command) { let n = self.r.below(3) + (params > 2) as usize; self.stmts(sc, n, &mut stmts); }
        let e = self.expr(sc, ret, d);
        stmts.push(bare_stmt(SK::Return { value: bx(e) }));
        sc.nest -= 1;
        let layer = sc.layers.pop().unwrap();
        (sc.ret, sc.in_ring, sc.loops) = old;
        // captures: every outer local the body mentions, unless it is one of the ring's own parameters
        let captures = layer.used.iter().filter(|u| !ps.contains(u)).map(|u| vref(u, VarLocation::Local)).collect();
        self.ex(EK::Closure { kind, params: ps.iter().map(|p| def(p)).collect(), captures, stmts })
    }
    fn values(&mut self, sc: &mut Sc, ty: Ty, d: u32) -> Expr {
        if self.r.pct(25) { return self.expr(sc, if ty == Ty::Num { Ty::NList } else { Ty::List }, d); }
        let n = self.r.weighted(&[1, 2, 8, 4]);
        let v = (0..n).map(|_| self.expr(sc, ty, d)).collect();
        bare(EK::MakeList { values: v })
    }
    fn b(&mut self, sc: &mut Sc, ty: Ty, d: u32) -> Box<Expr> { bx(self.expr(sc, ty, d)) }
    fn num_or_list(&mut self, sc: &mut Sc, d: u32) -> Box<Expr> { let t = if self.r.pct(12) { Ty::NList } else { Ty::Num }; self.b(sc, t, d) }
    /// an index into a list
    fn idx(&mut self, sc: &mut Sc, d: u32) -> Box<Expr> {
        match self.r.weighted(&[10, 3, 2, 1]) { 0 => bx(num(self.r.range(1, 3) as f64)), 1 => self.b(sc, Ty::Num, d), 2 => self.b(sc, Ty::NList, d), _ => { let hi = if self.r.pct(30) { 60 } else { 6 }; bx(num(self.r.range(-1, hi) as f64)) } }
    }
    pub fn expr(&mut self, sc: &mut ScRef, ty: Ty, d: u32) -> Expr { self.expr_(sc, ty, d) }
    fn expr_(&mut self, sc: &mut Sc, ty: Ty, d: u32) -> Expr {
        sc.budget -= 1;
        let ty = if self.r.pct(self.cfg.ill) && self.r.pct(60) { self.any_ty() } else { ty };
        if d == 0 || sc.budget <= 0 || sc.nest > 6 { return self.leaf(sc, ty); }
        let d = d - 1;
        let c = self.cfg.clone();
        // calls, conditionals and reads common to every type
        if self.r.pct(8 + c.calls) {
            let k = self.r.weighted(&[c.calls, 3, c.lists, c.rings / 2, c.hostops / 2]);
            match k {
                0 => if let Some(e) = self.call_expr(sc, ty, d) { return e; },
                1 => { let (x, y, z) = (self.b(sc, Ty::Bool, d), self.b(sc, ty, d), self.b(sc, ty, d)); return self.ex(EK::Conditional { condition: x, then: y, otherwise: z }); }
                2 => if matches!(ty, Ty::Num) {
                    let k = match self.r.below(3) { 0 => { let l = self.b(sc, Ty::NList, d); EK::ListGetLast { list: l } }, _ => { let (i, l) = (bx(num(self.r.range(1, 3) as f64)), self.b(sc, Ty::NList, d)); EK::ListGet { list: l, index: i } } };
                    return self.ex(k);
                },
                3 => if matches!(ty, Ty::Num | Ty::Bool) {
                    let (clo, n) = match (ty, self.r.below(3)) { (Ty::Bool, _) => (Ty::Pred, 1), (_, 0) => (Ty::Ring0, 0), (_, 1) => (Ty::Ring1, 1), _ => (Ty::Ring2, 2) };
                    let (closure, n) = if self.r.pct(10) { let n = 3 + self.r.below(5); (bx(self.ring(sc, n, ty, d)), n) } else { (self.b(sc, clo, d), n) };
                    let n = if self.r.pct(3) { n + 1 } else { n };
                    let args = (0..n).map(|_| self.expr(sc, Ty::Num, d)).collect();
                    let new_entity = if self.r.pct(20) { Some(self.b(sc, Ty::Ent, d)) } else { None };
                    return self.ex(EK::CallClosure { new_entity, closure, args });
                },
                _ => if let Some(e) = self.host_expr(sc, ty, d) { return e; },
            }
        }
        if c.random && self.r.pct(8) {
            match ty {
                Ty::Num if self.r.pct(50) => { let (a, b) = if self.r.pct(70) { let a = self.r.range(-20, 20); (bx(num(a as f64)), bx(num((a + self.r.range(0, 40)) as f64))) } else { (self.b(sc, Ty::Num, d), self.b(sc, Ty::Num, d)) }; return self.ex(EK::Random { a, b }); }
                Ty::Num => { let list = self.b(sc, Ty::NList, d); return self.ex(EK::ListGetRandom { list }); }
                Ty::Text => { let string = self.b(sc, Ty::Text, d); return self.ex(EK::StrGetRandom { string }); }
                Ty::List if self.r.pct(50) => { let list = self.b(sc, Ty::List, d); return self.ex(EK::ListGetRandom { list }); }
                _ => (),
            }
        }
        let kind = match ty {
            Ty::Num => match self.r.weighted(&[c.math, c.math, c.math, c.math / 2, c.math / 2, c.math / 2, c.math / 2, c.lists, c.text / 2, c.lists / 2, c.rings / 2, c.text / 3, c.math / 3]) {
                0 => { let v = bx(self.values(sc, Ty::Num, d)); if self.r.pct(65) { EK::Add { values: v } } else { EK::Mul { values: v } } }
                1 => { let (a, b) = (self.num_or_list(sc, d), self.num_or_list(sc, d)); EK::Sub { left: a, right: b } }
                2 => { let (a, b) = (self.b(sc, Ty::Num, d), self.b(sc, Ty::Num, d)); if self.r.pct(50) { EK::Mod { left: a, right: b } } else { EK::Div { left: a, right: b } } }
                3 => { let v = bx(self.values(sc, Ty::Num, d)); if self.r.pct(50) { EK::Min { values: v } } else { EK::Max { values: v } } }
                4 => { let v = self.num_or_list(sc, d); match self.r.below(5) { 0 => EK::Neg { value: v }, 1 => EK::Abs { value: v }, 2 => EK::Floor { value: v }, 3 => EK::Ceil { value: v }, _ => EK::Round { value: v } } }
                5 => { let v = self.b(sc, Ty::Num, d); EK::Sqrt { value: bx(self.ex(EK::Abs { value: v })) } }
                6 => return self.leaf(sc, ty),
                7 => { let t = if self.r.pct(60) { Ty::NList } else { Ty::List }; let v = self.b(sc, t, d); match self.r.below(5) { 0..=2 => EK::ListLen { value: v }, 3 => EK::ListRank { value: v }, _ => { let x = self.b(sc, Ty::Num, d); EK::ListFind { list: v, value: x } } } }
                8 => { let v = self.b(sc, Ty::Text, d); EK::StrLen { value: v } }
                9 => { let (i, l) = (self.idx(sc, d), self.b(sc, Ty::NList, d)); EK::ListGet { list: l, index: i } }
                10 => { let (f, l) = (self.b(sc, Ty::Ring2, d), self.b(sc, Ty::NList, d)); EK::Combine { f, list: l } }
                11 => { let t = *self.r.pick(&["a", "Z", "é", " ", "7"]); EK::CharToUnicode { value: bx(txt(t)) } }
                _ => { let (f, l) = (self.b(sc, Ty::Pred, d), self.b(sc, Ty::NList, d)); EK::FindFirst { f, list: l } }
            },
            Ty::Bool => match self.r.weighted(&[10, 4, 4, 3, c.lists / 2, c.lists / 2, 2, 1]) {
                0 => {
                    let t = if self.r.pct(70) { Ty::Num } else { Ty::Text };
                    let (l, r) = (self.b(sc, t, d), self.b(sc, t, d));
                    match self.r.below(6) { 0 => EK::Eq { left: l, right: r }, 1 => EK::Neq { left: l, right: r }, 2 => EK::Less { left: l, right: r }, 3 => EK::LessEq { left: l, right: r }, 4 => EK::Greater { left: l, right: r }, _ => EK::GreaterEq { left: l, right: r } }
                }
                1 => { let (l, r) = (self.b(sc, Ty::Bool, d), self.b(sc, Ty::Bool, d)); EK::And { left: l, right: r } }
                2 => { let (l, r) = (self.b(sc, Ty::Bool, d), self.b(sc, Ty::Bool, d)); EK::Or { left: l, right: r } }
                3 => { let v = self.b(sc, Ty::Bool, d); EK::Not { value: v } }
                4 => { let (l, v) = (self.b(sc, Ty::NList, d), self.b(sc, Ty::Num, d)); EK::ListContains { list: l, value: v } }
                5 => { let v = self.b(sc, Ty::List, d); EK::ListIsEmpty { value: v } }
                6 => { let t = self.any_ty(); let v = self.b(sc, t, d); EK::TypeQuery { value: v, ty: match self.r.below(6) { 0 => ValueType::Number, 1 => ValueType::Text, 2 => ValueType::Bool, 3 => ValueType::List, 4 => ValueType::Sprite, _ => ValueType::Costume } } }
                _ => { let t = self.any_ty(); let (l, r) = (self.b(sc, t, d), self.b(sc, t, d)); if self.r.pct(50) { EK::Identical { left: l, right: r } } else { EK::Eq { left: l, right: r } } }
            },
            Ty::Text => match self.r.weighted(&[c.text, c.text / 2, c.text / 3, c.text / 3, c.text / 3, 4, c.lists / 4]) {
                0 => { let n = self.r.below(4); let v = (0..n).map(|_| { let t = *self.r.pick(&[Ty::Text, Ty::Num, Ty::Text, Ty::Bool, Ty::NList]); self.expr(sc, t, d) }).collect(); EK::StrCat { values: bx(bare(EK::MakeList { values: v })) } }
                1 => { let s = self.b(sc, Ty::Text, d); if self.r.pct(30) { EK::StrGetLast { string: s } } else { let i = self.idx(sc, d); EK::StrGet { string: s, index: i } } }
                2 => { let v = bx(num(*self.r.pick(&[65.0, 97.0, 233.0, 0x1f44d as f64, 10.0, 0xd800 as f64]))); EK::UnicodeToChar { value: v } }
                3 => { let v = self.b(sc, Ty::NList, d); EK::ListLines { value: v } }
                4 => { let v = self.b(sc, Ty::NList, d); if self.r.pct(50) { EK::ListCsv { value: v } } else { EK::ListJson { value: v } } }
                5 => return self.leaf(sc, ty),
                _ => { let v = self.b(sc, Ty::List, d); EK::ListJson { value: v } }
            },
            Ty::NList => match self.r.weighted(&[c.lists, c.lists / 2, c.lists / 2, c.lists / 3, c.lists / 3, c.rings, c.rings, c.math, c.lists / 3, c.lists / 3, c.lists / 4, 4, c.lists / 4]) {
                0 => { let n = self.r.below(4); let v = (0..n).map(|_| self.expr(sc, Ty::Num, d)).collect(); EK::MakeList { values: v } }
                1 => { let (a, z) = (self.r.range(-2, 3), self.r.range(-2, 6)); let (a, z) = if self.r.pct(70) { (bx(num(a as f64)), bx(num(z as f64))) } else { (self.b(sc, Ty::Num, 0), bx(num(z as f64))) }; EK::Range { start: a, stop: z } }
                2 => { let v = self.b(sc, Ty::NList, d); EK::CopyList { list: v } }
                3 => { let v = self.b(sc, Ty::NList, d); EK::ListRev { value: v } }
                4 => { let (i, l) = (self.b(sc, Ty::Num, d), self.b(sc, Ty::NList, d)); EK::ListCons { item: i, list: l } }
                5 => { let (f, l) = (self.b(sc, Ty::Ring1, d), self.b(sc, Ty::NList, d)); EK::Map { f, list: l } }
                6 => { let (f, l) = (self.b(sc, Ty::Pred, d), self.b(sc, Ty::NList, d)); EK::Keep { f, list: l } }
                7 => { let (a, b) = (self.b(sc, Ty::NList, d), self.num_or_list(sc, d)); match self.r.below(4) { 0 => EK::Sub { left: a, right: b }, 1 => EK::Mod { left: a, right: b }, 2 => EK::Neg { value: a }, _ => EK::Add { values: bx(bare(EK::MakeList { values: vec![*a, *b] })) } } }
                8 => { let (a, b) = (self.expr(sc, Ty::NList, d), self.expr(sc, Ty::NList, d)); EK::ListCat { lists: bx(bare(EK::MakeList { values: vec![a, b] })) } }
                9 => { let v = self.b(sc, Ty::NList, d); EK::ListCdr { value: v } }
                10 => { let v = self.b(sc, Ty::List, d); EK::ListFlatten { value: v } }
                11 => return self.leaf(sc, ty),
                _ => { let v = self.b(sc, Ty::List, d); EK::ListDims { value: v } }
            },
            Ty::List => match self.r.weighted(&[c.lists, c.text, c.lists / 3, c.lists / 3, c.lists / 4, c.lists / 4, 3, c.rings / 3, c.lists / 4]) {
                0 => { let n = self.r.below(4); let v = (0..n).map(|_| { let t = if self.r.pct(20) { Ty::NList } else { self.any_ty() }; self.expr(sc, t, d) }).collect(); EK::MakeList { values: v } }
                1 => {
                    let t = self.b(sc, Ty::Text, d);
                    let mode = match self.r.below(8) { 0 | 1 => TextSplitMode::Letter, 2 => TextSplitMode::Word, 3 => TextSplitMode::LF, 4 => TextSplitMode::Tab, 5 => TextSplitMode::Csv, 6 => TextSplitMode::Json, _ => { let s = self.b(sc, Ty::Text, 0); TextSplitMode::Custom(s) } };
                    EK::TextSplit { text: t, mode }
                }
                2 => { let v = self.b(sc, Ty::List, d); EK::CopyList { list: v } }
                3 => { let (v, n, m) = (self.b(sc, Ty::NList, d), num(self.r.range(1, 3) as f64), num(self.r.range(0, 3) as f64)); EK::ListReshape { value: v, dims: bx(bare(EK::MakeList { values: vec![n, m] })) } }
                4 => { let v = self.b(sc, Ty::List, d); EK::ListColumns { value: v } }
                5 => {
                    let mut v: Vec<Expr> = match self.r.weighted(&[1, 2, 20, 5, 1]) {
                        // more combinations than can be counted, unless one of the lists is empty
                        4 => { let n = 60 + self.r.below(10); let mut v: Vec<Expr> = (0..n).map(|_| bare(EK::MakeList { values: vec![num(1.0), num(2.0)] })).collect(); let at = self.r.below(n); v.insert(at, bare(EK::MakeList { values: vec![] })); v }
                        n => (0..n).map(|_| self.expr(sc, Ty::NList, d)).collect(),
                    };
                    if self.r.pct(4) { let at = self.r.below(v.len() + 1); let t = self.any_ty(); let x = self.expr(sc, t, 0); v.insert(at, x); }
                    EK::ListCombinations { sources: bx(bare(EK::MakeList { values: v })) }
                }
                6 => return self.leaf(sc, ty),
                7 => { let f = self.ring(sc, 1, Ty::NList, 1); let l = self.b(sc, Ty::NList, d); EK::Map { f: bx(f), list: l } }
                _ => { let v = self.b(sc, Ty::List, d); EK::ListRev { value: v } }
            },
            Ty::Ring0 => return if self.r.pct(40) { self.leaf(sc, ty) } else { self.ring(sc, 0, Ty::Num, d) },
            Ty::Ring1 => return if self.r.pct(30) { self.leaf(sc, ty) } else { self.ring(sc, 1, Ty::Num, d) },
            Ty::Ring2 => return if self.r.pct(30) { self.leaf(sc, ty) } else { self.ring(sc, 2, Ty::Num, d) },
            Ty::Pred => return if self.r.pct(30) { self.leaf(sc, ty) } else { self.ring(sc, 1, Ty::Bool, d) },
            Ty::Ent => return self.leaf(sc, ty),
        };
        self.ex(kind)
    }
    fn callable(&mut self, sc: &Sc, want: Option<Ty>) -> Option<usize> {
        let c: Vec<usize> = (0..self.funcs.len()).filter(|&i| i >= sc.fn_level && (match self.funcs[i].ent { None => sc.ent.is_none() || !self.funcs.iter().any(|g| g.ent == sc.ent && g.name == self.funcs[i].name), e => e == sc.ent }) && match want { None => true, Some(t) => self.funcs[i].ret == Some(t) }).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn call_parts(&mut self, sc: &mut Sc, i: usize, d: u32) -> (FnRef, Vec<Expr>, Vec<VariableRef>) {
        let (name, params, ups, ent, rec) = { let f = &self.funcs[i]; (f.name.clone(), f.params.clone(), f.upvars.clone(), f.ent, f.rec) };
        let mut args = vec![];
        let mut upvars: Vec<VariableRef> = vec![];
        for (k, p) in params.iter().enumerate() {
            if ups.contains(&k) {
                if !upvars.is_empty() && self.r.pct(10) { let n: VariableRef = upvars[0].clone(); args.push(txt(&n.name)); upvars.push(n); continue; } // two output slots renamed alike
                let n = self.new_local();
                self.add_local(sc, &n, Ty::Num);
                upvars.push(local(&n));
                // what reaches the block may not be the variable's name: some other text, a number, a value without a name
                // (the block an error is then reported at is the first one of the called block, if it has any: only without locations)
                let other = if self.cfg.located == 0 && (self.cfg.ill > 0 || self.cfg.errors > 5) { 8 } else { 0 };
                if self.r.pct(other) { let e = match self.r.below(5) { 0 => txt("no such"), 1 => num(7.0), 2 => bare(EK::MakeList { values: vec![] }), 3 => bare(EK::This), _ => self.expr(sc, Ty::Text, 1) }; args.push(e); } else { args.push(txt(&n)); }
            }
            else if rec && k == 0 { args.push(num(self.r.range(0, 5) as f64)); }
            else { args.push(self.expr(sc, p.1, d)); }
        }
        (FnRef { name: cs(&name), trans_name: cs(&name), location: if ent.is_some() { FnLocation::Method } else { FnLocation::Global } }, args, upvars)
    }
    fn call_expr(&mut self, sc: &mut Sc, ty: Ty, d: u32) -> Option<Expr> {
        let i = self.callable(sc, Some(ty))?;
        let (function, args, upvars) = self.call_parts(sc, i, d);
        Some(self.ex(EK::CallFn { function, args, upvars }))
    }
    fn host_expr(&mut self, sc: &mut Sc, ty: Ty, d: u32) -> Option<Expr> {
        let k = match (ty, self.r.below(8)) {
            (_, 5) => { let (host, service, rpc, args) = self.rpc(sc); EK::CallRpc { host, service, rpc, args } }
            (Ty::Text | Ty::Num, 6) => EK::RpcError,
            (Ty::Text | Ty::Num, 7) => EK::UnknownBlock { name: cs("nativeSyscallError"), args: vec![] },
            (Ty::Num, 0) => EK::XPos,
            (Ty::Num, 1) => EK::Heading,
            (Ty::Num, 2) => EK::Timer,
            (Ty::Num, 4) if self.cfg.dates => EK::RealTime { query: self.r.pick(&[TimeQuery::Year, TimeQuery::Month, TimeQuery::Date, TimeQuery::DayOfWeek, TimeQuery::Hour, TimeQuery::Minute, TimeQuery::Second, TimeQuery::UnixTimestampMs]).clone() },
            (Ty::Bool, 0) => EK::IsVisible,
            (_, 3) => self.syscall(sc, ty, d),
            (Ty::Text, 1) => EK::Answer,
            (Ty::Text, 2) => EK::Message,
            _ => return None,
        };
        Some(self.ex(k))
    }
    /// what the last service call and system call of the script reported
    fn last_error(&mut self, _sc: &mut Sc) -> Stmt {
        let (a, b) = (self.ex(EK::RpcError), self.ex(EK::UnknownBlock { name: cs("nativeSyscallError"), args: vec![] }));
        let content = match self.r.below(3) { 0 => a, 1 => b, _ => self.ex(EK::MakeList { values: vec![a, b] }) };
        self.st(SK::Say { content: bx(content), duration: None })
    }
    fn rpc(&mut self, sc: &mut Sc) -> (Option<CompactString>, CompactString, CompactString, Vec<(CompactString, Expr)>) {
        let n = if self.r.pct(93) { self.r.below(3) } else { self.r.below(8) };
        let mut names = ["a", "b", "a", "", "é", "a b", "host"];
        self.r.shuffle(&mut names);
        let args = (0..n).map(|i| (cs(names[i]), { let t = self.any_ty(); self.expr(sc, t, 1) })).collect();
        (if self.r.pct(25) { Some(cs(*self.r.pick(&["http://h", "h:1/x y"]))) } else { None }, cs(*self.r.pick(&["Svc", "Svc", "", "Ünder"])), cs(*self.r.pick(&["go", "go", "", "a b"])), args)
    }
    fn syscall(&mut self, sc: &mut Sc, ty: Ty, d: u32) -> EK {
        let name = match (ty, self.r.below(3)) { (Ty::Num, 0) => "push", (Ty::Num, _) => "depth", _ => "probe" };
        let n = if self.r.pct(93) { self.r.below(3) } else { self.r.below(10) };
        let args = (0..n).map(|_| { let t = self.any_ty(); self.expr(sc, t, d) }).collect();
        let list = if self.r.pct(12) { self.expr(sc, Ty::List, d) } else { bare(EK::MakeList { values: args }) };
        EK::UnknownBlock { name: cs("nativeCallSyscall"), args: vec![txt(name), list] }
    }

    // ---- statements ----
    fn stmts(&mut self, sc: &mut Sc, n: usize, out: &mut Vec<Stmt>) {
        for _ in 0..n { if sc.budget <= 0 { break; } self.stmt(sc, out); }
    }
    /// a block body; locals declared inside stay visible (scripts have one frame), which is how the block language works
    fn body(&mut self, sc: &mut Sc, n: usize) -> Vec<Stmt> {
        sc.nest += 1;
        let keep = sc.layers.last().unwrap().vars.clone();
        let mut v = vec![];
        self.stmts(sc, n, &mut v);
        if self.r.pct(95) {
            // mostly refer only to variables that were certainly declared
            sc.layers.last_mut().unwrap().vars = keep;
        }
        sc.nest -= 1;
        v
    }
    fn say(&mut self, sc: &mut Sc) -> Stmt {
        let t = *self.r.pick(&[Ty::Num, Ty::Text, Ty::Bool, Ty::NList, Ty::List, Ty::Num]);
        let content = self.b(sc, t, 2);
        let duration = if self.r.pct(self.cfg.waits * 3) { Some(bx(num(*self.r.pick(&[0.0, 0.005, 0.03, 0.1])))) } else { None };
        let k = if self.r.pct(75) { SK::Say { content, duration } } else { SK::Think { content, duration } };
        self.st(k)
    }
    fn stmt(&mut self, sc: &mut Sc, out: &mut Vec<Stmt>) {
        sc.budget -= 2;
        let c = self.cfg.clone();
        let deep = sc.nest < 5;
        let w = [10, 6, 7, if deep { c.loops } else { 0 }, if deep { 6 } else { 0 }, 5, c.lists, c.calls, c.rings / 2, if deep { c.errors } else { 0 }, c.stops, c.bcast, c.clones, c.fork, c.waits, c.hostops, if deep { c.warp } else { 0 }, c.watch, c.net, c.media, c.pause, if deep { c.endless } else { 0 }];
        let k = match self.r.weighted(&w) {
            0 => {
                let t = match self.r.weighted(&[8, 3, 4, 5, 3, if c.rings > 0 { 3 } else { 0 }, 1]) { 0 => Ty::Num, 1 => Ty::Bool, 2 => Ty::Text, 3 => Ty::NList, 4 => Ty::List, 5 => *self.r.pick(&[Ty::Ring0, Ty::Ring1, Ty::Ring2, Ty::Pred]), _ => Ty::Ent };
                let value = self.b(sc, t, 3);
                match self.pick_var(sc, t) { Some(var) => SK::Assign { var, value }, None => return out.push(self.say(sc)) }
            }
            1 => { let value = self.b(sc, Ty::Num, 2); match self.pick_var(sc, Ty::Num) { Some(var) => SK::AddAssign { var, value }, None => return } }
            2 => { let s = self.say(sc); return out.push(s); }
            3 => return self.loop_stmt(sc, out),
            4 => {
                let condition = self.b(sc, Ty::Bool, 2);
                let n = 1 + self.r.below(3);
                let then = self.body(sc, n);
                if self.r.pct(50) { SK::If { condition, then } } else { let n = self.r.below(3); let otherwise = self.body(sc, n); SK::IfElse { condition, then, otherwise } }
            }
            5 => {
                let n = 1 + self.r.below(2);
                let mut names: Vec<String> = vec![];
                for _ in 0..n { let x = self.new_local(); if !names.contains(&x) { names.push(x); } }
                let s = self.st(SK::DeclareLocals { vars: names.iter().map(|x| def(x)).collect() });
                out.push(s);
                for x in names {
                    let t = *self.r.pick(&[Ty::Num, Ty::Num, Ty::NList, Ty::Text, Ty::Ring1, Ty::List, Ty::Ring0]);
                    let t = if matches!(t, Ty::Ring1 | Ty::Ring0) && c.rings == 0 { Ty::Num } else { t };
                    let value = self.b(sc, t, 2);
                    self.add_local(sc, &x, t);
                    let s = self.st(SK::Assign { var: local(&x), value });
                    out.push(s);
                }
                return;
            }
            6 => {
                let num_list = self.r.pct(70);
                let (lt, vt) = if num_list { (Ty::NList, Ty::Num) } else { (Ty::List, self.any_ty()) };
                let list = match self.pick_var(sc, lt) { Some(v) if self.r.pct(92) => bx(self.ex(EK::Variable { var: v })), _ => self.b(sc, lt, 1) };
                if self.cfg.random && self.r.pct(25) { let value = self.b(sc, vt, 2); let k = if self.r.pct(50) { SK::ListInsertRandom { list, value } } else { SK::ListAssignRandom { list, value } }; let s = self.st(k); return out.push(s); }
                match self.r.weighted(&[8, 4, 4, 2, 1, 5, 2]) {
                    0 => { let value = self.b(sc, vt, 2); SK::ListInsertLast { list, value } }
                    1 => { let (value, index) = (self.b(sc, vt, 2), self.idx(sc, 1)); SK::ListInsert { list, value, index } }
                    2 => { let index = self.idx(sc, 1); SK::ListRemove { list, index } }
                    3 => SK::ListRemoveLast { list },
                    4 => SK::ListRemoveAll { list },
                    5 => { let (value, index) = (self.b(sc, vt, 2), self.idx(sc, 1)); SK::ListAssign { list, value, index } }
                    _ => { let value = self.b(sc, vt, 2); SK::ListAssignLast { list, value } }
                }
            }
            7 => { let Some(i) = self.callable(sc, None) else { return }; let (function, args, upvars) = self.call_parts(sc, i, 2); SK::CallFn { function, args, upvars } }
            8 => {
                let (t, n) = *self.r.pick(&[(Ty::Ring0, 0), (Ty::Ring1, 1), (Ty::Ring2, 2)]);
                let (closure, n) = if self.r.pct(14) { let n = 3 + self.r.below(5); (bx(self.ring(sc, n, Ty::Num, 2)), n) } else { (self.b(sc, t, 2), n) };
                let n = if self.r.pct(2) { n + 1 } else { n };
                let args = (0..n).map(|_| self.expr(sc, Ty::Num, 1)).collect();
                let new_entity = if self.r.pct(20) { Some(self.b(sc, Ty::Ent, 1)) } else { None };
                SK::CallClosure { new_entity, closure, args }
            }
            9 => if self.r.pct(30) { let error = self.b(sc, Ty::Text, 1); SK::Throw { error } } else {
                let name = self.new_local();
                let n = 1 + self.r.below(4);
                let mut code = self.body(sc, n);
                if self.r.pct(35) { let at = self.r.below(code.len() + 1); let x = self.push(); code.insert(at, x); }
                if self.r.pct(60) { let s = self.fault(sc); let at = self.r.below(code.len() + 1); code.insert(at, s); }
                let keep = sc.layers.last().unwrap().vars.clone();
                self.add_local(sc, &name, Ty::Text);
                let n = self.r.below(3);
                let handler = self.body(sc, n);
                sc.layers.last_mut().unwrap().vars = keep;
                SK::TryCatch { code, var: local(&name), handler }
            },
            10 => match self.r.below(8) {
                0 => SK::Stop { mode: StopMode::All },
                1 => SK::Stop { mode: StopMode::ThisScript },
                2 => SK::Stop { mode: StopMode::ThisBlock },
                3 | 4 => SK::Stop { mode: StopMode::AllButThisScript },
                5 | 6 => SK::Stop { mode: StopMode::OtherScriptsInSprite },
                _ => { let t = sc.ret.unwrap_or(Ty::Num); let value = self.b(sc, t, 2); SK::Return { value } }
            },
            11 => {
                let m = *self.r.pick(&self.msgs.clone());
                let msg_type = if m == "7" { bx(num(7.0)) } else if self.r.pct(90) { bx(txt(m)) } else { self.b(sc, Ty::Text, 1) };
                let target = if self.r.pct(25) { Some(if self.r.pct(60) { self.b(sc, Ty::Ent, 1) } else { let (a, b) = (self.expr(sc, Ty::Ent, 0), self.expr(sc, Ty::Ent, 0)); let mut values = vec![a, b]; if self.r.pct(15) { values.clear(); } else if self.r.pct(15) { for _ in 0..*self.r.pick(&[1, 1, 2, 4, 7]) { let c = self.expr(sc, Ty::Ent, 0); values.push(c); } } if self.r.pct(8) { let at = self.r.below(values.len() + 1); let v = match self.r.below(3) { 0 => txt("sprite1"), 1 => txt(""), _ => num(1.0) }; values.insert(at, v); } bx(bare(EK::MakeList { values })) }) } else { None };
                let wait = self.r.pct(45);
                SK::SendLocalMessage { target, msg_type, wait }
            }
            12 => if self.r.pct(30) { SK::DeleteClone } else { let target = self.b(sc, Ty::Ent, 1); SK::Clone { target } },
            13 => {
                let t = *self.r.pick(&[Ty::Ring0, Ty::Ring1]);
                let closure = self.b(sc, t, 2);
                let args = if t == Ty::Ring1 { vec![self.expr(sc, Ty::Num, 1)] } else { vec![] };
                SK::ForkClosure { closure, args }
            }
            14 => match self.r.below(5) {
                0 | 1 | 2 => { let s = *self.r.pick(&[0.0, 0.001, 0.02, 0.1, 0.5, -1.0, 0.0004, 0.0019]) * self.cfg.time_scale; SK::Sleep { seconds: bx(if self.r.pct(10) { txt(&format!("{s}")) } else { num(s) }) } }
                3 => { let t = bx(self.ex(EK::Timer)); let l = bx(num(*self.r.pick(&[0.01, 0.05, 0.2]) * self.cfg.time_scale)); let cond = self.ex(EK::Greater { left: t, right: l }); SK::WaitUntil { condition: bx(cond) } }
                _ => SK::ResetTimer,
            },
            15 => match self.r.below(11) {
                0 => { let prompt = self.b(sc, Ty::Text, 1); SK::Ask { prompt } }
                1 => { let value = self.b(sc, Ty::Num, 1); match self.r.below(4) { 0 => SK::SetX { value }, 1 => SK::SetY { value }, 2 => SK::SetHeading { value }, _ => SK::SetSize { value } } }
                2 => { let delta = self.b(sc, Ty::Num, 1); match self.r.below(3) { 0 => SK::ChangeX { delta }, 1 => SK::ChangeY { delta }, _ => SK::ChangeSize { delta } } }
                3 => { let (x, y) = (self.b(sc, Ty::Num, 1), self.b(sc, Ty::Num, 1)); if self.r.pct(60) { SK::GotoXY { x, y } } else { SK::PointTowardsXY { x, y } } }
                4 => { let v = self.b(sc, Ty::Num, 1); match self.r.below(3) { 0 => SK::Forward { distance: v }, 1 => SK::TurnRight { angle: v }, _ => SK::TurnLeft { angle: v } } }
                5 => { let target = if self.r.pct(60) { self.b(sc, Ty::Ent, 0) } else { self.b(sc, Ty::NList, 1) }; if self.r.pct(50) { SK::Goto { target } } else { SK::PointTowards { target } } }
                6 => { let EK::UnknownBlock { args, .. } = self.syscall(sc, Ty::Num, 1) else { unreachable!() }; let s = self.st(SK::UnknownBlock { name: cs("nativeRunSyscall"), args }); out.push(s); if self.r.pct(60) { return; } let k = self.last_error(sc); return out.push(k) }
                7 => { let n = if self.r.pct(75) { self.r.below(3) } else { self.r.below(10) }; let args = (0..n).map(|_| { let t = self.any_ty(); self.expr(sc, t, 1) }).collect(); SK::UnknownBlock { name: cs("frobnicate"), args } }
                8 => match self.r.below(5) { 0 => SK::PenClear, 1 => { let beats = self.b(sc, Ty::Num, 1); SK::Rest { beats } } _ => return { let k = self.last_error(sc); out.push(k) } },
                _ => { let (host, service, rpc, args) = self.rpc(sc); let s = self.st(SK::CallRpc { host, service, rpc, args }); out.push(s); if self.r.pct(60) { return; } let k = self.last_error(sc); return out.push(k) }
            },
            16 => {
                let n = 1 + self.r.below(3);
                let mut stmts = self.body(sc, n);
                if self.r.pct(4) { for _ in 0..*self.r.pick(&[2usize, 3, 9, 20, 70, 260]) { stmts = vec![self.st(SK::Warp { stmts })]; } }
                SK::Warp { stmts }
            }
            17 => { let t = self.any_ty(); match self.pick_var(sc, t) { Some(var) => if self.r.pct(70) { SK::ShowVar { var } } else { SK::HideVar { var } }, None => return } }
            18 => {
                let nv = if self.r.pct(80) { self.r.below(3) } else { self.r.below(FIELDS.len() + 1) };
                let values: Vec<(CompactString, Expr)> = (0..nv).map(|i| (cs(FIELDS[i]), { let t = *self.r.pick(&[Ty::Num, Ty::Text, Ty::NList]); self.expr(sc, t, 1) })).collect();
                let target = if self.r.pct(75) { bx(txt(*self.r.pick(&["everyone in room", "role2", "others in room"]))) } else { bx(bare(EK::MakeList { values: vec![txt("a"), txt("b")] })) };
                match self.r.below(4) {
                    0 | 1 => SK::SendNetworkMessage { target, msg_type: cs(*self.r.pick(NETMSGS)), values },
                    2 => { let k = self.reply(sc); if self.r.pct(50) { return { let s = self.st(k); out.push(s); } } self.guarded_reply(sc, k, out); return }
                    _ => { let m = cs(*self.r.pick(NETMSGS)); let e = self.ex(EK::NetworkMessageReply { target, msg_type: m, values }); SK::Say { content: bx(e), duration: None } }
                }
            }
            19 => self.media_stmt(sc),
            20 => SK::Pause,
            _ => { let n = 1 + self.r.below(3); let mut b = self.body(sc, n); let s = self.say(sc); b.push(s); SK::InfLoop { stmts: b } }
        };
        let s = self.st(k);
        out.push(s);
    }
    /// an answer to the message being handled, which is sometimes something that cannot be sent
    fn reply(&mut self, sc: &mut Sc) -> SK {
        let value = match self.r.below(8) {
            0 => self.ring(sc, 0, Ty::Num, 1),
            1 => self.ex(EK::This),
            2 => { let a = self.leaf(sc, Ty::Num); let b = if self.r.pct(50) { self.ring(sc, 1, Ty::Num, 1) } else { self.ex(EK::This) }; self.ex(EK::MakeList { values: vec![a, b] }) }
            3 => self.expr(sc, Ty::List, 1),
            4 => self.expr(sc, Ty::Text, 1),
            5 => self.expr(sc, Ty::Bool, 1),
            _ => self.expr(sc, Ty::NList, 1),
        };
        SK::SendNetworkReply { value: bx(value) }
    }
    /// the host keeps something for the script from here on (it is given back where an error is caught)
    fn push(&mut self) -> Stmt { let args = vec![txt("push"), bare(EK::MakeList { values: vec![] })]; self.st(SK::UnknownBlock { name: cs("nativeRunSyscall"), args }) }
    /// an attempt to answer, then (perhaps from the error handler, perhaps twice) another answer
    fn guarded_reply(&mut self, sc: &mut Sc, first: SK, out: &mut Vec<Stmt>) {
        let name = self.new_local();
        let mut code = vec![self.st(first)];
        if self.r.pct(20) { let x = self.push(); code.insert(0, x); }
        let mut handler = vec![];
        if self.r.pct(40) { let k = self.reply(sc); handler.push(self.st(k)); }
        let s = self.st(SK::TryCatch { code, var: local(&name), handler });
        out.push(s);
        if self.r.pct(70) { let k = self.reply(sc); let s = self.st(k); out.push(s); }
        if self.r.pct(20) { let k = self.reply(sc); let s = self.st(k); out.push(s); }
    }
    /// a statement that (usually) fails
    fn fault(&mut self, sc: &mut Sc) -> Stmt {
        let e = match self.r.below(5) {
            0 => { let l = self.b(sc, Ty::NList, 1); EK::ListGet { list: l, index: bx(num(99.0)) } }
            1 => EK::Div { left: bx(num(1.0)), right: bx(num(0.0)) },
            2 => EK::Neg { value: bx(txt("oops")) },
            3 => { let r = self.ring(sc, 1, Ty::Num, 1); EK::CallClosure { new_entity: None, closure: bx(r), args: vec![] } }
            _ => { let t = self.ring_throw(sc); EK::CallClosure { new_entity: None, closure: bx(t), args: vec![] } }
        };
        let e = self.ex(e);
        // inside a larger expression, so that operands are pending when the failure happens
        let e = if self.r.pct(60) { let a = self.expr(sc, Ty::Num, 1); self.ex(EK::Add { values: bx(bare(EK::MakeList { values: vec![a, e] })) }) } else { e };
        let e = if self.r.pct(40) { let a = self.expr(sc, Ty::Num, 1); self.ex(EK::MakeList { values: vec![a, num(1.0), e] }) } else { e };
        self.st(SK::Say { content: bx(e), duration: None })
    }
    fn ring_throw(&mut self, sc: &mut Sc) -> Expr {
        let old = (sc.ret, sc.in_ring);
        sc.in_ring = true;
        sc.layers.push(Layer::default());
        let mut stmts = vec![];
        if self.r.pct(50) { let EK::UnknownBlock { args, .. } = self.syscall(sc, Ty::Num, 0) else { unreachable!() }; stmts.push(self.st(SK::UnknownBlock { name: cs("nativeRunSyscall"), args })); }
        let error = self.b(sc, Ty::Text, 1);
        let t = self.st(SK::Throw { error });
        if self.r.pct(40) { stmts.push(self.st(SK::Warp { stmts: vec![t] })); } else { stmts.push(t); }
        let layer = sc.layers.pop().unwrap();
        (sc.ret, sc.in_ring) = old;
        let captures = layer.used.iter().map(|u| vref(u, VarLocation::Local)).collect();
        self.ex(EK::Closure { kind: ClosureKind::Command, params: vec![], captures, stmts })
    }
    /// a costume, or something that stands for one
    fn costume(&mut self, sc: &mut Sc) -> Expr {
        if self.r.pct(12) {
            // another sprite's costume
            let e = self.b(sc, Ty::Ent, 0);
            let value = bx(if self.r.pct(60) { bare(EK::Costume) } else { bare(EK::ListGet { list: bx(bare(EK::CostumeList)), index: bx(num(1.0)) }) });
            let stmts = vec![self.st(SK::Return { value })];
            let closure = bx(self.ex(EK::Closure { kind: ClosureKind::Reporter, params: vec![], captures: vec![], stmts }));
            return self.ex(EK::CallClosure { new_entity: Some(e), closure, args: vec![] });
        }
        let own = sc.ent.map(|e| self.ents[e].costumes.clone()).unwrap_or_default();
        match self.r.below(12) {
            0 => txt(""),
            1 => { let t = *self.r.pick(&["nope", "Cos0", "cos", "0", "1", "cos0 ", "COS1"]); txt(t) }
            2 => self.ex(EK::Costume),
            3 | 4 => { let i = bx(num(self.r.range(1, 3) as f64)); let l = bx(self.ex(EK::CostumeList)); self.ex(EK::ListGet { list: l, index: i }) }
            5 => { let l = bx(self.ex(EK::CostumeList)); self.ex(EK::ListGetLast { list: l }) }
            6 => { let l = self.b(sc, Ty::List, 1); self.ex(EK::ListGetLast { list: l }) }
            7 => if self.r.pct(30) { self.expr_(sc, Ty::Num, 1) } else { num(self.r.range(0, 2) as f64) },
            _ if !own.is_empty() => { let n = self.r.pick(&own).clone(); txt(&n) }
            _ => txt("cos1"),
        }
    }
    fn sound(&mut self, sc: &mut Sc) -> Expr {
        let own = sc.ent.map(|e| self.ents[e].sounds.clone()).unwrap_or_default();
        match self.r.below(8) {
            0 => { let t = *self.r.pick(&["", "nope", "SND0", "1"]); txt(t) }
            1 => { let i = bx(num(self.r.range(1, 2) as f64)); let l = bx(self.ex(EK::SoundList)); self.ex(EK::ListGet { list: l, index: i }) }
            2 => { let l = self.b(sc, Ty::List, 1); self.ex(EK::ListGetLast { list: l }) }
            _ if !own.is_empty() => { let n = self.r.pick(&own).clone(); txt(&n) }
            _ => txt("snd0"),
        }
    }
    fn note(&mut self) -> Expr { if self.r.pct(50) { num(if self.r.pct(85) { self.r.range(-1, 129) as f64 } else { *self.r.pick(&[60.5, -0.0, 1e300, 127.00001, 256.0, 316.0]) }) } else { let t = *self.r.pick(&["C4", "bb3", "F#5", "H2", "c-1", "g9", "g#9", "Cn4", "Eb4", "64", "Dss3", "A", "", "B-2", "C♯4"]); txt(t) } }
    fn media_stmt(&mut self, sc: &mut Sc) -> SK {
        match self.r.below(14) {
            0..=2 => SK::SetCostume { costume: bx(self.costume(sc)) },
            3 | 4 => SK::NextCostume,
            5 => { let sound = bx(self.sound(sc)); SK::PlaySound { sound, blocking: self.r.pct(50) } }
            6 => {
                let notes = if self.r.pct(30) { let n = self.r.below(4); let values = (0..n).map(|_| self.note()).collect(); self.ex(EK::MakeList { values }) } else { self.note() };
                let beats = if self.r.pct(70) { num(*self.r.pick(&[0.0, 1.0, 2.0, 0.25, -1.0])) } else { self.expr_(sc, Ty::Num, 1) };
                SK::PlayNotes { notes: bx(notes), beats: bx(beats), blocking: self.r.pct(50) }
            }
            7 | 8 => { let value = if self.r.pct(70) { self.costume(sc) } else { self.sound(sc) }; let list = self.b(sc, Ty::List, 1); SK::ListInsertLast { list, value: bx(value) } }
            9 if self.r.pct(30) => SK::StopSounds,
            _ => {
                let k = match self.r.below(9) {
                    0 | 1 => EK::CostumeNumber,
                    2 => EK::CostumeName { costume: bx(bare(EK::Costume)) },
                    3 => EK::CostumeName { costume: bx(self.costume(sc)) },
                    4 => EK::SoundName { sound: bx(self.sound(sc)) },
                    5 => EK::CostumeList,
                    6 => EK::SoundList,
                    7 => { let (l, r) = (bx(self.costume(sc)), bx(self.costume(sc))); if self.r.pct(50) { EK::Identical { left: l, right: r } } else { EK::Eq { left: l, right: r } } }
                    _ => EK::Costume,
                };
                let e = self.ex(k);
                SK::Say { content: bx(e), duration: None }
            }
        }
    }
    fn loop_stmt(&mut self, sc: &mut Sc, out: &mut Vec<Stmt>) {
        sc.loops += 1;
        let small = sc.loops > 2;
        let n = 1 + self.r.below(3);
        let k = match self.r.below(6) {
            0 => { let t = if self.r.pct(85) { bx(num(self.r.range(0, if small { 2 } else { 4 }) as f64)) } else { bx(num(*self.r.pick(&[1.5, -1.0, 0.0, 2.2]))) }; let stmts = self.body(sc, n); SK::Repeat { times: t, stmts } }
            1 | 2 => {
                let v = self.new_local();
                let (a, b) = (self.r.range(-1, 3), self.r.range(-1, if small { 3 } else { 5 }));
                let (start, stop) = (bx(num(a as f64)), if self.r.pct(10) { bx(num(b as f64 + 0.5)) } else { bx(num(b as f64)) });
                // bounds may mention an outer variable of the loop variable's name
                let start = if self.r.pct(15) { let l = self.b(sc, Ty::NList, 1); bx(self.ex(EK::ListLen { value: l })) } else { start };
                let keep = sc.layers.last().unwrap().vars.clone();
                self.add_local(sc, &v, Ty::Num);
                let stmts = self.body(sc, n);
                if self.r.pct(80) { sc.layers.last_mut().unwrap().vars = keep; }
                SK::ForLoop { var: local(&v), start, stop, stmts }
            }
            3 => {
                let v = self.new_local();
                let items = if small { let m = self.r.below(3); let v = (0..m).map(|_| num(self.number())).collect(); bx(self.ex(EK::MakeList { values: v })) } else { self.b(sc, Ty::NList, 2) };
                let keep = sc.layers.last().unwrap().vars.clone();
                self.add_local(sc, &v, Ty::Num);
                let stmts = self.body(sc, n);
                if self.r.pct(80) { sc.layers.last_mut().unwrap().vars = keep; }
                SK::ForeachLoop { var: local(&v), items, stmts }
            }
            k => {
                // counted until-loop or forever-loop with an exit
                let v = { self.next_local += 1; format!("c{}", self.next_local) };
                out.push(self.st(SK::DeclareLocals { vars: vec![def(&v)] }));
                let lim = self.r.range(0, if small { 2 } else { 4 }) as f64;
                let mut stmts = self.body(sc, n);
                let inc = self.st(SK::AddAssign { var: local(&v), value: bx(num(1.0)) });
                let at = self.r.below(stmts.len() + 1);
                if k == 4 || sc.nest > 3 {
                    stmts.insert(at, inc);
                    let l = bx(self.ex(EK::Variable { var: local(&v) }));
                    let condition = bx(self.ex(EK::Greater { left: l, right: bx(num(lim)) }));
                    SK::UntilLoop { condition, stmts }
                } else {
                    let l = bx(self.ex(EK::Variable { var: local(&v) }));
                    let condition = bx(self.ex(EK::Greater { left: l, right: bx(num(lim)) }));
                    let exit = if sc.in_ring || sc.ret.is_some() { let t = sc.ret.unwrap_or(Ty::Num); let e = self.b(sc, t, 1); self.st(SK::Return { value: e }) } else { let mode = if self.r.pct(50) { StopMode::ThisBlock } else { StopMode::ThisScript }; self.st(SK::Stop { mode }) };
                    let guard = self.st(SK::If { condition, then: vec![exit] });
                    stmts.insert(at, guard);
                    stmts.insert(at, inc);
                    SK::InfLoop { stmts }
                }
            }
        };
        sc.loops -= 1;
        let s = self.st(k);
        out.push(s);
    }

    // ---- whole projects ----
    fn init(&mut self, ty: Ty) -> Value {
        match ty {
            Ty::Num => Value::Number(self.number()),
            Ty::Bool => Value::Bool(self.r.pct(50)),
            Ty::Text => Value::String(cs(*self.r.pick(TEXTS))),
            Ty::NList => { let n = if self.r.pct(4) { 9 + self.r.below(50) } else { self.r.below(5) }; let v = (0..n).map(|_| Value::Number(self.number())).collect(); Value::List(v, None) }
            _ => { let n = if self.r.pct(4) { 9 + self.r.below(30) } else { self.r.below(4) }; let v = (0..n).map(|_| { let t = self.any_ty(); let t = if t == Ty::List { Ty::Text } else { t }; self.init(t) }).collect(); Value::List(v, None) }
        }
    }
    fn func(&mut self, i: usize) -> Function {
        let (name, params, ups, ret, ent, rec) = { let f = &self.funcs[i]; (f.name.clone(), f.params.clone(), f.upvars.clone(), f.ret, f.ent, f.rec) };
        let mut vars = params.clone();
        for (k, v) in vars.iter_mut().enumerate() { if ups.contains(&k) { v.1 = Ty::Num; } }
        let mut sc = Sc { ent, layers: vec![Layer { vars, used: vec![] }], fn_level: i + 1, ret: Some(ret.unwrap_or(Ty::Num)), loops: 1, budget: (self.cfg.budget / 2) as i32, nest: 1, script: false, in_ring: false };
        let mut stmts = vec![];
        if rec {
            let p0 = local(&params[0].0);
            let base = self.expr_(&mut sc, Ty::Num, 1);
            let mut then = vec![self.st(SK::Return { value: bx(base) })];
            // the deepest call may wait, while other scripts go on
            if self.cfg.waits > 0 && self.r.pct(40) { let w = num(*self.r.pick(&[0.0, 0.01, 0.05])); let w = self.st(SK::Sleep { seconds: bx(w) }); then.insert(0, w); }
            let l = bx(self.ex(EK::Variable { var: p0.clone() }));
            let condition = bx(self.ex(EK::LessEq { left: l, right: bx(num(0.0)) }));
            stmts.push(self.st(SK::If { condition, then }));
        }
        let n = 1 + self.r.below(3);
        self.stmts(&mut sc, n, &mut stmts);
        if rec {
            let l = bx(self.ex(EK::Variable { var: local(&params[0].0) }));
            let less = self.ex(EK::Sub { left: l, right: bx(num(1.0)) });
            let mut args = vec![less];
            for _ in 1..params.len() { args.push(self.expr_(&mut sc, Ty::Num, 1)); }
            let call = self.ex(EK::CallFn { function: FnRef { name: cs(&name), trans_name: cs(&name), location: if ent.is_some() { FnLocation::Method } else { FnLocation::Global } }, args, upvars: vec![] });
            let v = var(local(&params[0].0));
            let e = if self.r.pct(50) { self.ex(EK::Add { values: bx(bare(EK::MakeList { values: vec![v, call] })) }) } else { self.ex(EK::Add { values: bx(bare(EK::MakeList { values: vec![call, v] })) }) };
            stmts.push(self.st(SK::Return { value: bx(e) }));
        } else if let Some(t) = ret {
            let value = bx(self.expr_(&mut sc, t, 3));
            stmts.push(self.st(SK::Return { value }));
        }
        Function { name: cs(&name), trans_name: cs(&name), params: params.iter().map(|p| def(&p.0)).collect(), upvars: ups.iter().map(|&u| local(&params[u].0)).collect(), returns: ret.is_some(), stmts }
    }
    pub fn role(&mut self) -> Role {
        let c = self.cfg.clone();
        let tys = [Ty::Num, Ty::NList, Ty::Text, Ty::Bool, Ty::List, Ty::Num, Ty::NList];
        let n = 3 + self.r.below(4);
        for i in 0..n { let t = if i < 3 { tys[i] } else { tys[self.r.below(tys.len())] }; let name = if self.r.pct(10) { format!("g {i} é") } else { format!("g{i}") }; self.globals.push((name, t)); }
        if c.rings > 0 { for (i, t) in [Ty::Ring0, Ty::Ring1].into_iter().enumerate() { if self.r.pct(40) { self.globals.push((format!("r{i}"), t)); } } }
        let ne = 1 + self.r.below(c.max_ents);
        for e in 0..ne {
            let nf = self.r.below(4);
            let mut fields: Vec<Var> = vec![];
            for i in 0..nf {
                let name = if self.r.pct(c.shadow) { let k = self.r.below(self.globals.len()); self.globals[k].0.clone() } else { format!("f{i}") };
                if fields.iter().any(|f| f.0 == name) { continue; }
                fields.push((name, tys[self.r.below(tys.len())]));
            }
            let nm = if c.media > 8 { self.r.below(7) } else if c.media > 0 { self.r.below(4) } else { 0 };
            let ns = if c.media > 0 { self.r.below(3) } else { 0 };
            self.ents.push(EInfo { name: if e == 0 { "Stage".into() } else { format!("sprite{e}") }, fields, costumes: (0..nm).map(|i| format!("cos{i}")).collect(), sounds: (0..ns).map(|i| format!("snd{i}")).collect() });
        }
        let nf = if c.calls > 0 { self.r.below(c.max_funcs + 1) } else { 0 };
        for i in 0..nf {
            let ent = if self.r.pct(35) { Some(self.r.below(ne)) } else { None };
            let rec = self.r.pct(c.recursion * 8);
            let np = if rec { 1 + self.r.below(2) } else { self.r.below(4) };
            let mut params: Vec<Var> = vec![];
            for p in 0..np {
                let name = if self.r.pct(c.shadow) { self.globals[0].0.clone() } else { format!("p{p}") };
                if params.iter().any(|x| x.0 == name) { continue; }
                let t = if rec { Ty::Num } else { *self.r.pick(&[Ty::Num, Ty::Num, Ty::NList, Ty::Text, if c.rings > 0 { Ty::Ring1 } else { Ty::Num }]) };
                params.push((name, t));
            }
            let upvars: Vec<usize> = if !rec && self.r.pct(20) && !params.is_empty() { let first = self.r.below(params.len()); (0..params.len()).filter(|&k| k == first || self.r.pct(30)).collect() } else { vec![] };
            let ret = if rec { Some(Ty::Num) } else if self.r.pct(70) { Some(*self.r.pick(&[Ty::Num, Ty::Num, Ty::Bool, Ty::NList, Ty::Text])) } else { None };
            self.funcs.push(FInfo { name: format!("fn{i}"), params, upvars, ret, ent, rec });
        }
        // a sprite's own block may have the name of a global one
        for i in 0..nf {
            let Some(e) = self.funcs[i].ent else { continue };
            let g: Vec<String> = self.funcs.iter().filter(|f| f.ent.is_none()).map(|f| f.name.clone()).collect();
            if g.is_empty() || !self.r.pct(30) { continue; }
            let n = self.r.pick(&g).clone();
            if !self.funcs.iter().any(|f| f.ent == Some(e) && f.name == n) { self.funcs[i].name = n; }
        }
        let mut gfuncs = vec![];
        let mut efuncs: Vec<Vec<Function>> = (0..ne).map(|_| vec![]).collect();
        for i in 0..nf { let f = self.func(i); match self.funcs[i].ent { None => gfuncs.push(f), Some(e) => efuncs[e].push(f) } }
        // functions are listed in any order
        self.r.shuffle(&mut gfuncs);
        let mut entities = vec![];
        for e in 0..ne {
            let nscripts = 1 + self.r.below(c.max_scripts);
            let mut scripts = vec![];
            for s in 0..nscripts {
                let mut vars = vec![];
                let w = [if e == 0 && s == 0 { 1000 } else { 6 }, c.clones * 3, 2, c.bcast * 5, c.net * 3, 2];
                let hat = match self.r.weighted(&w) {
                    0 => HK::OnFlag,
                    1 => HK::OnClone,
                    2 => HK::OnKey { key: cs(*self.r.pick(&["any key", "any key", "a", "a", "A", "space", "up arrow", "enter", "down arrow", "left arrow", "right arrow", "5"])) },
                    3 => HK::LocalMessage { msg_type: if self.r.pct(15) { None } else { let m = *self.r.pick(&self.msgs.clone()); Some(cs(m)) } },
                    4 => { let fields = self.fields(&mut vars); HK::NetworkMessage { msg_type: cs(*self.r.pick(NETMSGS)), fields } }
                    _ => { let fields = self.fields(&mut vars); HK::Unknown { name: cs(*self.r.pick(&["evt", "evt", "evt", "Evt", "evt2"])), fields } }
                };
                let mut sc = Sc { ent: Some(e), layers: vec![Layer { vars, used: vec![] }], fn_level: 0, ret: None, loops: 0, budget: c.budget as i32, nest: 0, script: true, in_ring: false };
                let n = 2 + self.r.below(5);
                let mut stmts = vec![];
                self.stmts(&mut sc, n, &mut stmts);
                if matches!(hat, HK::NetworkMessage { .. }) && self.r.pct(40) { let k = self.reply(&mut sc); if self.r.pct(60) { self.guarded_reply(&mut sc, k, &mut stmts) } else { let s = self.st(k); stmts.push(s) } }
                let info = self.info();
                scripts.push(Script { hat: Some(Box::new(Hat { kind: hat, info })), stmts });
            }
            // now and then many scripts
            if self.r.pct(1) {
                for k in 0..*self.r.pick(&[8, 15, 40]) {
                    let m = *self.r.pick(&self.msgs.clone());
                    let hat = match self.r.below(4) { 0 => HK::OnFlag, 1 => HK::OnClone, 2 => HK::OnKey { key: cs("a") }, _ => HK::LocalMessage { msg_type: Some(cs(m)) } };
                    let content = bx(txt(&format!("{k}")));
                    let (info, stmts) = (self.info(), vec![self.st(SK::Say { content, duration: None })]);
                    scripts.push(Script { hat: Some(Box::new(Hat { kind: hat, info })), stmts });
                }
            }
            let fields = { let fs = self.ents[e].fields.clone(); fs.iter().map(|f| VariableDefInit { def: def(&f.0), init: self.init(f.1) }).collect() };
            // two costumes may show the same picture
            let same = (if self.r.pct(25) { Some(self.r.below(4)) } else { None }, self.r.below(4));
            let ei = &self.ents[e];
            let costumes: Vec<VariableDefInit> = ei.costumes.iter().enumerate().map(|(i, n)| VariableDefInit { def: def(n), init: Value::Image(std::rc::Rc::new((if same.0 == Some(i) { vec![same.1 as u8, e as u8] } else { vec![i as u8, e as u8] }, None, cs(n)))) }).collect();
            let sounds = ei.sounds.iter().enumerate().map(|(i, n)| VariableDefInit { def: def(n), init: Value::Audio(std::rc::Rc::new((vec![i as u8], cs(n)))) }).collect();
            let (name, nc) = (ei.name.clone(), costumes.len());
            let active_costume = if nc > 0 && self.r.pct(70) { Some(self.r.below(nc)) } else { None };
            entities.push(Entity { name: cs(&name), trans_name: cs(&name), fields, costumes, sounds, funcs: std::mem::take(&mut efuncs[e]), scripts, active_costume, visible: true, color: (1, 2, 3, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 });
        }
        let mut globals: Vec<VariableDefInit> = vec![];
        for g in self.globals.clone() { globals.push(VariableDefInit { def: def(&g.0), init: self.init(g.1) }); }
        // some lists are shared between variables
        if self.r.pct(25) {
            let ls: Vec<usize> = (0..globals.len()).filter(|&i| matches!(globals[i].init, Value::List(_, None))).collect();
            if ls.len() >= 2 {
                let id = self.next_ref;
                self.next_ref += 1;
                if let Value::List(_, r) = &mut globals[ls[0]].init { *r = Some(RefId(id)); }
                globals[ls[1]].init = Value::Ref(RefId(id));
            }
        }
        Role { name: cs("role"), notes: cs(""), stage_size: (480, 360), globals, funcs: gfuncs, entities }
    }
    fn fields(&mut self, vars: &mut Vec<Var>) -> Vec<VariableRef> {
        let mut f: Vec<&str> = vec!["x"];
        if self.r.pct(40) { f = FIELDS.to_vec(); self.r.shuffle(&mut f); f.truncate(self.r.below(4)); }
        f.into_iter().map(|n| { vars.push((n.to_string(), Ty::Num)); local(n) }).collect()
    }
    fn values_(&mut self) -> Vec<(String, HVal)> {
        let mut v: Vec<(String, HVal)> = vec![];
        for n in FIELDS { if self.r.pct(if *n == "x" { 75 } else { 30 }) { let x = match self.r.below(6) { 0 => HVal::Text("q".into()), 1 => HVal::List(vec![HVal::Num(1.0), HVal::List(vec![HVal::Bool(true)])]), 2 => HVal::Bool(false), _ => HVal::Num(self.r.range(0, 99) as f64) }; v.push((n.to_string(), x)); } }
        self.r.shuffle(&mut v);
        v
    }
    pub fn plan(&mut self) -> Vec<(u64, PlanInput)> {
        let mut plan = vec![(0, PlanInput::Start)];
        let mut t = 0;
        for _ in 0..self.r.below(self.cfg.inputs + 1) {
            t += match self.r.below(3) { 0 => 0, 1 => self.r.below(6) as u64, _ => self.r.below(60) as u64 };
            let i = self.input();
            plan.push((t, i));
        }
        // now and then many of a kind at once
        if self.cfg.inputs > 0 && self.r.pct(1) {
            let t = self.r.below(30) as u64;
            let at = plan.iter().position(|x| x.0 > t).unwrap_or(plan.len());
            let name = *self.r.pick(&["evt", "Evt"]);
            let many: Vec<_> = (0..*self.r.pick(&[20, 40, 70, 140, 300])).map(|k| (t, if self.cfg.net > 0 { self.msg() } else { PlanInput::Custom { name: name.into(), args: vec![("x".into(), HVal::Num(k as f64))], interrupt: false, max_queue: *self.r.pick(&[usize::MAX, usize::MAX, 1000, 33]) } })).collect();
            plan.splice(at..at, many);
        }
        plan
    }
    pub fn input(&mut self) -> PlanInput {
        match self.r.weighted(&[3, 1, 6, 5, if self.cfg.net > 0 { 6 } else { 0 }]) {
            0 => PlanInput::Start,
            1 => PlanInput::Stop,
            2 => { let k = *self.r.pick(&[KeyCode::Char('a'), KeyCode::Char('a'), KeyCode::Char(' '), KeyCode::Up, KeyCode::Enter, KeyCode::Char('z'), KeyCode::Char('5'), KeyCode::Down, KeyCode::Left, KeyCode::Right]); if self.r.pct(85) { PlanInput::Key(k) } else { PlanInput::KeyUp(k) } }
            3 => PlanInput::Custom { name: (*self.r.pick(&["evt", "evt", "evt", "evt", "evt", "Evt", "evt2", "other"])).into(), args: if self.r.pct(50) { vec![("x".into(), HVal::Num(self.r.range(0, 9) as f64))] } else { self.values_() }, interrupt: self.r.pct(30), max_queue: *self.r.pick(&[0, 0, 1, 2, 100]) },
            _ => self.msg(),
        }
    }
    pub fn msg(&mut self) -> PlanInput {
        let values = match self.r.below(6) { 4 | 5 => self.values_(), 0 => vec![], 1 => vec![("x".into(), HVal::Num(self.r.range(0, 9) as f64)), ("zz".into(), HVal::Text("q".into()))], _ => vec![("x".into(), HVal::Num(self.r.range(0, 99) as f64))] };
        let reply = if self.r.pct(40) { Some(("src".to_string(), format!("rq{}", self.r.below(1000)))) } else { None };
        PlanInput::Msg(InMsg { msg_type: (*self.r.pick(&["n0", "n1", "n1", "n0", "n1", "n 2", "N0", "", "nope"])).into(), values, reply })
    }
    pub fn case(self) -> Case { self.case_styled().0 }
    pub fn case_styled(mut self) -> (Case, usize) {
        let role = Box::leak(Box::new(self.role()));
        let plan = self.plan();
        let host = if self.cfg.faults { HostCfg::random(&mut self.r) } else { HostCfg::calm(self.r.next()) };
        let mcfg = ModelCfg { limit: *self.r.pick(&[1024, 1024, 6, 12]), rpc_soft: self.r.pct(50), sys_soft: self.r.pct(50), turn_cap: self.cfg.turn_cap, ..Default::default() };
        let gc = if self.cfg.gc { *self.r.pick(&[GcMode::Debt, GcMode::Never, GcMode::Debt, GcMode::Every(50)]) } else { GcMode::Debt };
        (Case { role, plan, host, mcfg, gc, reload: false, layers: None, manual: None }, self.loc_style)
    }
}
pub type ScRef = Sc;
pub fn case(seed: u64, cfg: GenCfg) -> Case { G::new(seed, cfg).case() }
#[allow(dead_code)] fn _unused(_: &ast::Role) {}
