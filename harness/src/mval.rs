//! Values and pure value operations of the reference model (independent of the VM's value types and operations).
use crate::host::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::{Rc, Weak};
use unicode_segmentation::UnicodeSegmentation;

pub type Cel = Rc<RefCell<V>>;
pub type L = Rc<RefCell<Vec<V>>>;
pub struct Img { pub name: String, pub content: Vec<u8> }
impl Img { pub fn label(&self) -> String { media_label(&self.name, &self.content) } }
pub fn media_label(name: &str, content: &[u8]) -> String { format!("{name}/{}", content.iter().take(4).map(|b| format!("{b:02x}")).collect::<String>()) }
pub struct Ent {
    pub raw: u64,
    pub name: String,
    pub src: &'static netsblox_vm::ast::Entity,
    pub parent: Option<u64>,
    pub original: Option<Rc<Ent>>,
    pub fields: RefCell<BTreeMap<String, Cel>>,
    pub props: RefCell<BTreeMap<String, HVal>>,
    pub costume: RefCell<Option<Rc<Img>>>,
    pub costumes: Rc<Vec<(String, Rc<Img>)>>,
    pub sounds: Rc<Vec<(String, Rc<Img>)>>,
}
pub struct Clo {
    pub params: Vec<String>,
    pub captures: Vec<(String, Cel)>,
    pub body: &'static [netsblox_vm::ast::Stmt],
    pub lex: Option<&'static netsblox_vm::ast::Entity>,
}
#[derive(Clone)]
pub enum V { Bool(bool), Num(f64), Text(Rc<str>), List(L), Clo(Rc<Clo>), Ent(Rc<Ent>), Image(Rc<Img>), Audio(Rc<Img>), Nat(Rc<u32>) }

/// Ok(value) or the error text the user would see.
pub type R1<T> = Result<T, String>;

pub fn text(s: &str) -> V { alloc_note(s.len() / 16 + 1); V::Text(s.into()) }
pub fn list(v: Vec<V>) -> V { alloc_note(v.len() + 1); V::List(Rc::new(RefCell::new(v))) }

thread_local! { pub static ALLOC: Cell<u64> = const { Cell::new(0) }; pub static ALLOC_CAP: Cell<u64> = const { Cell::new(u64::MAX) }; }
pub fn alloc_note(n: usize) { ALLOC.with(|a| a.set(a.get() + n as u64)); }
/// the marker error: model resource budget exceeded (case is skipped, never judged)
pub const FUEL: &str = "\u{1}FUEL";
pub fn spent() -> bool { ALLOC.with(|a| a.get()) > ALLOC_CAP.with(|a| a.get()) }
/// accounts for one visited node; true: over budget, stop visiting
fn visit(v: &V) -> bool { alloc_note(1 + if let V::Text(s) = v { s.len() / 16 } else { 0 }); spent() }
pub fn alloc_check() -> R1<()> { if ALLOC.with(|a| a.get()) > ALLOC_CAP.with(|a| a.get()) { Err(FUEL.into()) } else { Ok(()) } }

impl V {
    pub fn ty(&self) -> &'static str {
        match self { V::Bool(_) => "Bool", V::Num(_) => "Number", V::Text(_) => "Text", V::List(_) => "List", V::Clo(_) => "Closure", V::Ent(_) => "Entity", V::Image(_) => "Image", V::Audio(_) => "Audio", V::Nat(_) => "Native(NT)" }
    }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a == b,
            (V::Text(a), V::Text(b)) => a == b,
            (V::List(a), V::List(b)) => Rc::ptr_eq(a, b),
            (V::Clo(a), V::Clo(b)) => Rc::ptr_eq(a, b),
            (V::Ent(a), V::Ent(b)) => Rc::ptr_eq(a, b),
            (V::Image(a), V::Image(b)) | (V::Audio(a), V::Audio(b)) => Rc::ptr_eq(a, b),
            (V::Nat(a), V::Nat(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
    pub fn from_h(v: &HVal) -> V {
        match v { HVal::Bool(x) => V::Bool(*x), HVal::Num(x) => V::Num(*x), HVal::Text(x) => text(x), HVal::List(x) => list(x.iter().map(V::from_h).collect()), HVal::Native(n) => V::Nat(Rc::new(*n)) }
    }
}
pub fn conv(v: &V, want: &str) -> String { format!("ConversionError {{ got: {}, expected: {want} }}", v.ty()) }
pub fn oob(index: i64, len: usize) -> String { format!("IndexOutOfBounds {{ index: {index}, len: {len} }}") }
pub fn chk(x: f64) -> R1<f64> {
    if x.is_nan() { return Err("NumberError { error: Nan }".into()); }
    if x.is_infinite() { return Err("NumberError { error: Infinity }".into()); }
    Ok(if x == 0.0 { 0.0 } else { x })
}
pub fn num_text(x: f64) -> String {
    let mut b = ryu::Buffer::new();
    let s = b.format_finite(x);
    s.strip_suffix(".0").unwrap_or(s).to_string()
}
pub fn parse_num(s: &str) -> Option<f64> {
    let s = s.trim();
    let lower: String = s.chars().take(2).collect::<String>().to_ascii_lowercase();
    let radix = match lower.as_str() { "0x" => 16, "0o" => 8, "0b" => 2, _ => 10 };
    let v = if radix != 10 { i64::from_str_radix(&s[2..], radix).ok()? as f64 } else { s.parse::<f64>().ok()? };
    chk(v).ok()
}
pub fn as_num(v: &V) -> R1<f64> {
    match v { V::Num(x) => Ok(*x), V::Text(s) => parse_num(s).ok_or_else(|| conv(v, "Number")), _ => Err(conv(v, "Number")) }
}
pub fn as_text(v: &V) -> R1<Rc<str>> {
    match v { V::Text(s) => Ok(s.clone()), V::Num(x) => Ok(num_text(*x).into()), _ => Err(conv(v, "Text")) }
}
pub fn as_bool(v: &V) -> R1<bool> { match v { V::Bool(x) => Ok(*x), _ => Err(conv(v, "Bool")) } }
pub fn as_list(v: &V) -> R1<L> { match v { V::List(x) => Ok(x.clone()), _ => Err(conv(v, "List")) } }
pub fn as_ent(v: &V) -> R1<Rc<Ent>> { match v { V::Ent(x) => Ok(x.clone()), _ => Err(conv(v, "Entity")) } }
pub fn key(v: &L) -> usize { Rc::as_ptr(v) as *const () as usize }

/// text shown to the user for a value (`debug`: text is quoted). Rings are not comparable across implementations ("fn").
pub fn show(v: &V, debug: bool) -> String {
    fn go(v: &V, debug: bool, open: &mut BTreeSet<usize>, out: &mut String) {
        use std::fmt::Write;
        if visit(v) { return; }
        match v {
            V::Bool(x) => write!(out, "{x}").unwrap(),
            V::Num(x) => write!(out, "{x}").unwrap(),
            V::Text(x) => if debug { write!(out, "{:?}", &**x).unwrap() } else { out.push_str(x) },
            V::Clo(_) => out.push_str("<fn>"),
            V::Ent(e) => write!(out, "Entity {:?}", e.name).unwrap(),
            V::Image(_) => out.push_str("<img>"), V::Audio(_) => out.push_str("<snd>"),
            V::Nat(n) => write!(out, "Nat({n})").unwrap(),
            V::List(x) => {
                if !open.insert(key(x)) { out.push_str("[...]"); return; }
                out.push('[');
                for (i, v) in x.borrow().iter().enumerate() { if i > 0 { out.push(','); } go(v, debug, open, out); }
                out.push(']');
                open.remove(&key(x));
            }
        }
    }
    let mut s = String::new();
    go(v, debug, &mut BTreeSet::new(), &mut s);
    s
}

// ---- element-wise application -------------------------------------------------------------------------------------

fn is_matrix(v: &V) -> bool { match v { V::List(x) => matches!(x.borrow().first(), Some(V::List(_))), _ => false } }
fn is_list(v: &V) -> bool { matches!(v, V::List(_)) }

type BKey = (usize, usize, bool);
fn loc(v: &V) -> usize { match v { V::List(x) => key(x), _ => v as *const V as usize } }
fn bin(a: &V, b: &V, matrix: bool, cache: &mut HashMap<BKey, V>, f: &dyn Fn(&V, &V) -> R1<V>) -> R1<V> {
    let k = (loc(a), loc(b), matrix);
    if let Some(x) = cache.get(&k) { return Ok(x.clone()); }
    let splits = |v: &V| if matrix { is_matrix(v) } else { is_list(v) };
    let (la, lb) = (splits(a), splits(b));
    if !la && !lb { return if matrix { bin(a, b, false, cache, f) } else { f(a, b) }; }
    let res: L = Rc::new(RefCell::new(vec![]));
    cache.insert(k, V::List(res.clone()));
    let n = match (a, b) {
        (V::List(x), V::List(y)) if la && lb => x.borrow().len().min(y.borrow().len()),
        (V::List(x), _) if la => x.borrow().len(),
        (_, V::List(y)) => y.borrow().len(),
        _ => unreachable!(),
    };
    alloc_note(n + 1);
    alloc_check()?;
    let (av, bv) = (if la { as_list(a).ok() } else { None }, if lb { as_list(b).ok() } else { None });
    for i in 0..n {
        let r = {
            let (ga, gb) = (av.as_ref().map(|x| x.borrow()), bv.as_ref().map(|x| x.borrow()));
            bin(ga.as_ref().map(|x| &x[i]).unwrap_or(a), gb.as_ref().map(|x| &x[i]).unwrap_or(b), matrix, cache, f)?
        };
        res.borrow_mut().push(r);
    }
    Ok(V::List(res))
}
pub fn binary(a: &V, b: &V, f: &dyn Fn(&V, &V) -> R1<V>) -> R1<V> { bin(a, b, true, &mut HashMap::new(), f) }
fn un(x: &V, cache: &mut HashMap<usize, V>, f: &dyn Fn(&V) -> R1<V>) -> R1<V> {
    let V::List(l) = x else { return f(x) };
    if let Some(r) = cache.get(&key(l)) { return Ok(r.clone()); }
    let res: L = Rc::new(RefCell::new(vec![]));
    cache.insert(key(l), V::List(res.clone()));
    alloc_note(l.borrow().len() + 1);
    alloc_check()?;
    for v in l.borrow().iter() { let r = un(v, cache, f)?; res.borrow_mut().push(r); }
    Ok(V::List(res))
}
pub fn unary(x: &V, f: &dyn Fn(&V) -> R1<V>) -> R1<V> { un(x, &mut HashMap::new(), f) }

pub fn num2(a: &V, b: &V, f: fn(f64, f64) -> f64) -> R1<V> { binary(a, b, &|a, b| Ok(V::Num(chk(f(as_num(a)?, as_num(b)?))?))) }
pub fn num1(a: &V, f: fn(f64) -> f64) -> R1<V> { unary(a, &|a| Ok(V::Num(chk(f(as_num(a)?))?))) }
pub fn add(a: &V, b: &V) -> R1<V> { num2(a, b, |a, b| a + b) }
pub fn sub(a: &V, b: &V) -> R1<V> { num2(a, b, |a, b| a - b) }
pub fn mul(a: &V, b: &V) -> R1<V> { num2(a, b, |a, b| a * b) }
/// result has the sign of the divisor
pub fn modulo(a: f64, b: f64) -> f64 { let r = a % b; if r != 0.0 && (r < 0.0) != (b < 0.0) { r + b } else { r } }
/// nearest integer, halves away from zero
pub fn round_away(x: f64) -> f64 { let t = x.trunc(); if (x - t).abs() >= 0.5 { t + x.signum() } else { t } }

pub fn range(a: f64, b: f64) -> R1<V> {
    let mut v = vec![];
    if (a - b).abs() > 100_000.0 { return Err(FUEL.into()); }
    let n = (a - b).abs().floor() as usize;
    alloc_note(n + 1);
    alloc_check()?;
    // stepping by one from a, not past b
    let mut x = a;
    for _ in 0..=n { if (a <= b && x > b) || (a > b && x < b) { break; } v.push(V::Num(chk(x)?)); let y = x + if a <= b { 1.0 } else { -1.0 }; if x == y { break; } x = y; }
    Ok(list(v))
}

// ---- comparison -----------------------------------------------------------------------------------------------------

pub fn compare(a: &V, b: &V) -> R1<Option<Ordering>> { cmp(a, b, &mut HashMap::new()) }
fn ci(a: &str, b: &str) -> Ordering { unicase::UniCase::new(a).cmp(&unicase::UniCase::new(b)) }
fn cmp(a: &V, b: &V, cache: &mut HashMap<(usize, usize), Option<Option<Ordering>>>) -> R1<Option<Ordering>> {
    Ok(match (a, b) {
        (V::Bool(a), V::Bool(b)) => Some(a.cmp(b)),
        (V::Num(_) | V::Text(_), V::Num(_) | V::Text(_)) => {
            let n = |v: &V| match v { V::Num(x) => Some(*x), V::Text(s) => parse_num(s), _ => None };
            match (n(a), n(b)) {
                (Some(x), Some(y)) => x.partial_cmp(&y),
                _ => Some(ci(&as_text(a)?, &as_text(b)?)),
            }
        }
        (V::List(x), V::List(y)) => {
            let k = (key(x), key(y));
            match cache.get(&k) { Some(Some(r)) => return Ok(*r), Some(None) => return Err("CyclicValue".into()), None => { cache.insert(k, None); } }
            let (x, y) = (x.borrow(), y.borrow());
            let mut res = Some(x.len().cmp(&y.len()));
            for (p, q) in x.iter().zip(y.iter()) {
                let c = cmp(p, q, cache)?;
                if c != Some(Ordering::Equal) { res = c; break; }
            }
            cache.insert(k, Some(res));
            res
        }
        (V::Image(_) | V::Audio(_) | V::Clo(_) | V::Ent(_) | V::Nat(_), _) => if a.same(b) { Some(Ordering::Equal) } else { None },
        _ => None,
    })
}
#[derive(Clone, Copy, PartialEq)]
pub enum Rel { Eq, Ne, Lt, Le, Gt, Ge }
pub fn relate(a: &V, b: &V, r: Rel) -> R1<bool> {
    let c = compare(a, b)?;
    match r {
        Rel::Eq => Ok(c == Some(Ordering::Equal)),
        Rel::Ne => Ok(c != Some(Ordering::Equal)),
        _ => match c {
            None => Err(format!("Incomparable {{ left: {}, right: {} }}", a.ty(), b.ty())),
            Some(c) => Ok(match r { Rel::Lt => c.is_lt(), Rel::Le => c.is_le(), Rel::Gt => c.is_gt(), _ => c.is_ge() }),
        }
    }
}
pub fn find(l: &L, v: &V) -> R1<Option<usize>> {
    for (i, x) in l.borrow().iter().enumerate() { if compare(x, v)? == Some(Ordering::Equal) { return Ok(Some(i)); } }
    Ok(None)
}

// ---- lists ------------------------------------------------------------------------------------------------------------

pub fn index(v: &V, len: usize) -> R1<usize> {
    let x = as_num(v)?;
    if x.trunc() != x || x as i64 as f64 != x { return Err(format!("IndexNotInteger {{ index: {x:?} }}")); }
    if x < 1.0 || x > len as f64 { return Err(oob(x as i64, len)); }
    Ok(x as usize - 1)
}
pub fn indices(v: &V, len: usize) -> R1<BTreeSet<usize>> {
    fn go(v: &V, len: usize, seen: &mut BTreeSet<usize>, out: &mut BTreeSet<usize>) -> R1<()> {
        match v {
            V::List(l) => { if seen.insert(key(l)) { for x in l.borrow().iter() { go(x, len, seen, out)?; } } }
            _ => { out.insert(index(v, len)?); }
        }
        Ok(())
    }
    let mut out = BTreeSet::new();
    go(v, len, &mut BTreeSet::new(), &mut out)?;
    Ok(out)
}
pub fn flatten(v: &V) -> R1<Vec<V>> {
    fn go(v: &V, open: &mut BTreeSet<usize>, out: &mut Vec<V>) -> R1<()> {
        match v {
            V::List(l) => {
                if !open.insert(key(l)) { return Err("CyclicValue".into()); }
                alloc_note(1);
                alloc_check()?;
                for x in l.borrow().iter() { go(x, open, out)?; }
                open.remove(&key(l));
            }
            _ => { alloc_note(1); out.push(v.clone()) }
        }
        Ok(())
    }
    let mut out = vec![];
    go(v, &mut BTreeSet::new(), &mut out)?;
    Ok(out)
}
pub fn dims(v: &V) -> R1<Vec<usize>> {
    fn go(v: &V, d: usize, open: &mut BTreeSet<usize>, out: &mut Vec<usize>) -> R1<()> {
        if let V::List(l) = v {
            if d == out.len() { out.push(0); }
            if !open.insert(key(l)) { return Err("CyclicValue".into()); }
            alloc_note(1);
            alloc_check()?;
            out[d] = out[d].max(l.borrow().len());
            for x in l.borrow().iter() { go(x, d + 1, open, out)?; }
            open.remove(&key(l));
        }
        Ok(())
    }
    let mut out = vec![];
    go(v, 0, &mut BTreeSet::new(), &mut out)?;
    Ok(out)
}
pub fn reshape(src: &V, dimv: &[V]) -> R1<V> {
    let mut ds = vec![];
    for d in dimv {
        let x = as_num(d)?;
        if x < 0.0 || x.trunc() != x { return Err(format!("InvalidSize {{ value: {x:?} }}")); }
        ds.push(x);
    }
    let flat = flatten(src)?;
    if flat.is_empty() { return Err("EmptyList".into()); }
    if ds.iter().fold(1.0, |a, b| a * b.max(1.0)) > 50_000.0 { return Err(FUEL.into()); }
    fn go(flat: &[V], pos: &mut usize, ds: &[f64]) -> V {
        match ds.split_first() {
            None => { let v = flat[*pos % flat.len()].clone(); *pos += 1; v }
            Some((n, rest)) => list((0..*n as usize).map(|_| go(flat, pos, rest)).collect()),
        }
    }
    Ok(go(&flat, &mut 0, &ds))
}
pub fn columns(v: &V) -> R1<V> {
    let l = as_list(v)?;
    let l = l.borrow();
    let width = l.iter().map(|x| match x { V::List(x) => x.borrow().len(), _ => 1 }).max().unwrap_or(0);
    alloc_note(width * l.len());
    alloc_check()?;
    Ok(list((0..width).map(|c| list(l.iter().map(|row| match row { V::List(x) => x.borrow().get(c).cloned().unwrap_or_else(|| text("")), x => x.clone() }).collect())).collect()))
}
pub fn combinations(srcs: &[L]) -> R1<V> {
    if srcs.is_empty() || srcs.iter().any(|s| s.borrow().is_empty()) { return Ok(list(vec![])); }
    if srcs.iter().fold(1.0, |a, b| a * b.borrow().len().max(1) as f64) > 20_000.0 { return Err(FUEL.into()); }
    let mut acc: Vec<Vec<V>> = vec![vec![]];
    for s in srcs {
        let mut next = vec![];
        for a in &acc { for x in s.borrow().iter() { let mut a = a.clone(); a.push(x.clone()); next.push(a); } }
        acc = next;
    }
    Ok(list(acc.into_iter().map(list).collect()))
}

// ---- text ---------------------------------------------------------------------------------------------------------------

pub fn letters(s: &str) -> Vec<V> { s.graphemes(true).map(text).collect() }
pub fn csv_out(v: &V) -> R1<V> {
    let l = as_list(v)?;
    let l = l.borrow();
    let scalar = |v: &V| -> R1<String> {
        let s = as_text(v)?;
        Ok(if s.contains('"') || s.contains(',') || s.contains('\n') { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.to_string() })
    };
    let row = |r: &[V]| -> R1<String> { Ok(r.iter().map(scalar).collect::<R1<Vec<_>>>()?.join(",")) };
    Ok(text(&if l.iter().any(is_list) { l.iter().map(|x| row(&as_list(x)?.borrow())).collect::<R1<Vec<_>>>()?.join("\n") } else { row(&l)? }))
}
pub fn csv_in(s: &str) -> R1<V> {
    if s.is_empty() { return Ok(list(vec![])); }
    let bad = || format!("NotCsv {{ value: {s:?} }}");
    let (mut rows, mut row): (Vec<V>, Vec<V>) = (vec![], vec![]);
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    loop {
        // one field
        let mut field = String::new();
        if i < cs.len() && cs[i] == '"' {
            i += 1;
            loop {
                if i >= cs.len() { return Err(bad()); }
                if cs[i] == '"' {
                    if i + 1 < cs.len() && cs[i + 1] == '"' { field.push('"'); i += 2; continue; }
                    i += 1;
                    break;
                }
                field.push(cs[i]);
                i += 1;
            }
            if i < cs.len() && cs[i] != ',' && cs[i] != '\n' { return Err(bad()); }
        } else {
            while i < cs.len() && cs[i] != ',' && cs[i] != '\n' { if cs[i] == '"' { return Err(bad()); } field.push(cs[i]); i += 1; }
        }
        row.push(text(&field));
        if i >= cs.len() { rows.push(list(row)); return Ok(list(rows)); }
        if cs[i] == '\n' { rows.push(list(std::mem::take(&mut row))); }
        i += 1;
    }
}
pub fn to_json(v: &V, netsblox: bool) -> R1<serde_json::Value> {
    fn go(v: &V, open: &mut BTreeSet<usize>) -> R1<serde_json::Value> {
        if visit(v) { return Err(FUEL.into()); }
        Ok(match v {
            V::Bool(x) => (*x).into(), V::Num(x) => serde_json::Value::from(*x), V::Text(s) => serde_json::Value::String(s.to_string()),
            V::List(l) => {
                if !open.insert(key(l)) { return Err("ToSimpleError { error: Cyclic }".into()); }
                let r = l.borrow().iter().map(|x| go(x, open)).collect::<R1<Vec<_>>>()?;
                open.remove(&key(l));
                serde_json::Value::Array(r)
            }
            V::Clo(_) | V::Ent(_) | V::Nat(_) => return Err(format!("ToSimpleError {{ error: ComplexType({}) }}", v.ty())),
            V::Image(_) | V::Audio(_) => serde_json::Value::Null,
        })
    }
    fn complex(v: &V) -> Option<&'static str> { match v { V::Image(_) => Some("Image"), V::Audio(_) => Some("Audio"), V::List(l) => l.borrow().iter().find_map(complex), _ => None } }
    let j = go(v, &mut BTreeSet::new())?;
    if let Some(t) = complex(v) { return Err(if netsblox { FUEL.into() } else { format!("IntoJsonError {{ error: ComplexType({t}) }}") }); }
    Ok(j)
}
pub fn from_json(j: &serde_json::Value, null: &str) -> R1<V> {
    use serde_json::Value as J;
    Ok(match j {
        J::Null => return Err(null.into()),
        J::Bool(x) => V::Bool(*x), J::Number(x) => V::Num(chk(x.as_f64().unwrap())?), J::String(s) => text(s),
        J::Array(x) => list(x.iter().map(|x| from_json(x, null)).collect::<R1<_>>()?),
        J::Object(x) => list(x.iter().map(|(k, v)| Ok(list(vec![text(k), from_json(v, null)?]))).collect::<R1<_>>()?),
    })
}
pub fn split_json(s: &str) -> R1<V> {
    match serde_json::from_str::<serde_json::Value>(s) {
        Ok(j) => from_json(&j, "FromJsonError { error: Null }"),
        Err(_) => Err(format!("NotJson {{ value: {s:?} }}")),
    }
}
pub fn uni_to_char(x: f64) -> R1<V> {
    let bad = || format!("InvalidUnicode {{ value: {x:?} }}");
    if x < 0.0 || x.trunc() != x || x > 0x10ffff as f64 { return Err(bad()); }
    char::from_u32(x as u32).map(|c| text(&c.to_string())).ok_or_else(bad)
}
pub fn char_to_uni(s: &str) -> V {
    let v: Vec<V> = s.chars().map(|c| V::Num(c as u32 as f64)).collect();
    if v.len() == 1 { v.into_iter().next().unwrap() } else { list(v) }
}
pub fn note(v: &V) -> R1<u8> {
    if let Ok(x) = as_num(v) {
        if x.trunc() != x || x as i64 as f64 != x { return Err(format!("NoteNotInteger {{ note: {x:?} }}")); }
        if !(0.0..128.0).contains(&x) { return Err(format!("NoteNotMidi {{ note: {:?} }}", (x as i64).to_string())); }
        return Ok(x as u8);
    }
    let s = as_text(v)?;
    note_name(&s).ok_or_else(|| format!("NoteNotMidi {{ note: {:?} }}", &*s))
}
/// scientific pitch notation: letter, accidentals, octave
pub fn note_name(s: &str) -> Option<u8> {
    let s = s.trim();
    let mut cs = s.chars().peekable();
    let base: i64 = match cs.next()?.to_ascii_uppercase() { 'C' => 0, 'D' => 2, 'E' => 4, 'F' => 5, 'G' => 7, 'A' => 9, 'B' => 11, _ => return None };
    let (mut delta, mut octave) = (0i64, None);
    while let Some(c) = cs.next() {
        match c {
            '+' | '-' | '0'..='9' => {
                if octave.is_some() { return None; }
                let mut t = c.to_string();
                while let Some(d @ '0'..='9') = cs.peek() { t.push(*d); cs.next(); }
                octave = Some(t.parse::<i32>().ok()? as i64);
            }
            's' | '#' | '♯' => delta += 1,
            'b' | '♭' => delta -= 1,
            'n' | '♮' => (),
            _ => return None,
        }
    }
    let m = base + 12 * (octave? + 1) + delta;
    if (0..128).contains(&m) { Some(m as u8) } else { None }
}

// ---- serialisation (same format as sys::Ser) ---------------------------------------------------------------------------------

pub struct MSer<'h> { pub host: &'h mut Host, seen: HashMap<usize, usize> }
impl<'h> MSer<'h> {
    pub fn new(host: &'h mut Host) -> Self { MSer { host, seen: HashMap::new() } }
    pub fn val(&mut self, v: &V) -> String { let mut s = String::new(); self.go(v, &mut s); s }
    fn go(&mut self, v: &V, out: &mut String) {
        use std::fmt::Write;
        if visit(v) { return; }
        match v {
            V::Bool(x) => out.push_str(if *x { "T" } else { "F" }),
            V::Num(x) => write!(out, "{x:?}").unwrap(),
            V::Text(x) => write!(out, "{:?}", &**x).unwrap(),
            V::Image(x) => write!(out, "img:{}", x.label()).unwrap(),
            V::Audio(x) => write!(out, "snd:{}", x.label()).unwrap(),
            V::Nat(x) => write!(out, "nat:{x}").unwrap(),
            V::List(x) => {
                let n = self.seen.len();
                if let Some(i) = self.seen.get(&key(x)) { write!(out, "#{i}").unwrap(); return; }
                self.seen.insert(key(x), n);
                write!(out, "#{n}[").unwrap();
                for (i, v) in x.borrow().iter().enumerate() { if i > 0 { out.push(','); } self.go(v, out); }
                out.push(']');
            }
            V::Clo(x) => {
                let n = self.seen.len();
                let i = *self.seen.entry(Rc::as_ptr(x) as *const () as usize).or_insert(n);
                write!(out, "fn#{i}").unwrap();
            }
            V::Ent(e) => { let l = elabel(self.host, e); out.push_str(&l) }
        }
    }
}
pub fn elabel(h: &mut Host, e: &Ent) -> String { h.elabel(e.raw, &e.name, e.parent) }
pub type WeakCel = Weak<RefCell<V>>;
