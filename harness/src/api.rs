//! Checks that drive public types of the library directly: exchange formats (C12), notes (C22), containers (C27).
use crate::battery::{self, *};
use crate::check::*;
use crate::rng::*;
use crate::sys::{Sys, C};
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::json::serde_json;
use netsblox_vm::runtime::*;
use netsblox_vm::slotmap::{self, SlotMap};
use netsblox_vm::vecmap::VecMap;
use std::collections::BTreeMap;

type Unit = Arena<Rootable![()]>;
macro_rules! bad { ($($t:tt)*) => { return Res::Violation(crate::run::clip(&format!($($t)*))) } }

// ---- exchange formats ------------------------------------------------------------------------------------------------

fn any_bits(r: &mut Rng) -> f64 { loop { let x = f64::from_bits(r.next()); if x.is_finite() { return x; } } }
fn number(r: &mut Rng) -> Number { Number::new(match r.below(4) { 0 => any_bits(r), 1 => r.range(-1000, 1000) as f64, _ => numeric(r) }).unwrap() }
/// a name XML can carry
fn name(r: &mut Rng) -> String {
    let n = r.below(8);
    (0..n).map(|_| match r.below(6) { 0 => *r.pick(&['&', '<', '>', '"', '\'', ';', '#', '/', '=']), 1 => *r.pick(&['é', '日', '👍', '\u{301}']), 2 => *r.pick(&[' ', '\t', '\n', '\r']), 3 => *r.pick(&['a', 'm', 'p', 'l', 't', 'x']), _ => *r.pick(&['A', 'z', '0', '9', '_', '-', '.']) }).collect()
}
fn bytes(r: &mut Rng) -> Vec<u8> { let n = if r.pct(70) { *r.pick(&[0, 1, 2, 3, 4, 5, 17]) } else { r.below(300) }; (0..n).map(|_| r.below(256) as u8).collect() }
/// texts which look like exchanged media without being any
const LOOKALIKES: &[&str] = &["<costume", "<costume>", "<costume />", "<costume name=\"a\" />", "<sound name=\"x\"/>", "<sound", "<costume></costume>", "<", "<a>", "< costume />", "</costume>", "<!-- c -->", "<?xml?>", "<costume name=\"a\" center-x=\"1\" center-y=\"2\" />", "<Costume image=\"x\"/>", "<costume-x />", "<x:y/>", "&lt;", "<costume name='q", "<sound sound", "x<costume />"];
fn simple(r: &mut Rng, depth: u32, media: bool) -> SimpleValue {
    match r.below(if depth > 0 { 9 } else { 6 }) {
        0 => SimpleValue::Bool(r.pct(50)),
        1 | 2 => SimpleValue::Number(number(r)),
        3 if media => if r.pct(50) {
            SimpleValue::Image(Image { content: bytes(r), center: if r.pct(50) { Some((number(r), number(r))) } else { None }, name: name(r).into() })
        } else { SimpleValue::Audio(Audio { content: bytes(r), name: name(r).into() }) },
        4 if r.pct(30) => SimpleValue::Text((*r.pick(LOOKALIKES)).into()),
        6.. => { let n = r.below(5); SimpleValue::List((0..n).map(|_| simple(r, depth - 1, media)).collect()) }
        _ => SimpleValue::Text(random_text(r).into()),
    }
}
/// any json text a service may answer with, and what it stands for
fn foreign(r: &mut Rng, depth: u32) -> (serde_json::Value, Option<SimpleValue>) {
    use serde_json::Value as J;
    match r.below(if depth > 0 { 8 } else { 5 }) {
        0 => { let b = r.pct(50); (J::Bool(b), Some(SimpleValue::Bool(b))) }
        1 => { let n = r.range(-1 << 53, 1 << 53); (J::from(n), Some(SimpleValue::Number(Number::new(n as f64).unwrap()))) }
        2 => { let n = r.next(); (J::from(n), Some(SimpleValue::Number(Number::new(n as f64).unwrap()))) }
        3 => if r.pct(30) { (J::Null, None) } else { let x = number(r); (J::from(x.get()), Some(SimpleValue::Number(x))) },
        4 => { let t = random_text(r); (J::String(t.clone()), Some(SimpleValue::Text(t.into()))) }
        5 => {
            let xs: Vec<_> = (0..r.below(5)).map(|_| foreign(r, depth - 1)).collect();
            (J::Array(xs.iter().map(|x| x.0.clone()).collect()), xs.into_iter().map(|x| x.1).collect::<Option<Vec<_>>>().map(SimpleValue::List))
        }
        _ => {
            // an object is the list of its keys and values, in the order of the object
            let mut m = serde_json::Map::new();
            let mut vals = std::collections::BTreeMap::new();
            for _ in 0..r.below(5) {
                let k = match r.below(4) { 0 => random_text(r), 1 => name(r), 2 => format!("{}", r.range(-5, 50)), _ => r.pick(&["", " ", "a ", " a", "__proto__", "name", "Name", "x", "y"]).to_string() };
                let (j, v) = foreign(r, depth - 1);
                m.insert(k.clone(), j);
                vals.insert(k, v);
            }
            let v = m.keys().map(|k| vals[k].clone().map(|v| SimpleValue::List(vec![SimpleValue::Text(k.as_str().into()), v]))).collect::<Option<Vec<_>>>().map(SimpleValue::List);
            (J::Object(m), v)
        }
    }
}
/// an image or sound in the ways services and the editor write them
fn foreign_media(r: &mut Rng) -> (String, SimpleValue) {
    let content = bytes(r);
    let q = *r.pick(&['"', '\'']);
    let b64 = encode64(&content);
    let n = r.pct(70).then(|| name(r).replace(['\t', '\n', '\r'], " "));
    let image = r.pct(50);
    let mime = if image { *r.pick(&["image/png", "image/jpeg", "image/gif", "image/svg+xml", "image/webp", "image/png;charset=utf-8"]) } else { *r.pick(&["audio/mpeg", "audio/wav", "audio/ogg", "audio/x-wav", "audio/webm;codecs=opus"]) };
    let center = (image && r.pct(50)).then(|| (r.range(-300, 300) as f64 / 2.0, r.range(-300, 300) as f64));
    let mut attrs = vec![format!("{}={q}data:{mime};base64,{b64}{q}", if image { "image" } else { "sound" })];
    if let Some(n) = &n { attrs.push(format!("name={q}{}{q}", n.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;"))); }
    if let Some((x, y)) = center { attrs.push(format!("center-x={q}{x}{q}")); attrs.push(format!("center-y={q}{y}{q}")); }
    if r.pct(30) { attrs.push(format!("mediaID={q}a_b{q}")); }
    if r.pct(20) { attrs.push(format!("collabId={q}item_3{q}")); }
    for i in (1..attrs.len()).rev() { let j = r.below(i + 1); attrs.swap(i, j); }
    let tag = if image { "costume" } else { "sound" };
    let end = match r.below(4) { 0 => format!("></{tag}>"), 1 => " />".into(), _ => "/>".into() };
    let s = format!("<{tag} {}{end}", attrs.join(if r.pct(20) { "  " } else { " " }));
    let name = n.unwrap_or_else(|| "untitled".into()).into();
    let v = if image { SimpleValue::Image(Image { content, center: center.map(|(x, y)| (Number::new(x).unwrap(), Number::new(y).unwrap())), name }) } else { SimpleValue::Audio(Audio { content, name }) };
    (s, v)
}
fn encode64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { s.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
    }
    s
}
fn has_media(v: &SimpleValue) -> bool { match v { SimpleValue::Image(_) | SimpleValue::Audio(_) => true, SimpleValue::List(x) => x.iter().any(has_media), _ => false } }
fn same(a: &SimpleValue, b: &SimpleValue) -> bool {
    match (a, b) {
        (SimpleValue::Number(x), SimpleValue::Number(y)) => x.get().to_bits() == y.get().to_bits(),
        (SimpleValue::List(x), SimpleValue::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        _ => a == b,
    }
}
/// equal but for the last place of a number (known finding: the json reader)
fn close(a: &SimpleValue, b: &SimpleValue) -> bool {
    match (a, b) {
        (SimpleValue::Number(x), SimpleValue::Number(y)) => (x.get().to_bits() as i64).wrapping_sub(y.get().to_bits() as i64).abs() <= 2,
        (SimpleValue::List(x), SimpleValue::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x, y)),
        _ => a == b,
    }
}

pub fn c12(cov: &mut Cov, seed: u64, _idx: u64, _t: bool) -> Res {
    match battery::c12_blocks(cov, seed) { Res::Ok => (), x => return x }
    let r = &mut Rng::new(seed ^ 0xa91);
    let _keep = Unit::new(|_| ());
    for _ in 0..6 {
        let d = r.below(4) as u32;
        let media = r.pct(50);
        let v = simple(r, d, media);
        cov.add("simple values exchanged", 1);
        if cov.distinct(hash_str(&format!("{v:?}"))) { cov.sample(|| format!("{v:?}")); }
        // the value model
        let back = _keep.mutate(|mc, _| Value::<C, Sys>::from_simple(mc, v.clone()).to_simple().map_err(|e| format!("{e:?}")));
        match back { Ok(b) if same(&b, &v) => (), x => bad!("{v:?} into a value and back gives {x:?}") }
        // json
        match v.clone().into_json::<C, Sys>() {
            Ok(j) => {
                if has_media(&v) { bad!("{v:?} has a json form {j}"); }
                match SimpleValue::from_json(j.clone()) { Ok(b) if same(&b, &v) => (), x => bad!("{v:?} into json and back gives {x:?}") }
                match serde_json::from_str(&j.to_string()).map(SimpleValue::from_json) { Ok(Ok(b)) if same(&b, &v) => (), Ok(Ok(b)) if close(&b, &v) => cov.add("numbers of 16 or more digits off in the last place after json (known finding)", 1), x => bad!("{v:?} into json text {j} and back gives {x:?}") }
            }
            Err(_) => if !has_media(&v) { bad!("{v:?} has no json form"); },
        }
        // the netsblox form
        let j = v.clone().into_netsblox_json();
        match SimpleValue::from_netsblox_json(j.clone()) { Ok(b) if same(&b, &v) => (), x => bad!("{v:?} into netsblox form {j} and back gives {x:?}") }
        // hostile forms: any text at all gives a value or an error
        let mut s = match j { serde_json::Value::String(s) => s, j => j.to_string() };
        for _ in 0..3 {
            let cs: Vec<char> = s.chars().collect();
            if cs.is_empty() { break; }
            let i = r.below(cs.len());
            s = match r.below(3) { 0 => cs[..i].iter().collect(), 1 => cs.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect(), _ => cs.iter().enumerate().map(|(k, c)| if k == i { *r.pick(&['<', '>', '"', '&', '/', '=', ' ', '\u{0}', 'é', ';']) } else { *c }).collect() };
            if let Ok(x) = SimpleValue::from_netsblox_json(serde_json::Value::String(s.clone())) { match x { SimpleValue::Text(t) if t.as_str() == s => (), SimpleValue::Image(_) | SimpleValue::Audio(_) => (), x => bad!("netsblox text {s:?} was read as {x:?}") } }
            cov.add("mutated netsblox texts", 1);
        }
        if SimpleValue::from_json(serde_json::Value::Array(vec![serde_json::Value::Null])).is_ok() || SimpleValue::from_netsblox_json(serde_json::Value::Null).is_ok() { bad!("json null was read as a value"); }
    }
    // what others send
    for _ in 0..4 {
        let d = r.below(4) as u32;
        let (j, want) = foreign(r, d);
        for (how, got) in [("json", SimpleValue::from_json(j.clone()).ok()), ("netsblox json", SimpleValue::from_netsblox_json(j.clone()).ok())] {
            match (&got, &want) { (Some(g), Some(w)) if same(g, w) => (), (None, None) => (), _ => bad!("{how} {j} was read as {got:?}") }
        }
        cov.add("json of others read", 1);
        let (s, want) = foreign_media(r);
        match SimpleValue::from_netsblox_json(serde_json::Value::String(s.clone())) { Ok(g) if same(&g, &want) => cov.add("media of others read", 1), x => bad!("{s:?} was read as {x:?}, not {want:?}") }
    }
    // numbers and their text
    for _ in 0..20 {
        let x = number(r);
        let t = SimpleValue::stringify_number(x);
        match SimpleValue::parse_number(&t) { Some(y) if y.get() == x.get() => (), y => bad!("{:?} written as {:?} reads as {y:?}", x.get(), t.as_str()) }
        cov.add("numbers written and read", 1);
    }
    Res::Ok
}

// ---- notes -----------------------------------------------------------------------------------------------------------

/// the midi number a note name stands for: letter, accidentals and octave, in that order or with the accidentals last
fn reference_note(letter: char, acc: &[char], octave: i64) -> Option<u8> {
    let semi = match letter.to_ascii_uppercase() { 'C' => 0, 'D' => 2, 'E' => 4, 'F' => 5, 'G' => 7, 'A' => 9, 'B' => 11, _ => return None };
    let d: i64 = acc.iter().map(|c| match c { 's' | '#' | '♯' => 1, 'b' | '♭' => -1, _ => 0 }).sum();
    let m = 12 * (octave + 1) + semi + d;
    if (0..128).contains(&m) { Some(m as u8) } else { None }
}
pub fn notes(cov: &mut Cov, r: &mut Rng) -> Res {
    for m in 0..=255u8 {
        let natural = r.pct(50);
        match Note::from_midi(m, natural) {
            None => if m < 128 { bad!("midi {m} was rejected"); },
            Some(n) => {
                if m >= 128 { bad!("midi {m} was accepted"); }
                if n.get_midi() != (m, natural) { bad!("midi {m} became {:?}", n.get_midi()); }
                let f = 440.0 * 2f64.powf((m as f64 - 69.0) / 12.0);
                if (n.get_frequency().get() - f).abs() > 1e-9 * f { bad!("the frequency of midi {m} is {}", n.get_frequency().get()); }
                for sharps in [false, true] {
                    let name = n.get_name(sharps);
                    match Note::from_name(&name) { Some(b) if b.get_midi().0 == m => (), b => bad!("midi {m} is named {name} which is {:?}", b.map(|x| x.get_midi())) }
                    let lower = name.to_lowercase();
                    match Note::from_name(&lower) { Some(b) if b.get_midi().0 == m => (), b => bad!("midi {m} is named {lower} which is {:?}", b.map(|x| x.get_midi())) }
                    if name.contains(if sharps { 'b' } else { '#' }) { bad!("midi {m} is named {name} although {} was asked for", if sharps { "sharps" } else { "flats" }); }
                    cov.add("note names read back", 2);
                }
            }
        }
    }
    for _ in 0..200 {
        let letter = *r.pick(&['A', 'B', 'C', 'D', 'E', 'F', 'G', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'H', 'h', 'é', '1', '#']);
        let n = *r.pick(&[0, 0, 1, 1, 2, 3, 20]);
        let acc: Vec<char> = (0..n).map(|_| *r.pick(&['s', '#', '♯', 'b', '♭', 'n', '♮'])).collect();
        let oct = *r.pick(&[-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 20, 21, 22, 30, 31, 42, 63, 127, 128, 255, 256, 1000, 99999999]);
        let split = r.below(acc.len() + 1);
        let o = if oct >= 0 && r.pct(20) { format!("+{oct}") } else { format!("{oct}") };
        let pad = *r.pick(&["", "", "", " ", "\t"]);
        let s = format!("{pad}{letter}{}{o}{}{pad}", acc[..split].iter().collect::<String>(), acc[split..].iter().collect::<String>());
        let want = reference_note(letter, &acc, oct);
        let got = Note::from_name(&s).map(|x| x.get_midi().0);
        if want != got { bad!("note {s:?}: expected {want:?} observed {got:?}"); }
        cov.distinct(hash_str(&s));
        cov.add(if want.is_some() { "note names" } else { "note names refused" }, 1);
        // anything else is refused, and nothing panics
        let kind = r.below(4);
        let t = match kind { 0 => format!("{s}{}", r.pick(&["5", "x", "-", "+", " 4", "-1"])), 1 => s.replace(&o, ""), 2 => random_text(r), _ => format!("{s}{s}") };
        let ok = Note::from_name(&t);
        if kind == 1 || t.is_empty() || !t.chars().any(|c| c.is_ascii_digit()) { if ok.is_some() { bad!("{t:?} was read as a note"); } }
    }
    Res::Ok
}

// ---- containers ------------------------------------------------------------------------------------------------------

fn vecmap<const SORTED: bool>(cov: &mut Cov, r: &mut Rng) -> Res {
    let mut m: VecMap<CompactString, i64, SORTED> = if r.pct(50) { VecMap::new() } else { VecMap::with_capacity(r.below(5)) };
    let mut reference: Vec<(String, i64)> = vec![];
    let space = *r.pick(&[3, 8, 40, 200]);
    let mut trace: Vec<String> = vec![];
    let n = *r.pick(&[10, 40, 150]);
    if r.pct(30) {
        let init: Vec<(String, i64)> = (0..r.below(20)).map(|_| (format!("k{}", r.below(space)), r.range(-50, 50))).collect();
        m = init.iter().map(|(k, v)| (CompactString::new(k), *v)).collect();
        for (k, v) in &init { match reference.iter_mut().find(|x| x.0 == *k) { Some(x) => x.1 = *v, None => reference.push((k.clone(), *v)) } }
        trace.push(format!("from {init:?}"));
    }
    for _ in 0..n {
        let k = format!("k{}", r.below(space));
        let at = reference.iter().position(|x| x.0 == k);
        match r.below(10) {
            0..=4 => {
                let v = r.range(-1000, 1000);
                trace.push(format!("insert {k} {v}"));
                let got = m.insert(CompactString::new(&k), v);
                let want = match at { Some(i) => Some(std::mem::replace(&mut reference[i].1, v)), None => { reference.push((k.clone(), v)); None } };
                if got != want { bad!("after [{}]: insert reported {got:?}, expected {want:?}", trace.join("; ")); }
            }
            5 | 6 => { trace.push(format!("get {k}")); if m.get(k.as_str()).copied() != at.map(|i| reference[i].1) { bad!("after [{}]: {:?}, expected {:?}", trace.join("; "), m.get(k.as_str()), at.map(|i| reference[i].1)); } }
            7 => { trace.push(format!("update {k}")); match (m.get_mut(k.as_str()), at) { (Some(x), Some(i)) => { *x += 7; reference[i].1 += 7; } (None, None) => (), _ => bad!("after [{}]: get_mut and get disagree", trace.join("; ")) } }
            8 => { trace.push("iter_mut".into()); for (_, v) in m.iter_mut() { *v ^= 1; } for x in &mut reference { x.1 ^= 1; } }
            _ => {
                trace.push("reload".into());
                let j = serde_json::to_string(&m).unwrap();
                m = match serde_json::from_str(&j) { Ok(x) => x, Err(e) => bad!("after [{}]: {j} does not load: {e}", trace.join("; ")) };
            }
        }
        let mut want = reference.clone();
        if SORTED { want.sort(); }
        let got: Vec<(String, i64)> = m.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        if got != want { bad!("after [{}]: holds {got:?}, expected {want:?}", trace.join("; ")); }
        let slice: Vec<(String, i64)> = m.as_slice().iter().map(|e| (e.key.to_string(), e.value)).collect();
        if slice != want || m.len() != want.len() || m.is_empty() != want.is_empty() { bad!("after [{}]: slice or length disagree with {want:?}", trace.join("; ")); }
        cov.add("map states compared", 1);
        cov.max("largest map", want.len() as u64);
        cov.distinct(hash_str(&format!("{SORTED}{got:?}")));
    }
    let mut want = reference;
    if SORTED { want.sort(); }
    let got: Vec<(String, i64)> = m.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    if got != want { bad!("after [{}]: consumed as {got:?}, expected {want:?}", trace.join("; ")); }
    Res::Ok
}
netsblox_vm::new_key! { pub struct TestKey; }
fn slots(cov: &mut Cov, r: &mut Rng) -> Res {
    use slotmap::Key as _;
    let mut m: SlotMap<TestKey, u64> = SlotMap::new();
    let mut live: BTreeMap<TestKey, u64> = BTreeMap::new();
    let mut dead: Vec<TestKey> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut next = 0u64;
    for _ in 0..*r.pick(&[10, 50, 200]) {
        let any_key = |r: &mut Rng, live: &BTreeMap<TestKey, u64>, dead: &Vec<TestKey>| -> Option<TestKey> { let l: Vec<&TestKey> = live.keys().collect(); if !l.is_empty() && r.pct(70) { Some(**r.pick(&l)) } else if !dead.is_empty() { Some(*r.pick(dead)) } else { None } };
        match r.below(14) {
            0..=5 => {
                next += 1;
                let k = m.insert(next);
                trace.push(format!("insert {next} -> {k:?}"));
                if live.contains_key(&k) { bad!("after [{}]: a key in use was handed out again", trace.join("; ")); }
                if dead.contains(&k) { bad!("after [{}]: the key of a removed value was handed out again", trace.join("; ")); }
                live.insert(k, next);
            }
            6..=8 => if let Some(k) = any_key(r, &live, &dead) {
                trace.push(format!("remove {k:?}"));
                let (got, want) = (m.remove(k), live.remove(&k));
                if got != want { bad!("after [{}]: removed {got:?}, expected {want:?}", trace.join("; ")); }
                if want.is_some() { dead.push(k); }
            },
            9 => {
                let md = 2 + r.below(4) as u64;
                trace.push(format!("retain not {md}"));
                let mut seen = vec![];
                m.retain_mut(|k, v| { seen.push((k, *v)); let keep = *v % md != 0; if keep { *v += md * 1000; } keep });
                let mut want: Vec<_> = live.iter().map(|(k, v)| (*k, *v)).collect();
                seen.sort(); want.sort();
                if seen != want { bad!("after [{}]: retain saw {seen:?}, expected {want:?}", trace.join("; ")); }
                live = live.into_iter().filter_map(|(k, v)| if v % md == 0 { dead.push(k); None } else { Some((k, v + md * 1000)) }).collect();
            }
            10 if r.pct(30) => { trace.push("clear".into()); m.clear(); dead.extend(live.keys().copied()); live.clear(); }
            11 => { trace.push("iter_mut".into()); for (_, v) in m.iter_mut() { *v += 10_000_000; } for v in live.values_mut() { *v += 10_000_000; } }
            12 => { trace.push("clone".into()); m = m.clone(); }
            _ => if let Some(k) = any_key(r, &live, &dead) { if let Some(x) = m.get_mut(k) { *x += 5; } if let Some(x) = live.get_mut(&k) { *x += 5; } trace.push(format!("update {k:?}")); },
        }
        let mut got: Vec<(TestKey, u64)> = m.iter().map(|(k, v)| (k, *v)).collect();
        got.sort();
        let want: Vec<(TestKey, u64)> = live.iter().map(|(k, v)| (*k, *v)).collect();
        if got != want || m.len() != want.len() || m.is_empty() != want.is_empty() { bad!("after [{}]: holds {got:?} (length {}), expected {want:?}", trace.join("; "), m.len()); }
        for (k, v) in &live { if m.get(*k) != Some(v) { bad!("after [{}]: {k:?} gives {:?}, expected {v}", trace.join("; "), m.get(*k)); } if TestKey::new(k.get_slot(), k.get_generation()) != *k { bad!("{k:?} is not rebuilt from its parts"); } }
        for k in &dead { if let Some(v) = m.get(*k) { bad!("after [{}]: the removed {k:?} gives {v}", trace.join("; ")); } }
        cov.add("slot states compared", 1);
        cov.max("removed keys probed", dead.len() as u64);
        cov.distinct(hash_str(&format!("{got:?}")));
    }
    let mut got: Vec<(TestKey, u64)> = m.into_iter().collect();
    got.sort();
    if got != live.into_iter().collect::<Vec<_>>() { bad!("after [{}]: consumed as {got:?}", trace.join("; ")); }
    Res::Ok
}
pub fn c27(cov: &mut Cov, seed: u64, idx: u64, _t: bool) -> Res {
    let r = &mut Rng::new(seed);
    let x = match idx % 3 { 0 => vecmap::<true>(cov, r), 1 => vecmap::<false>(cov, r), _ => slots(cov, r) };
    cov.sample(|| format!("case kind {}", ["sorted map", "insertion-ordered map", "slots"][idx as usize % 3]));
    x
}

// ---- variable tables ---------------------------------------------------------------------------------------------------

#[derive(Collect)]
#[collect(no_drop)]
struct Tables<'gc> { t: Vec<SymbolTable<'gc, C, Sys>>, held: Vec<Gc<'gc, RefLock<Value<'gc, C, Sys>>>> }
/// C07 for hosts: tables of variables, handles which refer to one variable, copies which do not
pub fn tables(cov: &mut Cov, r: &mut Rng) -> Res {
    type Cell = std::rc::Rc<std::cell::Cell<f64>>;
    const NAMES: [&str; 7] = ["a", "b", "", "é", "a name longer than what fits inline", "A", "z"];
    let mut arena = Arena::<Rootable![Tables<'_>]>::new(|_| Tables { t: (0..3).map(|_| SymbolTable::default()).collect(), held: vec![] });
    let mut m: Vec<BTreeMap<&str, Cell>> = vec![Default::default(); 3];
    let mut held: Vec<Cell> = vec![];
    let mut trace: Vec<String> = vec![];
    fn num<'gc>(x: f64) -> Value<'gc, C, Sys> { Number::new(x).unwrap().into() }
    for step in 0..60 {
        let (i, j) = (r.below(3), r.below(3));
        let (n, n2) = (*r.pick(&NAMES), *r.pick(&NAMES));
        let x = step as f64;
        let op = r.below(9);
        let h = r.below(held.len().max(1));
        let word = r.pct(50);
        let out: Result<(), String> = arena.mutate_root(|mc, env| {
            let x_of = |v: &Value<'_, C, Sys>| v.as_number().map(|x| x.get()).unwrap_or(f64::NAN);
            match op {
                0 | 1 => { trace.push(format!("define {n:?} in {i}")); env.t[i].define_or_redefine(n, Shared::Unique(num(x))); m[i].insert(n, Cell::new(x.into())); }
                2 | 3 => {
                    trace.push(format!("set {n:?} in {i}"));
                    match (env.t[i].lookup_mut(n), m[i].get(n)) { (Some(v), Some(c)) => { v.set(mc, num(x)); c.set(x); } (None, None) => (), (a, b) => return Err(format!("found {}, expected {}", a.is_some(), b.is_some())) }
                }
                4 | 5 => { // another name for the same variable
                    trace.push(format!("{n2:?} in {j} is {n:?} in {i}"));
                    if let (Some(v), Some(c)) = (env.t[i].lookup_mut(n).map(|v| if word { v.alias(mc) } else { Shared::Aliased(v.alias_inner(mc)) }), m[i].get(n).cloned()) { env.t[j].define_or_redefine(n2, v); m[j].insert(n2, c); }
                }
                6 => {
                    trace.push(format!("hold {n:?} in {i}"));
                    if let (Some(v), Some(c)) = (env.t[i].lookup_mut(n), m[i].get(n).cloned()) { env.held.push(v.alias_inner(mc)); held.push(c); }
                }
                7 => if let (Some(v), Some(c)) = (env.held.get(h), held.get(h)) { trace.push(format!("write held {h}")); *v.borrow_mut(mc) = num(x); c.set(x); }
                _ => { trace.push(format!("{j} becomes a copy of {i}")); let t = env.t[i].clone(); let c = m[i].iter().map(|(k, v)| (*k, Cell::new(v.get().into()))).collect(); if i != j || word { env.t[j] = t; m[j] = c; } }
            }
            for (i, (t, want)) in env.t.iter_mut().zip(&m).enumerate() {
                let got: Vec<(String, f64)> = t.iter().map(|(k, v)| (k.to_string(), x_of(&v.get()))).collect();
                let mut sorted = got.clone();
                sorted.sort_by(|a, b| a.0.cmp(&b.0));
                let expected: Vec<(String, f64)> = want.iter().map(|(k, v)| (k.to_string(), v.get())).collect();
                if sorted != expected { return Err(format!("table {i} holds {got:?}, expected {expected:?}")) }
                if t.len() != want.len() || t.is_empty() != want.is_empty() { return Err(format!("table {i} has length {}, expected {}", t.len(), want.len())) }
                if t.iter_mut().map(|(k, _)| k.to_string()).collect::<Vec<_>>() != got.iter().map(|x| x.0.clone()).collect::<Vec<_>>() { return Err(format!("table {i} is in another order when it can be changed")) }
                for n in NAMES { if t.lookup(n).map(|v| x_of(&v.get())) != want.get(n).map(|x| x.get()) { return Err(format!("{n:?} of table {i} reads {:?}, expected {:?}", t.lookup(n).map(|v| x_of(&v.get())), want.get(n))) } }
                cov.distinct(hash_str(&format!("{got:?}")));
            }
            for (k, (v, c)) in env.held.iter().zip(&held).enumerate() { if x_of(&v.borrow()) != c.get() { return Err(format!("held {k} is {}, expected {}", x_of(&v.borrow()), c.get())) } }
            Ok(())
        });
        if let Err(e) = out { bad!("after [{}]: {e}", trace.join("; ")) }
        if r.pct(10) { arena.collect_all(); }
        cov.add("variable tables compared", 3);
    }
    Res::Ok
}
