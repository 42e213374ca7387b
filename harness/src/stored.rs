//! C03: stored forms that this build did not write (other fingerprints, missing or retyped parts, cut or damaged texts) are refused.
use crate::check::*;
use crate::rng::*;
use netsblox_vm::ast::Role;
use netsblox_vm::bytecode::*;
use serde_json::Value as J;

fn load(kind: usize, v: &J) -> Result<(), String> {
    let e = |x: serde_json::Error| x.to_string();
    match kind { 0 => serde_json::from_value::<ByteCode>(v.clone()).map(|_| ()).map_err(e), 1 => serde_json::from_value::<InitInfo>(v.clone()).map(|_| ()).map_err(e), _ => serde_json::from_value::<Locations>(v.clone()).map(|_| ()).map_err(e) }
}
fn load_text(kind: usize, v: &str) -> Result<(), String> {
    let e = |x: serde_json::Error| x.to_string();
    match kind { 0 => serde_json::from_str::<ByteCode>(v).map(|_| ()).map_err(e), 1 => serde_json::from_str::<InitInfo>(v).map(|_| ()).map_err(e), _ => serde_json::from_str::<Locations>(v).map(|_| ()).map_err(e) }
}
fn load_bin(kind: usize, v: &[u8]) -> Result<(), String> {
    let e = |x: crate::bin::E| x.0;
    match kind { 0 => crate::bin::from_slice::<ByteCode>(v).map(|_| ()).map_err(e), 1 => crate::bin::from_slice::<InitInfo>(v).map(|_| ()).map_err(e), _ => crate::bin::from_slice::<Locations>(v).map(|_| ()).map_err(e) }
}
const KINDS: [&str; 3] = ["code", "initial state", "locations"];

/// every place in the tree (as a list of steps), the number of them bounded by the caller's choice
fn places(v: &J, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if !at.is_empty() { out.push(at.clone()); }
    match v {
        J::Object(m) => for (k, x) in m { at.push(k.clone()); places(x, at, out); at.pop(); },
        J::Array(a) => for (k, x) in a.iter().enumerate().take(6) { at.push(k.to_string()); places(x, at, out); at.pop(); },
        _ => (),
    }
}
fn at<'a>(v: &'a mut J, p: &[String]) -> &'a mut J {
    match p.split_first() { None => v, Some((k, rest)) => at(match v { J::Object(m) => m.get_mut(k).unwrap(), J::Array(a) => &mut a[k.parse::<usize>().unwrap()], _ => unreachable!() }, rest) }
}
/// numbers that make up the fingerprint: the only ones which are the same in the three stored forms of one project and
/// in the stored forms of any other project are those under the field every form starts with
fn numbers(v: &J, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        J::Object(m) => for (k, x) in m { at.push(k.clone()); numbers(x, at, out); at.pop(); },
        J::Array(a) => for (k, x) in a.iter().enumerate() { at.push(k.to_string()); numbers(x, at, out); at.pop(); },
        J::Number(_) | J::String(_) => out.push(at.clone()),
        _ => (),
    }
}

pub fn tampered(cov: &mut Cov, r: &mut Rng, role: &Role) -> Res {
    let Ok((bc, init, locs, _)) = ByteCode::compile(role) else { return Res::Ok };
    let forms: Vec<J> = match (serde_json::to_value(&bc), serde_json::to_value(&init), serde_json::to_value(&locs)) { (Ok(a), Ok(b), Ok(c)) => vec![a, b, c], _ => return Res::Violation("a compiled project cannot be stored".into()) };
    let bins: Vec<Vec<u8>> = match (crate::bin::to_vec(&bc), crate::bin::to_vec(&init), crate::bin::to_vec(&locs)) { (Ok(a), Ok(b), Ok(c)) => vec![a, b, c], _ => return Res::Violation("a compiled project cannot be stored".into()) };
    macro_rules! refused { ($r:expr, $($t:tt)*) => { match $r { Err(_) => cov.add("stored forms refused", 1), Ok(()) => return Res::Violation(format!("accepted as valid: {}", format!($($t)*))) } } }
    for k in 0..3 {
        // a form of another kind
        for o in 0..3 { if o != k { refused!(load(k, &forms[o]), "{} loaded as {}", KINDS[o], KINDS[k]); } }
        // the fingerprint: what all three forms have in common
        let J::Object(m) = &forms[k] else { return Res::Violation(format!("{} is not stored as named parts", KINDS[k])) };
        let tags: Vec<&String> = m.iter().filter(|(n, v)| forms.iter().all(|f| f.get(n.as_str()) == Some(v))).map(|x| x.0).collect();
        if tags.is_empty() { return Res::Violation(format!("nothing in the stored {} identifies the build", KINDS[k])); }
        for t in tags {
            let mut v = forms[k].clone();
            let mut nums = vec![];
            numbers(&v[t.as_str()], &mut vec![t.clone()], &mut nums);
            for p in &nums {
                let x = at(&mut v, p);
                let old = x.clone();
                *x = match &old {
                    J::Number(n) => { let n = n.as_u64().unwrap_or(0); J::from(match r.below(4) { 0 => n.wrapping_add(1), 1 => n ^ (1 << r.below(64)), 2 => n.wrapping_sub(1), _ => n ^ (r.next() | 1) }) }
                    J::String(s) => { let mut c: Vec<char> = s.chars().collect(); if c.is_empty() { continue; } let i = r.below(c.len()); c[i] = if c[i] == '0' { '1' } else { '0' }; J::from(c.into_iter().collect::<String>()) }
                    _ => continue,
                };
                let new = x.clone();
                refused!(load(k, &v), "{} of another build ({old} is {new})", KINDS[k]);
                // the same in the binary form
                if let Some(i) = old.as_u64().and_then(|n| bins[k].windows(8).position(|w| w == n.to_le_bytes())) {
                    let mut b = bins[k].clone();
                    let i = i + r.below(8); // the number follows its tag
                    b[i] ^= 1 << r.below(8);
                    refused!(load_bin(k, &b), "{} of another build in binary form (byte {i} altered)", KINDS[k]);
                }
                *at(&mut v, p) = old;
            }
            if nums.is_empty() { return Res::Violation(format!("nothing in the stored {} identifies the build", KINDS[k])); }
            cov.add("fingerprints altered", nums.len() as u64);
        }
        // a part is missing or of another type
        let mut all = vec![];
        places(&forms[k], &mut vec![], &mut all);
        for _ in 0..4 {
            let p = r.pick(&all).clone();
            let mut v = forms[k].clone();
            // parts that may be absent are not judged
            *at(&mut v, &p) = J::Null;
            if load(k, &v).is_ok() { cov.add("optional parts", 1); continue; }
            let mut v = forms[k].clone();
            let parent = at(&mut v, &p[..p.len() - 1]);
            let what = match parent {
                J::Object(m) if r.pct(60) => { m.remove(p.last().unwrap()); "missing" }
                _ => {
                    let x = at(&mut v, &p);
                    let new = match x {
                        J::Number(_) => J::from("1"), J::String(_) => J::from(17), J::Bool(_) => J::from("true"), J::Null => J::from("none"), J::Array(_) => J::from(3), J::Object(_) => J::from("x"),
                    };
                    *x = new;
                    "of another type"
                }
            };
            refused!(load(k, &v), "{} with {} {what}", KINDS[k], p.join("."));
        }
        // cut short, or followed by more
        let text = forms[k].to_string();
        let mut cut = r.below(text.len());
        while !text.is_char_boundary(cut) { cut -= 1; }
        refused!(load_text(k, &text[..cut]), "{} cut to {cut} of {} bytes", KINDS[k], text.len());
        refused!(load_text(k, &format!("{text}{}", *r.pick(&["}", "0", "{}", "x"]))), "{} with more text after it", KINDS[k]);
        let cut = r.below(bins[k].len());
        refused!(load_bin(k, &bins[k][..cut]), "{} in binary form cut to {cut} of {} bytes", KINDS[k], bins[k].len());
        // damaged anywhere: loads or is refused, but nothing panics
        let mut b = text.into_bytes();
        for _ in 0..2 { let i = r.below(b.len()); b[i] = *r.pick(b"0123456789{}[]\",:-e.tfn\\ "); }
        if let Ok(s) = String::from_utf8(b) { cov.add(if load_text(k, &s).is_ok() { "damaged texts that load" } else { "damaged texts refused" }, 1); }
    }
    Res::Ok
}
