//! C28: completion keys and the shared clock under many threads. Every operation is recorded with a ticket taken before and
//! one taken after it; the history is judged afterwards.
use crate::check::*;
use crate::rng::*;
use netsblox_vm::real_time::{OffsetDateTime, UtcOffset};
use netsblox_vm::runtime::{AsyncResult, Key, Precision};
use netsblox_vm::std_util::{AsyncKey, Clock};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

pub fn c28(cov: &mut Cov, seed: u64, idx: u64, _thorough: bool) -> Res {
    let mut r = Rng::new(seed);
    match idx % 4 {
        0 | 1 => keys(cov, &mut r),
        2 => sequential(cov, &mut r),
        _ => clock(cov, &mut r),
    }
}

const WORDS: usize = 24;
struct Payload { words: [u64; WORDS], drops: Arc<AtomicU32> }
impl Drop for Payload { fn drop(&mut self) { self.drops.fetch_add(1, SeqCst); } }
fn payload(id: u64, drops: &Arc<AtomicU32>) -> Payload { Payload { words: std::array::from_fn(|i| id.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i as u64)), drops: drops.clone() } }
fn intact(p: &Payload, id: u64) -> bool { (0..WORDS).all(|i| p.words[i] == id.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i as u64)) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev { Poll(char), Complete, Refused, Dropped }
#[derive(Clone, Copy, Debug)]
struct Rec { key: u32, thread: u32, start: u64, end: u64, ev: Ev, bad: bool }

fn pause(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(Duration::from_micros(r.below(60) as u64)),
        2..=5 => for _ in 0..r.below(400) { std::hint::spin_loop(); },
        _ => (),
    }
}

/// What one thread does to one key.
#[derive(Clone, Copy)]
enum Role { Complete, Poll(u32), PollUntilDone, DropIt, PollThenComplete }

fn keys(cov: &mut Cov, r: &mut Rng) -> Res {
    let threads = 2 + r.below(5);
    let n = 40 + r.below(120);
    let keys: Vec<AsyncKey<Payload>> = (0..n).map(|_| AsyncKey::new()).collect();
    let drops: Vec<Arc<AtomicU32>> = (0..n).map(|_| Arc::new(AtomicU32::new(0))).collect();
    let mut made = vec![0u32; n];
    let mut plan: Vec<Vec<(u32, Role)>> = vec![vec![]; threads];
    let mut completes = vec![0u32; n];
    for k in 0..n {
        let never = r.pct(12);
        let completer = r.below(threads);
        let second = if r.pct(10) { Some((completer + 1 + r.below(threads - 1)) % threads) } else { None };
        for t in 0..threads {
            let role = if !never && (t == completer || Some(t) == second) { made[k] += 1; completes[k] += 1; if r.pct(30) { Role::PollThenComplete } else { Role::Complete } }
                else if r.pct(15) { Role::DropIt }
                else if never || r.pct(40) { Role::Poll(1 + r.below(30) as u32) }
                else { Role::PollUntilDone };
            plan[t].push((k as u32, role));
        }
    }
    let ticket = AtomicU64::new(0);
    // once set, the key is settled: somebody saw it consumed, or gave up completing it
    let settled: Vec<AtomicBool> = (0..n).map(|k| AtomicBool::new(completes[k] == 0)).collect();
    let barrier = Barrier::new(threads);
    let seed = r.next();
    let lockstep = r.pct(60);
    let mut recs: Vec<Rec> = vec![];
    let mut stuck = None;
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let mine: Vec<(u32, Role, AsyncKey<Payload>)> = plan[t].iter().map(|&(k, ro)| (k, ro, keys[k as usize].clone())).collect();
            let (ticket, settled, barrier, drops) = (&ticket, &settled, &barrier, &drops);
            hs.push(s.spawn(move || {
                let mut r = Rng::new(hash2(seed, t as u64));
                let mut out = vec![];
                let mut stuck = None;
                for (k, role, key) in mine {
                    if lockstep { barrier.wait(); }
                    pause(&mut r);
                    let poll = |key: &AsyncKey<Payload>, out: &mut Vec<Rec>| {
                        let start = ticket.fetch_add(1, SeqCst);
                        let res = key.poll();
                        let end = ticket.fetch_add(1, SeqCst);
                        let (c, bad) = match res {
                            AsyncResult::Pending => ('p', false),
                            AsyncResult::Consumed => ('x', false),
                            AsyncResult::Completed(p) => ('c', !intact(&p, k as u64)),
                        };
                        if out.last().is_none_or(|l: &Rec| l.key != k || l.ev != Ev::Poll('p') || c != 'p') || out.len() < 2 || out[out.len() - 2].ev != Ev::Poll('p') || out[out.len() - 2].key != k { out.push(Rec { key: k, thread: t as u32, start, end, ev: Ev::Poll(c), bad }); }
                        else { let l = out.last_mut().unwrap(); l.start = start; l.end = end; } // first and last of a run of pending polls are kept
                        if c != 'p' { settled[k as usize].store(true, SeqCst); }
                        c
                    };
                    let complete = |key: AsyncKey<Payload>, out: &mut Vec<Rec>| {
                        let p = payload(k as u64, &drops[k as usize]);
                        let start = ticket.fetch_add(1, SeqCst);
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || key.complete(p)));
                        let end = ticket.fetch_add(1, SeqCst);
                        out.push(Rec { key: k, thread: t as u32, start, end, ev: if res.is_ok() { Ev::Complete } else { Ev::Refused }, bad: false });
                    };
                    match role {
                        Role::Complete => complete(key, &mut out),
                        Role::PollThenComplete => { let c = key.clone(); poll(&c, &mut out); pause(&mut r); complete(key, &mut out); poll(&c, &mut out); }
                        Role::Poll(m) => for _ in 0..m { poll(&key, &mut out); pause(&mut r); },
                        Role::PollUntilDone => {
                            let t0 = Instant::now();
                            let mut i = 0u64;
                            loop {
                                if poll(&key, &mut out) != 'p' { break }
                                if settled[k as usize].load(SeqCst) { poll(&key, &mut out); break }
                                i += 1;
                                if i > 50 { std::thread::yield_now(); } else { pause(&mut r); }
                                if i % 256 == 0 && t0.elapsed() > Duration::from_secs(20) { stuck = Some(k); break }
                            }
                        }
                        Role::DropIt => { let start = ticket.fetch_add(1, SeqCst); drop(key); let end = ticket.fetch_add(1, SeqCst); out.push(Rec { key: k, thread: t as u32, start, end, ev: Ev::Dropped, bad: false }); }
                    }
                }
                (out, stuck)
            }));
        }
        for h in hs { let (o, s) = h.join().unwrap(); recs.extend(o); stuck = stuck.or(s); }
    });
    if let Some(k) = stuck { return Res::Violation(format!("key {k} of {n} was completed by its thread but polls stayed pending for 20 s")); }
    let before_final = ticket.load(SeqCst);
    // one last poll of every key by the owner, then drop everything
    let mut fin = vec![];
    for (k, key) in keys.iter().enumerate() {
        let start = ticket.fetch_add(1, SeqCst);
        let (c, bad) = match key.poll() { AsyncResult::Pending => ('p', false), AsyncResult::Consumed => ('x', false), AsyncResult::Completed(p) => ('c', !intact(&p, k as u64)) };
        fin.push(Rec { key: k as u32, thread: 99, start, end: ticket.fetch_add(1, SeqCst), ev: Ev::Poll(c), bad });
    }
    recs.extend(fin);
    drop(keys);
    recs.sort_by_key(|r| (r.key, r.start));
    let mut at = 0;
    for k in 0..n {
        let from = at;
        while at < recs.len() && recs[at].key == k as u32 { at += 1; }
        let rs = &recs[from..at];
        if let Some(m) = judge(rs, completes[k]) { return Res::Violation(format!("key {k}: {m}; history {:?}", rs.iter().map(|r| (r.thread, r.start, r.end, r.ev)).collect::<Vec<_>>())); }
        let d = drops[k].load(SeqCst);
        if d != made[k] { return Res::Violation(format!("key {k}: {} values were made and {d} were dropped", made[k])); }
        cov.add("keys", 1);
        for r in rs { cov.add(match r.ev { Ev::Poll('p') => "polls that found it pending (first and last of a run)", Ev::Poll('c') => "polls that delivered", Ev::Poll(_) => "polls after delivery", Ev::Complete => "completions", Ev::Refused => "second completions refused", Ev::Dropped => "drops" }, 1); }
        let overlap = rs.iter().any(|a| a.ev == Ev::Complete && rs.iter().any(|b| matches!(b.ev, Ev::Poll(_)) && b.start < a.end && a.start < b.end));
        if overlap { cov.add("keys with a poll overlapping the completion", 1); }
        // the interleaving: order of starts and ends with who did what
        let mut marks: Vec<(u64, String)> = rs.iter().flat_map(|r| [(r.start, format!("{}(", r.thread)), (r.end, format!("{}){:?}", r.thread, r.ev))]).collect();
        marks.sort();
        if rs.len() > 2 { cov.distinct(hash_str(&marks.iter().map(|m| m.1.as_str()).collect::<String>())); }
        if k == 0 { cov.sample(|| format!("key history: {}", marks.iter().map(|m| m.1.clone()).collect::<Vec<_>>().join(" "))); }
    }
    let _ = before_final;
    Res::Ok
}

fn judge(rs: &[Rec], planned: u32) -> Option<String> {
    let done: Vec<&Rec> = rs.iter().filter(|r| r.ev == Ev::Complete).collect();
    let got: Vec<&Rec> = rs.iter().filter(|r| r.ev == Ev::Poll('c')).collect();
    if rs.iter().any(|r| r.bad) { return Some("a delivered value was torn".into()); }
    if got.len() > 1 { return Some(format!("the value was delivered {} times", got.len())); }
    if planned == 0 {
        return rs.iter().any(|r| matches!(r.ev, Ev::Poll(c) if c != 'p')).then(|| "a key nobody completed did not stay pending".into());
    }
    if done.is_empty() { return Some("no completion was accepted".into()); }
    if got.is_empty() { return Some("a completed key never delivered its value".into()); }
    let first_begun = rs.iter().filter(|r| matches!(r.ev, Ev::Complete | Ev::Refused)).map(|r| r.start).min().unwrap();
    let first_done = done.iter().map(|r| r.end).min().unwrap();
    if got[0].end < first_begun { return Some("the value was delivered before the completion began".into()); }
    for r in rs {
        match r.ev {
            Ev::Poll('p') if r.start > first_done => return Some(format!("a poll at {} found the key pending after its completion ended at {first_done}", r.start)),
            Ev::Poll('p') if r.start > got[0].end => return Some("pending again after delivery".into()),
            Ev::Poll('x') if r.end < got[0].start => return Some("consumed before it was delivered".into()),
            Ev::Refused if r.end < first_begun.max(done.iter().map(|d| d.start).min().unwrap()) => return Some("the first completion was refused".into()),
            _ => (),
        }
    }
    None
}

/// Random sequences of operations on one thread, against the three-state machine.
fn sequential(cov: &mut Cov, r: &mut Rng) -> Res {
    for _ in 0..200 {
        #[derive(Clone, Copy, PartialEq, Debug)]
        enum S { P, C(u64), X }
        let mut s = S::P;
        let mut raw: AsyncResult<u64> = AsyncResult::new();
        let key: AsyncKey<u64> = AsyncKey::new();
        let mut h = String::new();
        for step in 0..1 + r.below(8) as u64 {
            if r.pct(45) {
                let v = r.next();
                let a = raw.complete(v);
                let k2 = key.clone();
                let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || k2.complete(v)));
                let fits = if s == S::P { s = S::C(v); a == Ok(()) && b.is_ok() } else { a == Err(v) };
                h.push(if s == S::C(v) { 'C' } else { 'r' });
                if !fits { return Res::Violation(format!("complete after {h}: {a:?}, key {}", b.is_ok())); }
            } else {
                let want = match s { S::P => "Pending".to_string(), S::C(v) => format!("Completed({v})"), S::X => "Consumed".into() };
                if s != S::P { s = S::X; }
                let show = |x: AsyncResult<u64>| match x { AsyncResult::Pending => "Pending".to_string(), AsyncResult::Completed(v) => format!("Completed({v})"), AsyncResult::Consumed => "Consumed".into() };
                let (a, b) = (show(raw.poll()), show(key.clone().poll()));
                h.push('p');
                if a != want || b != want { return Res::Violation(format!("poll after {h} (step {step}): {a} and {b}, expected {want}")); }
            }
        }
        cov.add("single-threaded operations", h.len() as u64);
        cov.distinct(hash_str(&h));
    }
    Res::Ok
}

fn now() -> OffsetDateTime { OffsetDateTime::now_utc() }

/// processors may disagree about the time by this much
const SKEW: Duration = Duration::from_micros(1);

fn clock(cov: &mut Cov, r: &mut Rng) -> Res {
    let wall0 = now();
    let inst0 = Instant::now();
    let off = UtcOffset::from_whole_seconds(r.range(-12 * 3600, 12 * 3600) as i32 / 60 * 60).unwrap();
    let precs = [Precision::Low, Precision::Medium, Precision::High];
    if !(Precision::Low < Precision::Medium && Precision::Medium < Precision::High) { return Res::Violation("the precisions are not ordered low, medium, high".into()); }
    let cache = match r.below(4) { 0 => None, i => Some(precs[i - 1]) };
    let c = Clock::new(off, cache);
    let made = now();
    let threads = 2 + r.below(6);
    let ops = 100 + r.below(300);
    let ticket = AtomicU64::new(0);
    let seed = r.next();
    let style = r.below(3); // all mixed; one updater; all updaters with one reader
    struct R { thread: usize, start: u64, end: u64, w0: OffsetDateTime, w1: OffsetDateTime, cached: bool, ret: OffsetDateTime }
    let barrier = Barrier::new(threads);
    let mut recs: Vec<R> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let (c, ticket, barrier) = (&c, &ticket, &barrier);
            s.spawn(move || {
                let mut r = Rng::new(hash2(seed, t as u64));
                let mut out = Vec::with_capacity(ops);
                barrier.wait();
                for _ in 0..ops {
                    let upd = match style { 0 => r.pct(40), 1 => t == 0, _ => t != 0 || r.pct(20) };
                    let p = *r.pick(&precs);
                    let cached = !upd && cache.is_some_and(|k| match (p, k) { (Precision::Low, _) => true, (Precision::Medium, Precision::Low) => false, (Precision::Medium, _) => true, (Precision::High, Precision::High) => true, _ => false });
                    let start = ticket.fetch_add(1, SeqCst);
                    let w0 = now();
                    let ret = if upd { c.update() } else { c.read(p) };
                    let w1 = now();
                    let end = ticket.fetch_add(1, SeqCst);
                    out.push(R { thread: t, start, end, w0, w1, cached, ret });
                    pause(&mut r);
                }
                out
            })
        }).collect();
        for h in hs { recs.extend(h.join().unwrap()); }
    });
    let drift = ((now() - wall0).as_seconds_f64() - inst0.elapsed().as_secs_f64()).abs();
    if drift > 0.0005 { return Res::Inconclusive("the system's clock was adjusted during the case".into()); }
    let mut written: std::collections::HashSet<i128> = recs.iter().filter(|r| !r.cached).map(|r| r.ret.unix_timestamp_nanos()).collect();
    recs.sort_by_key(|r| r.start);
    for r in &recs {
        if r.ret.offset() != off { return Res::Violation(format!("the offset of a reading is {}, not {off}", r.ret.offset())); }
        if !r.cached && (r.ret + SKEW < r.w0 || r.ret > r.w1 + SKEW) { return Res::Violation(format!("an update or a reading past the cache at {} gave {} (finished at {})", r.w0, r.ret, r.w1)); }
        if r.cached && r.ret > r.w1 + SKEW { return Res::Violation(format!("a cached reading {} is ahead of the true time {}", r.ret, r.w1)); }
        cov.add(if r.cached { "cached readings" } else { "updates and readings past the cache" }, 1);
    }
    if cache.is_some() {
        // the latest time any update finished so far had returned
        let mut ends: Vec<(u64, OffsetDateTime)> = recs.iter().filter(|r| !r.cached).map(|r| (r.end, r.ret)).collect();
        ends.sort();
        let (mut i, mut latest) = (0, wall0);
        let mut initial = None;
        for r in recs.iter().filter(|r| r.cached) {
            while i < ends.len() && ends[i].0 < r.start { latest = latest.max(ends[i].1); i += 1; }
            if r.ret + SKEW < latest { return Res::Violation(format!("thread {} read the cached time {} after an update that returned {latest} had finished ({threads} threads)", r.thread, r.ret)); }
            if r.ret <= made + SKEW && r.ret + SKEW >= wall0 && initial.is_none_or(|x| x == r.ret) { initial = Some(r.ret); written.insert(r.ret.unix_timestamp_nanos()); }
            if !written.contains(&r.ret.unix_timestamp_nanos()) { return Res::Violation(format!("the cached time {} was never the result of an update", r.ret)); }
        }
        let marks: String = recs.iter().take(60).map(|r| format!("{}{}", r.thread, if r.cached { 'r' } else { 'u' })).collect();
        cov.distinct(hash_str(&marks));
        cov.sample(|| format!("clock history ({threads} threads, offset {off}): {marks}"));
    }
    Res::Ok
}
