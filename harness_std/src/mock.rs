//! A stand-in for the NetsBlox server on the loopback: configuration, projects, services and the message socket, following a
//! script, and recording everything it is sent.
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tungstenite::{Message, WebSocket};

#[derive(Clone, Debug)]
pub enum Mode { Whole, CloseBeforeResponse, Truncate }
#[derive(Clone, Debug)]
pub struct Resp { pub delay_ms: u64, pub status: u16, pub ctype: Option<String>, pub body: Vec<u8>, pub mode: Mode, pub chunked: bool, pub close: bool }
#[derive(Clone, Debug)]
pub struct HttpReq { pub method: String, pub path: String, pub query: String, pub body: Vec<u8> }

/// What the server does about a message carrying a tag it knows.
#[derive(Clone, Debug)]
pub enum React {
    /// sends this text after the delay; "$RID" stands for the message's requestId. `good`: a proper answer, with this body
    Send { delay_ms: u64, text: String, good: Option<J> },
    /// passes the message on to its sender, as the real server does when the sender is among the targets
    Echo { delay_ms: u64 },
}
/// One frame from the server: when it was put on the wire, and the number of the ping sent right behind it.
#[derive(Clone, Debug)]
pub struct Sent { pub text: String, pub ping: usize, pub good: Option<J>, pub for_tag: Option<String> }

#[derive(Default)]
pub struct State {
    pub responses: HashMap<String, Resp>,
    pub reactions: HashMap<String, Vec<React>>,
    pub queue: Vec<(Instant, Option<Vec<u8>>, String, Option<J>, Option<String>)>,
    pub http: Vec<HttpReq>,
    pub ws_in: Vec<J>,
    pub ws_odd: Vec<String>,
    pub sent: Vec<Sent>,
    pub pings: usize,
    /// when the k-th pong arrived
    pub pongs: Vec<Instant>,
    pub sockets: usize,
    pub client_id: Option<String>,
    pub public_id: Option<String>,
    pub uuid_frames: usize,
    pub close_socket: bool,
    /// services answer anything they do not know with this (the command-line checks)
    pub errors: Vec<String>,
}
pub struct Mock { pub state: Arc<Mutex<State>>, pub port: u16, stop: Arc<AtomicBool> }
impl Drop for Mock { fn drop(&mut self) { self.stop.store(true, SeqCst); let _ = TcpStream::connect(("127.0.0.1", self.port)); } }

pub fn reason(status: u16) -> &'static str { match status { 200 => "OK", 201 => "Created", 400 => "Bad Request", 404 => "Not Found", 500 => "Internal Server Error", 503 => "Service Unavailable", _ => "Other" } }

impl Mock {
    pub fn start() -> Mock {
        let l = TcpListener::bind(("127.0.0.1", 0)).unwrap();
        let port = l.local_addr().unwrap().port();
        let state = Arc::new(Mutex::new(State::default()));
        let stop = Arc::new(AtomicBool::new(false));
        let (s2, st2) = (state.clone(), stop.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                if st2.load(SeqCst) { break }
                let Ok(c) = c else { continue };
                let (state, stop) = (s2.clone(), st2.clone());
                let _ = c.set_nodelay(true);
                std::thread::Builder::new().stack_size(256 << 10).spawn(move || connection(c, port, state, stop)).unwrap();
            }
        });
        Mock { state, port, stop }
    }
    pub fn base(&self) -> String { format!("http://127.0.0.1:{}", self.port) }
}

fn connection(mut c: TcpStream, port: u16, state: Arc<Mutex<State>>, stop: Arc<AtomicBool>) {
    let _ = c.set_read_timeout(Some(Duration::from_millis(200)));
    let mut buf: Vec<u8> = vec![];
    let mut first = true;
    loop {
        // wait for a whole head
        if first {
            let mut p = [0u8; 512];
            let t0 = Instant::now();
            loop {
                match c.peek(&mut p) {
                    Ok(0) => return,
                    Ok(n) => {
                        let s = String::from_utf8_lossy(&p[..n]).into_owned();
                        if let Some(line) = s.split("\r\n").next().filter(|_| s.contains("\r\n")) {
                            if line.contains("/connect ") { let id = line.split('/').nth(2).unwrap_or("").to_string(); return socket(c, id, state, stop); }
                            break;
                        }
                    }
                    Err(_) => (),
                }
                if stop.load(SeqCst) || t0.elapsed() > Duration::from_secs(60) { return }
                std::thread::sleep(Duration::from_millis(1));
            }
            first = false;
        }
        let head_end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break i + 4 }
            let mut b = [0u8; 4096];
            match c.read(&mut b) { Ok(0) => return, Ok(n) => buf.extend(&b[..n]), Err(_) => if stop.load(SeqCst) { return } }
        };
        let head = String::from_utf8_lossy(&buf[..head_end]).into_owned();
        let mut lines = head.split("\r\n");
        let mut parts = lines.next().unwrap_or("").split(' ');
        let (method, target) = (parts.next().unwrap_or("").to_string(), parts.next().unwrap_or("").to_string());
        let len: usize = lines.filter_map(|l| l.split_once(':')).find(|(k, _)| k.eq_ignore_ascii_case("content-length")).and_then(|(_, v)| v.trim().parse().ok()).unwrap_or(0);
        while buf.len() < head_end + len {
            let mut b = [0u8; 4096];
            match c.read(&mut b) { Ok(0) => return, Ok(n) => buf.extend(&b[..n]), Err(_) => if stop.load(SeqCst) { return } }
        }
        let body = buf[head_end..head_end + len].to_vec();
        buf.drain(..head_end + len);
        let (path, query) = target.split_once('?').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((target.clone(), String::new()));
        let req = HttpReq { method, path: path.clone(), query, body };
        let r = {
            let mut st = state.lock().unwrap();
            st.http.push(req.clone());
            respond(&mut st, &req, port)
        };
        if r.delay_ms > 0 { std::thread::sleep(Duration::from_millis(r.delay_ms)); }
        if matches!(r.mode, Mode::CloseBeforeResponse) { return }
        let mut out = format!("HTTP/1.1 {} {}\r\n", r.status, reason(r.status));
        if let Some(t) = &r.ctype { out += &format!("Content-Type: {t}\r\n"); }
        if r.close { out += "Connection: close\r\n"; }
        let mut bytes;
        if r.chunked {
            out += "Transfer-Encoding: chunked\r\n\r\n";
            bytes = out.into_bytes();
            for ch in r.body.chunks(7) { bytes.extend(format!("{:x}\r\n", ch.len()).bytes()); bytes.extend(ch); bytes.extend(b"\r\n"); }
            if !matches!(r.mode, Mode::Truncate) { bytes.extend(b"0\r\n\r\n"); }
        } else {
            let extra = if matches!(r.mode, Mode::Truncate) { 10 } else { 0 };
            out += &format!("Content-Length: {}\r\n\r\n", r.body.len() + extra);
            bytes = out.into_bytes();
            bytes.extend(&r.body);
        }
        if c.write_all(&bytes).is_err() { return }
        if matches!(r.mode, Mode::Truncate) || r.close { return }
    }
}

fn plain(status: u16, v: J) -> Resp { Resp { delay_ms: 0, status, ctype: Some("application/json".into()), body: v.to_string().into_bytes(), mode: Mode::Whole, chunked: false, close: false } }
fn respond(st: &mut State, r: &HttpReq, port: u16) -> Resp {
    match (r.method.as_str(), r.path.as_str()) {
        ("GET", "/configuration") => plain(200, json!({"servicesHosts": [{"url": format!("http://127.0.0.1:{port}/services")}, {"url": format!("http://127.0.0.1:{port}/wrong")}], "cloudUrl": "x"})),
        ("POST", "/projects/") => {
            let b: BTreeMap<String, J> = serde_json::from_slice(&r.body).unwrap_or_default();
            st.client_id = b.get("clientId").and_then(|x| x.as_str()).map(|x| x.to_string());
            st.public_id = Some(format!("{}@{}#vm", b.get("name").and_then(|x| x.as_str()).unwrap_or("?"), st.client_id.clone().unwrap_or_default()));
            plain(200, json!({"id": "proj-1", "roles": {"role-1": {"name": "myRole"}}}))
        }
        ("POST", p) if p.starts_with("/network/") && p.ends_with("/state") => plain(200, json!({})),
        ("POST", _) => {
            let b: J = serde_json::from_slice(&r.body).unwrap_or(J::Null);
            match b.get("tag").and_then(|x| x.as_str()).and_then(|t| st.responses.get(t)) {
                Some(r) => r.clone(),
                None => plain(500, json!("unexpected request")),
            }
        }
        _ => plain(404, json!("no such thing")),
    }
}

fn socket(c: TcpStream, id: String, state: Arc<Mutex<State>>, stop: Arc<AtomicBool>) {
    let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
    let Ok(mut ws) = tungstenite::accept(c) else { state.lock().unwrap().errors.push("socket handshake failed".into()); return };
    let _ = ws.get_ref().set_read_timeout(Some(Duration::from_millis(1)));
    {
        let mut st = state.lock().unwrap();
        st.sockets += 1;
        if st.client_id.is_none() { st.client_id = Some(id); }
    }
    fn send(ws: &mut WebSocket<TcpStream>, m: Message) -> bool {
        match ws.send(m) {
            Ok(()) => true,
            Err(tungstenite::Error::Io(e)) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => { while ws.flush().is_err() { std::thread::sleep(Duration::from_millis(1)); } true }
            Err(_) => false,
        }
    }
    loop {
        if stop.load(SeqCst) { return }
        let due: Vec<_> = {
            let mut st = state.lock().unwrap();
            if st.close_socket { let _ = ws.close(None); let _ = ws.flush(); return }
            let now = Instant::now();
            let mut due: Vec<_> = vec![];
            let mut i = 0;
            while i < st.queue.len() { if st.queue[i].0 <= now { due.push(st.queue.remove(i)); } else { i += 1; } }
            due.sort_by_key(|d| d.0);
            due
        };
        for (_, bin, text, good, for_tag) in due {
            let ok = match bin { Some(b) => send(&mut ws, Message::Binary(b.into())), None => send(&mut ws, Message::Text(text.clone().into())) };
            if !ok || !send(&mut ws, Message::Text(json!({"type": "ping"}).to_string().into())) { state.lock().unwrap().errors.push("the client closed the socket".into()); return }
            let mut st = state.lock().unwrap();
            let ping = st.pings;
            st.pings += 1;
            st.sent.push(Sent { text, ping, good, for_tag });
        }
        match ws.read() {
            Ok(Message::Text(t)) => {
                let mut st = state.lock().unwrap();
                match serde_json::from_str::<J>(&t) {
                    Ok(v) => match v["type"].as_str() {
                        Some("pong") => st.pongs.push(Instant::now()),
                        Some("set-uuid") => { st.uuid_frames += 1; if v["clientId"].as_str() != st.client_id.as_deref() { st.ws_odd.push(t.to_string()); } }
                        Some("message") => {
                            st.ws_in.push(v.clone());
                            let me = st.public_id.clone();
                            let to_me = match &v["dstId"] { J::String(s) => Some(s) == me.as_ref(), J::Array(a) => a.iter().any(|x| x.as_str() == me.as_deref()), _ => false };
                            if v["msgType"] == "__reply__" { if to_me { st.queue.push((Instant::now(), None, v.to_string(), None, Some("reply".into()))); } }
                            else if let Some(tag) = v["content"]["tag"].as_str().map(|x| x.to_string()) {
                                for r in st.reactions.get(&tag).cloned().unwrap_or_default() {
                                    let now = Instant::now();
                                    match r {
                                        React::Send { delay_ms, text, good } => { let rid = v["requestId"].as_str().unwrap_or("").to_string(); st.queue.push((now + Duration::from_millis(delay_ms), None, text.replace("$RID", &rid), good, Some(tag.clone()))); }
                                        React::Echo { delay_ms } => if to_me { st.queue.push((now + Duration::from_millis(delay_ms), None, v.to_string(), None, None)); },
                                    }
                                }
                            }
                        }
                        _ => st.ws_odd.push(t.to_string()),
                    },
                    Err(_) => st.ws_odd.push(t.to_string()),
                }
            }
            Ok(Message::Close(_)) => { let _ = ws.flush(); return }
            Ok(_) => (),
            Err(tungstenite::Error::Io(e)) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => (),
            Err(_) => return,
        }
    }
}
