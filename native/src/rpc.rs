//! C09 reading, C10 writing and round trip, C11 shape of messages.
use crate::{Cases, Rng};
use analyzer_host::json_rpc::message::*;
use analyzer_host::json_rpc::*;
use serde_json::{json, Value};
use std::io::{self, BufReader, Read, Write};

fn s(v: &Value) -> String { v.as_str().unwrap_or("").to_string() }
fn u(v: &Value) -> usize { v.as_u64().unwrap_or(0) as usize }
fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(t) => t.as_bytes().to_vec(),
        Value::Array(a) => a.iter().flat_map(|x| match x { Value::Number(n) => vec![n.as_u64().unwrap() as u8], x => bytes(x) }).collect(),
        _ => vec![],
    }
}
/// gives at most `chunk` bytes at a time, and fails after `fault` bytes
struct Slow { b: Vec<u8>, at: usize, chunk: usize, fault: Option<usize> }
impl Read for Slow {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        if let Some(f) = self.fault { if self.at >= f { return Err(io::Error::new(io::ErrorKind::Other, "fault")) } }
        let end = self.fault.unwrap_or(usize::MAX).min(self.b.len());
        let n = o.len().min(self.chunk).min(end.saturating_sub(self.at));
        o[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
#[derive(Debug, PartialEq)]
enum Got { Eof, Bad, Msg(Value, usize) }
/// oracle: what the bytes hold, written from the base protocol
fn oracle(b: &[u8]) -> Got {
    let mut at = 0;
    let mut len: Option<u128> = None;
    loop {
        if at >= b.len() { return Got::Eof }
        let e = match b[at..].iter().position(|c| *c == b'\n') { Some(i) => at + i + 1, None => b.len() };
        let l = match std::str::from_utf8(&b[at..e]) { Ok(l) => l, Err(_) => return Got::Bad };
        at = e;
        let l = match l.strip_suffix("\r\n") { Some(l) => l, None => return Got::Bad };
        if l.is_empty() { break }
        let (n, v) = match l.split_once(": ") { Some(x) => x, None => return Got::Bad };
        if n == "Content-Length" {
            let d = v.strip_prefix('+').unwrap_or(v);
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return Got::Bad }
            match d.trim_start_matches('0') { "" => len = Some(0), t if t.len() <= 20 => len = Some(t.parse().unwrap()), _ => return Got::Bad }
            if len.unwrap() > u64::MAX as u128 { return Got::Bad }
        }
    }
    let n = match len { Some(n) => n, None => return Got::Bad };
    if n > (b.len() - at) as u128 { return Got::Bad }
    let n = n as usize;
    let t = match std::str::from_utf8(&b[at..at + n]) { Ok(t) => t, Err(_) => return Got::Bad };
    match serde_json::from_str::<Value>(t).ok().and_then(|v| shape(&v)) { Some(v) => Got::Msg(v, at + n), None => Got::Bad }
}
/// the message a JSON object is: a request, else a response, else a notification; members not given are dropped
fn shape(v: &Value) -> Option<Value> {
    let o = v.as_object()?;
    let id = o.get("id").filter(|i| i.is_string() || i.as_i64().map_or(false, |n| n >= i32::MIN as i64 && n <= i32::MAX as i64));
    let method = o.get("method").filter(|m| m.is_string());
    let params = o.get("params").cloned().unwrap_or(Value::Null);
    let mut r = serde_json::Map::new();
    if let (Some(i), Some(m)) = (id, method) {
        r.insert("id".into(), i.clone()); r.insert("method".into(), m.clone());
        if !params.is_null() { r.insert("params".into(), params); }
        return Some(Value::Object(r));
    }
    let err_ok = |e: &Value| e.as_object().map_or(false, |e| e.get("code").and_then(|c| c.as_i64()).map_or(false, |c| c >= i32::MIN as i64 && c <= i32::MAX as i64) && e.get("message").map_or(false, |m| m.is_string()));
    let e = o.get("error").cloned().unwrap_or(Value::Null);
    if let Some(i) = id {
        if e.is_null() || err_ok(&e) {
            r.insert("id".into(), i.clone());
            if let Some(x) = o.get("result").filter(|x| !x.is_null()) { r.insert("result".into(), x.clone()); }
            if !e.is_null() {
                let mut q = serde_json::Map::new();
                q.insert("code".into(), e["code"].clone()); q.insert("message".into(), e["message"].clone());
                if let Some(d) = e.get("data").filter(|d| !d.is_null()) { q.insert("data".into(), d.clone()); }
                r.insert("error".into(), Value::Object(q));
            }
            return Some(Value::Object(r));
        }
    }
    method.map(|m| { r.insert("method".into(), m.clone()); if !params.is_null() { r.insert("params".into(), params); } Value::Object(r) })
}
const TEXT: &[&str] = &["a", "ć", "😀", "\n", "\r\n", "\"", "\\", "\u{0}", "\u{2028}", ": ", "Content-Length: 3\r\n\r\n{}", "textDocument/didChange", ""];
fn rnd_str(r: &mut Rng) -> String { (0..r.below(4)).map(|_| *r.pick(TEXT)).collect() }
fn rnd_json(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 6 } else { 8 }) {
        0 => Value::Null, 1 => json!(r.bool()), 2 => json!(r.next() as i64), 3 => json!((r.below(2000) as f64 - 1000.0) / 8.0), 4 | 5 => json!(rnd_str(r)),
        6 => Value::Array((0..r.below(4)).map(|_| rnd_json(r, d - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (rnd_str(r), rnd_json(r, d - 1))).collect()),
    }
}
fn rnd_id(r: &mut Rng) -> Value { match r.below(5) { 0 => json!(r.next() as i32), 1 => json!(0), 2 => json!(-1), 3 => json!(rnd_str(r)), _ => json!("1") } }
/// a message as a JSON description: {kind, id, method, params | result | code, message, data}
fn rnd_msg(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!({"kind": "request", "id": rnd_id(r), "method": rnd_str(r), "params": rnd_json(r, 2)}),
        1 => json!({"kind": "response", "id": rnd_id(r), "result": rnd_json(r, 2)}),
        2 => json!({"kind": "error", "id": rnd_id(r), "code": *r.pick(&[-32603, -32602, 0, 1, i32::MIN, i32::MAX]), "message": rnd_str(r), "data": rnd_json(r, 1)}),
        _ => json!({"kind": "notification", "method": rnd_str(r), "params": rnd_json(r, 2)}),
    }
}
fn rid(v: &Value) -> RequestId { match v { Value::String(t) => RequestId::from(t.clone()), v => RequestId::from(v.as_i64().unwrap_or(0) as i32) } }
fn build(m: &Value) -> Message {
    match m["kind"].as_str().unwrap_or("") {
        "request" => Message::Request(Request { id: rid(&m["id"]), method: s(&m["method"]), params: m["params"].clone() }),
        "response" => Message::Response(Response { id: rid(&m["id"]), result: Some(m["result"].clone()), error: None }),
        "error" => Message::Response(Response { id: rid(&m["id"]), result: None, error: Some(ResponseError { code: m["code"].as_i64().unwrap_or(0) as i32, message: s(&m["message"]), data: if m["data"].is_null() { None } else { Some(m["data"].clone()) } }) }),
        _ => Message::Notification(Notification { method: s(&m["method"]), params: m["params"].clone() }),
    }
}
/// what has to be on the wire
fn wire(m: &Value) -> Value {
    let mut o = serde_json::Map::new();
    o.insert("jsonrpc".into(), json!("2.0"));
    let k = m["kind"].as_str().unwrap_or("");
    if k != "notification" { o.insert("id".into(), m["id"].clone()); }
    match k {
        "response" => { o.insert("result".into(), m["result"].clone()); }
        "error" => {
            let mut q = serde_json::Map::new();
            q.insert("code".into(), m["code"].clone()); q.insert("message".into(), m["message"].clone());
            if !m["data"].is_null() { q.insert("data".into(), m["data"].clone()); }
            o.insert("error".into(), Value::Object(q));
        }
        _ => { o.insert("method".into(), m["method"].clone()); if !m["params"].is_null() { o.insert("params".into(), m["params"].clone()); } }
    }
    Value::Object(o)
}
fn frame(t: &str, headers: &[String]) -> String { format!("{}Content-Length: {}\r\n\r\n{}", headers.concat(), t.len(), t) }
// ---------- C09 ----------
pub fn read_cases(mut r: Rng) -> Cases {
    let pieces: &[&str] = &["Content-Length: 2\r\n", "Content-Length: 14\r\n", "\r\n", "{}", "{\"method\":\"a\"}", "X: y\r\n", "\n", "Content-Length: ", "ć", "Content-Type: a: b\r\n", ":\r\n", "content-length: 2\r\n",
        "Content-Length: 18446744073709551615\r\n", "Content-Length: 9223372036854775807\r\n", "Content-Length: 99999999999999999999\r\n", "Content-Length: -1\r\n", "Content-Length: +14\r\n", "Content-Length:14\r\n", "Content-Length: 14 \r\n", "Content-Length: 0\r\n", "Content-Length: 1099511627776\r\n", "\r", " \r\n", "\t \r\n", "Content-Length-X: 1\r\n", "X-Content-Length: 1\r\n", "Content-Length : 1\r\n", " Content-Length: 1\r\n", "X:\r\n", "X:y\r\n", "X: y\n", "X: y\r\r\n", "Content-Length: 14\n", "Content-Length: 014\r\n", "Content-Length: 1_4\r\n", "Content-Length: 14;\r\n", "Content-Length: 14: 2\r\n", "Content-Length: \r\n", "Content-Length: 1４\r\n", "\r\n\r\n"];
    let mut small = vec![json!({"b": "", "chunk": 1})];
    let good = frame("{\"method\":\"a\"}", &[]);
    // every piece before a good frame, between its header and the empty line, and behind it
    for a in pieces { small.push(json!({"b": format!("{a}{good}"), "chunk": 7})); small.push(json!({"b": good.replacen("\r\n\r\n", &format!("\r\n{a}\r\n"), 1), "chunk": 3})); small.push(json!({"b": good.replacen("\r\n\r\n", &format!("\r\n{a}"), 1), "chunk": 3})); small.push(json!({"b": format!("{good}{a}"), "chunk": 100})); small.push(json!({"b": format!("{good}{a}{good}"), "chunk": 100})) }
    // every byte within a text, and every cut of a frame
    for x in 0..256u32 { for at in [0, 11, 13] { let t = "{\"method\":\"a\"}"; small.push(json!({"b": ["Content-Length: 15\r\n\r\n", &t[..at], x, &t[at..]], "chunk": 9})); } small.push(json!({"b": ["X", x, ": y\r\n", good], "chunk": 9})); small.push(json!({"b": ["Content-Length: 1", x, "\r\n\r\n{\"method\":\"a\"}"], "chunk": 9})) }
    for k in 0..=good.len() { small.push(json!({"b": good, "chunk": 4, "cut": k})); small.push(json!({"b": good, "chunk": 4, "fault": k})); }
    for a in pieces { for b in pieces { for c in pieces { small.push(json!({"b": format!("{a}{b}{c}"), "chunk": 7})) } } }
    let rnd = (0..).map(move |_| {
        let mut v: Vec<Value> = vec![];
        let n = 1 + r.below(4);
        for _ in 0..n {
            match r.below(9) {
                8 => { let m = rnd_msg(&mut r); let mut t = serde_json::to_string(&wire(&m)).unwrap().into_bytes(); let k = r.below(t.len()); t[k] = r.below(256) as u8; v.push(json!(format!("Content-Length: {}\r\n\r\n", t.len()))); v.push(json!(t)) }
                0..=4 => {
                    let m = rnd_msg(&mut r);
                    let t = serde_json::to_string(&wire(&m)).unwrap();
                    let hs: Vec<String> = (0..if r.bool() { 0 } else { r.below(3) }).map(|_| r.pick(&["Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", "X: \r\n", "Content-Length: 99999\r\n", "ć: a: b\r\n", "Content-Length-X: 1\r\n"]).to_string()).collect();
                    let mut f = frame(&t, &hs);
                    if r.below(8) == 0 { f = f.replacen("\r\n\r\n", "\r\nX: y\r\n\r\n", 1) }
                    v.push(json!(f));
                }
                5 => { let k = r.below(4); v.push(json!((0..k).map(|_| *r.pick(pieces)).collect::<String>())) }
                6 => v.push(json!((0..r.below(6)).map(|_| json!(r.below(256))).collect::<Vec<_>>())),
                _ => { let t = (0..r.below(8)).map(|_| r.pick(&["{", "}", "\"id\":1", ",", "\"method\":\"m\"", "\"result\":", "null", "1", "\"error\":{\"code\":1,\"message\":\"\"}", "[", "]", " "]).to_string()).collect::<String>(); v.push(json!(frame(&t, &[]))) }
            }
        }
        let mut c = json!({"b": v, "chunk": 1 + r.below(40)});
        let l = bytes(&c["b"]).len();
        if r.below(4) == 0 { c["cut"] = json!(r.below(l + 1)) }
        if r.below(6) == 0 { c["fault"] = json!(r.below(l + 1)) } else if r.below(4) == 0 { c["rest"] = json!(true) }
        c
    });
    Box::new(small.into_iter().chain(rnd))
}
pub fn read_check(c: &Value) -> Result<bool, String> {
    let mut b = bytes(&c["b"]);
    if let Some(k) = c["cut"].as_u64() { b.truncate(k as usize) }
    let fault = c["fault"].as_u64().map(|k| k as usize).filter(|k| *k <= b.len());
    let mut rd = BufReader::with_capacity(16, Slow { b: b.clone(), at: 0, chunk: u(&c["chunk"]).max(1), fault });
    let mut at = 0;
    let mut n = 0;
    loop {
        let want = oracle(&b[at..]);
        let got = Message::read(&mut rd);
        match (&want, &got) {
            // a reader that fails: either the failure is reported or the message had arrived before
            (_, Err(_)) if fault.is_some() => return Ok(n > 0),
            (Got::Eof, Ok(None)) => return if fault.is_some() { Err("a failing reader is taken for the end of the stream".into()) } else { Ok(n > 0) },
            (Got::Bad, Err(_)) => return Ok(n > 0),
            (Got::Msg(v, k), Ok(Some(m))) => {
                let g = serde_json::to_value(m).map_err(|e| e.to_string())?;
                if g != *v { return Err(format!("message {n}: read {g}, the stream holds {v}")) }
                at += k;
                n += 1;
                // nothing beyond the message has been taken
                if fault.is_none() && c["rest"] == json!(true) {
                    let mut rest = vec![];
                    rd.read_to_end(&mut rest).map_err(|e| e.to_string())?;
                    if rest != b[at..] { return Err("more or less than the message was taken".into()) }
                    return Ok(true);
                }
            }
            (w, g) => return Err(format!("message {n}: read gives {g:?}, the stream holds {w:?}")),
        }
    }
}
// ---------- C10 ----------
struct Sink { b: Vec<u8>, chunk: usize, fault: Option<usize>, flushed: usize, intr: bool, tick: usize }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.intr && self.tick % 3 == 1 { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")) }
        if let Some(f) = self.fault { if self.b.len() >= f { return Err(io::Error::new(io::ErrorKind::Other, "fault")) } }
        let n = b.len().min(self.chunk).min(self.fault.unwrap_or(usize::MAX) - self.b.len());
        self.b.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(f) = self.fault { if self.b.len() >= f { return Err(io::Error::new(io::ErrorKind::Other, "fault")) } }
        self.flushed = self.b.len();
        Ok(())
    }
}
pub fn write_cases(mut r: Rng) -> Cases {
    Box::new((0u64..).map(move |i| {
        let n = if i < 200 { 1 } else { 1 + r.below(5) };
        let m: Vec<Value> = (0..n).map(|_| rnd_msg(&mut r)).collect();
        let mut c = json!({"msgs": m, "chunk": if r.bool() { 100000 } else { 1 + r.below(9) }, "intr": r.below(3) == 0});
        if r.below(6) == 0 { c["fault"] = json!(r.below(120)) }
        c
    }))
}
pub fn write_check(c: &Value) -> Result<bool, String> {
    let ms = c["msgs"].as_array().cloned().unwrap_or_default();
    let mut o = Sink { b: vec![], chunk: u(&c["chunk"]).max(1), fault: c["fault"].as_u64().map(|k| k as usize), flushed: 0, intr: c["intr"] == json!(true), tick: 0 };
    for m in &ms {
        let before = o.b.len();
        match build(m).write(&mut o) {
            Err(e) => return if o.fault.is_some() { Ok(true) } else { Err(format!("writing fails: {e}")) },
            Ok(()) => {
                if o.flushed != o.b.len() { return Err("not everything that was written has been flushed".into()) }
                let t = String::from_utf8(o.b[before..].to_vec()).map_err(|_| "not UTF-8".to_string())?;
                let (h, body) = t.split_once("\r\n\r\n").ok_or_else(|| format!("no empty line after the header: {t:?}"))?;
                if h != format!("Content-Length: {}", body.len()) { return Err(format!("header {h:?} for a body of {} bytes", body.len())) }
                let v: Value = serde_json::from_str(body).map_err(|e| format!("body is not JSON: {e}: {body}"))?;
                if v != wire(m) { return Err(format!("wire: {v}, should be {}", wire(m))) }
            }
        }
    }
    if let Some(f) = o.fault { if o.b.len() >= f && !ms.is_empty() { return Err("a failing writer is reported as success".into()) } }
    // reading back
    let mut rd = BufReader::with_capacity(16, Slow { b: o.b.clone(), at: 0, chunk: 5, fault: None });
    for m in &ms {
        let g = match Message::read(&mut rd) { Ok(Some(g)) => g, x => return Err(format!("reading back gives {x:?}")) };
        let g = serde_json::to_value(&g).map_err(|e| e.to_string())?;
        let w = shape(&wire(m)).ok_or("oracle")?;
        if g != w { return Err(format!("read back as {g}, written {w}")) }
    }
    match Message::read(&mut rd) { Ok(None) => Ok(true), x => Err(format!("after the last message: {x:?}")) }
}
// ---------- C11 ----------
pub fn shape_cases(mut r: Rng) -> Cases { Box::new((0u64..).map(move |_| rnd_msg(&mut r))) }
pub fn shape_check(m: &Value) -> Result<bool, String> {
    let k = m["kind"].as_str().unwrap_or("");
    let made = match k {
        "request" => Message::Request(Request::new(rid(&m["id"]), s(&m["method"]), m["params"].clone())),
        "response" => Message::Response(Response::new(rid(&m["id"]), m["result"].clone())),
        "error" => Message::Response(Response::new_error(rid(&m["id"]), m["code"].as_i64().unwrap_or(0) as i32, &s(&m["message"]))),
        _ => { let name: &'static str = Box::leak(s(&m["method"]).into_boxed_str()); Message::Notification(Notification::new(name, m["params"].clone())) }
    };
    let mut b = vec![];
    made.write(&mut b).map_err(|e| e.to_string())?;
    let t = String::from_utf8(b).map_err(|e| e.to_string())?;
    let body = t.split_once("\r\n\r\n").ok_or("no body")?.1;
    let v: Value = serde_json::from_str(body).map_err(|e| e.to_string())?;
    let mut w = wire(m);
    if k == "error" { w["error"].as_object_mut().unwrap().remove("data"); }
    if v != w { return Err(format!("wire: {v}, should be {w}")) }
    Ok(true)
}
