//! the server's life cycle (C16): any sequence of messages, against the protocol's table
use crate::{guarded, Cases, Rng};
use analyzer_abstractions::futures::task::noop_waker;
use analyzer_abstractions::fs::{AnyEnumerableFileSystem, EnumerableFileSystem};
use analyzer_abstractions::lsp_types::{notification::Notification as _, request::Request as _, TextDocumentIdentifier, Url};
use analyzer_abstractions::BoxFuture;
use analyzer_host::fsm::LspProtocolMachine;
use analyzer_host::json_rpc::message::{Message, Notification, Request};
use analyzer_host::json_rpc::RequestId;
use analyzer_host::lsp::{request::RequestManager, LspProtocolError};
use serde_json::{json, Value};
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll};

pub struct NoFiles;
impl EnumerableFileSystem for NoFiles {
    fn enumerate_folder<'a>(&'a self, _: Url, _: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> { Box::pin(async { vec![] }) }
    fn file_contents<'a>(&'a self, _: Url) -> BoxFuture<'a, Option<String>> { Box::pin(async { None }) }
}
pub fn ready<F: Future>(f: F) -> Option<F::Output> {
    let w = noop_waker();
    let mut f = Box::pin(f);
    for _ in 0..50 { if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return Some(x) } }
    None
}
const STATES: [&str; 5] = ["uninitialized", "initializing", "initialized", "shutting down", "stopped"];
/// requests: method, good parameters, parameters whose handler fails, bad parameters
fn requests() -> Vec<(&'static str, Vec<Value>, Vec<Value>, Vec<Value>)> {
    let at = json!({"textDocument": {"uri": "file:///a.p4"}, "position": {"line": 1, "character": 2}});
    vec![
        ("initialize", vec![json!({"capabilities": {}}), json!({"processId": 1, "rootUri": null, "capabilities": {"window": {"workDoneProgress": true}}, "trace": "verbose"})],
            vec![json!({"capabilities": {}, "workspaceFolders": [{"uri": "file:///w/", "name": "w"}]}), json!({"capabilities": {"workspace": {}}, "workspaceFolders": []})],
            vec![Value::Null, json!({}), json!({"capabilities": 3}), json!([1]), json!("x")]),
        ("shutdown", vec![Value::Null], vec![], vec![json!({}), json!([1]), json!(3)]),
        ("textDocument/hover", vec![at.clone()], vec![], vec![Value::Null, json!({"textDocument": {"uri": "no uri"}, "position": {"line": 1, "character": 2}}), json!({"textDocument": {"uri": "file:///a"}}), json!({"textDocument": {"uri": "file:///a"}, "position": {"line": -1, "character": 2}})]),
        ("textDocument/completion", vec![], vec![], vec![Value::Null, json!({"position": {"line": 0, "character": 0}})]),
    ]
}
fn notifications() -> Vec<(&'static str, Vec<Value>, Vec<Value>)> {
    vec![
        ("exit", vec![Value::Null], vec![json!({}), json!(1)]),
        ("initialized", vec![json!({})], vec![json!(3), json!("x")]),
        ("$/setTrace", vec![json!({"value": "off"}), json!({"value": "verbose"})], vec![Value::Null, json!({"value": "loud"})]),
        ("workspace/didChangeWatchedFiles", vec![json!({"changes": []})], vec![Value::Null, json!({"changes": 1})]),
        ("textDocument/didOpen", vec![json!({"textDocument": {"uri": "file:///a.p4", "languageId": "p4", "version": 1, "text": "x"}})], vec![json!({"textDocument": {"uri": "file:///a.p4"}})]),
        ("textDocument/didClose", vec![], vec![Value::Null]),
        ("textDocument/didChange", vec![], vec![json!({"textDocument": {}})]),
        ("textDocument/didSave", vec![], vec![json!([])]),
    ]
}
/// the states in which a message is part of the protocol, and where it leads
pub fn allowed(request: bool, method: &str, s: usize) -> Option<usize> {
    match (request, method) {
        (true, "initialize") if s == 0 => Some(1),
        (true, "shutdown") if s == 2 => Some(3),
        (true, "textDocument/hover" | "textDocument/completion") if s == 2 => Some(2),
        (false, "exit") if s < 4 => Some(4),
        (false, "initialized") if s == 1 => Some(2),
        (false, "$/setTrace" | "workspace/didChangeWatchedFiles" | "textDocument/didOpen" | "textDocument/didClose" | "textDocument/didChange" | "textDocument/didSave") if s == 2 => Some(2),
        _ => None,
    }
}
/// the error a request is answered with
pub fn code(to: Option<usize>, how: &str, s: usize) -> Option<i32> {
    match (to, how) {
        (Some(_), "good") => None,
        (Some(_), "fails") => Some(-32603),
        (Some(_), _) => Some(-32602),
        (None, _) => Some(match s { 0 | 1 => -32002, 2 => -32603, _ => -32600 }),
    }
}
pub fn to_message(x: &Value) -> Message {
    let method = x[1].as_str().unwrap_or("").to_string();
    let id = match &x[3] { Value::String(t) => RequestId::from(t.clone()), v => RequestId::from(v.as_i64().unwrap_or(0) as i32) };
    match x[0].as_str().unwrap() {
        "req" => Message::Request(Request { id, method, params: x[2].clone() }),
        "note" => Message::Notification(Notification { method, params: x[2].clone() }),
        _ => Message::Response(analyzer_host::json_rpc::message::Response { id, result: Some(json!(1)), error: None }),
    }
}
fn names() -> Result<(), String> {
    use analyzer_abstractions::lsp_types::{notification as n, request as r};
    for (a, b) in [(r::Initialize::METHOD, "initialize"), (r::Shutdown::METHOD, "shutdown"), (r::HoverRequest::METHOD, "textDocument/hover"), (r::Completion::METHOD, "textDocument/completion"),
        (n::Exit::METHOD, "exit"), (n::Initialized::METHOD, "initialized"), (n::DidChangeTextDocument::METHOD, "textDocument/didChange"), (n::DidCloseTextDocument::METHOD, "textDocument/didClose"),
        (n::DidOpenTextDocument::METHOD, "textDocument/didOpen"), (n::DidSaveTextDocument::METHOD, "textDocument/didSave"), (n::SetTrace::METHOD, "$/setTrace"), (n::DidChangeWatchedFiles::METHOD, "workspace/didChangeWatchedFiles")] {
        if a != b { return Err(format!("lsp_types calls {b} {a}")) }
    }
    Ok(())
}
/// {msgs: [["req", method, params, id, "good"|"fails"|"bad"] | ["note", method, params, how] | ["resp", id]]}
pub fn check(c: &Value) -> Result<bool, String> {
    names()?;
    let (out_s, _out_r) = async_channel::unbounded::<Message>();
    let (_in_s, in_r) = async_channel::unbounded::<Message>();
    let fs: Arc<AnyEnumerableFileSystem> = Arc::new(Box::new(NoFiles));
    let mut m = LspProtocolMachine::new(None, RequestManager::new((out_s, in_r)), fs);
    let mut s = 0;
    let mut moves = 0;
    for x in c["msgs"].as_array().unwrap() {
        let kind = x[0].as_str().unwrap();
        let method = x[1].as_str().unwrap_or("").to_string();
        let id = match &x[3] { Value::String(t) => RequestId::from(t.clone()), v => RequestId::from(v.as_i64().unwrap_or(0) as i32) };
        let how = x[4].as_str().unwrap_or("");
        let msg = to_message(x);
        let at = format!("{x} while {}", STATES[s]);
        let got = guarded(|| ready(m.process_message(Arc::new(msg)))).map_err(|e| format!("{at}: {e}"))?.ok_or(format!("{at} is not finished"))?;
        let to = if kind == "resp" { None } else { allowed(kind == "req", &method, s) };
        if kind == "req" {
            let r = match got {
                Ok(Some(Message::Response(r))) => r,
                x => return Err(format!("{at} is answered with {:?}", x.map_err(|e| e.to_string()))),
            };
            if r.id != id { return Err(format!("{at} is answered as {}", r.id)) }
            let want = code(to, how, s);
            let code = r.error.as_ref().map(|e| e.code);
            if code != want || r.result.is_some() != want.is_none() { return Err(format!("{at} is answered with {:?} / {:?}, expected the error {want:?}", r.result, code)) }
        } else {
            let want = match (to, how) { (Some(_), "good") => "nothing", (Some(_), _) => "a bad request", (None, _) => "an unexpected request" };
            let is = match &got { Ok(None) => "nothing", Ok(Some(_)) => "an answer", Err(LspProtocolError::BadRequest(_)) => "a bad request", Err(LspProtocolError::UnexpectedRequest) => "an unexpected request", Err(_) => "another error" };
            if want != is { return Err(format!("{at} gives {is}, expected {want}")) }
        }
        if let (Some(t), "good") = (to, how) { if s != t { moves += 1 } s = t }
        if m.is_active() != (s != 4) { return Err(format!("{at}: the server says it is {}active", if m.is_active() { "" } else { "not " })) }
    }
    Ok(moves > 1)
}
pub fn message(r: &mut Rng, s: Option<usize>) -> Value {
    let id = match r.below(4) { 0 => json!(["a", "", "42", "é"][r.below(4)]), 1 => json!(-1), _ => json!(r.below(5)) };
    if r.below(25) == 0 { return json!(["resp", "", null, id]) }
    if r.below(2) == 0 {
        let rs = requests();
        let (m, good, fails, bad) = loop {
            let x = rs[r.below(rs.len())].clone();
            if s.map_or(true, |s| allowed(true, x.0, s).is_some()) || r.below(6) == 0 { break x }
        };
        if r.below(12) == 0 { return json!(["req", *r.pick(&["", "nope", "exit", "initialized", "Initialize", "textDocument/didOpen"]), null, id, "good"]) }
        let mut v: Vec<(Value, &str)> = vec![];
        for _ in 0..4 { v.extend(good.iter().map(|x| (x.clone(), "good"))) }
        v.extend(fails.iter().map(|x| (x.clone(), "fails")));
        v.extend(bad.iter().map(|x| (x.clone(), "bad")));
        let (p, how) = v[r.below(v.len())].clone();
        json!(["req", m, p, id, how])
    } else {
        let ns = notifications();
        let (m, good, bad) = loop {
            let x = ns[r.below(ns.len())].clone();
            if x.0 == "exit" && r.below(4) != 0 { continue }
            if s.map_or(true, |s| allowed(false, x.0, s).is_some()) || r.below(6) == 0 { break x }
        };
        if r.below(12) == 0 { return json!(["note", *r.pick(&["", "nope", "shutdown", "initialize", "$/cancelRequest"]), null, 0, "good"]) }
        let mut v: Vec<(Value, &str)> = vec![];
        for _ in 0..3 { v.extend(good.iter().map(|x| (x.clone(), "good"))) }
        v.extend(bad.iter().map(|x| (x.clone(), "bad")));
        let (p, how) = v[r.below(v.len())].clone();
        json!(["note", m, p, 0, how])
    }
}
pub fn cases(mut r: Rng) -> Cases {
    // every message in every state
    let mut every = vec![];
    let ini = json!(["req", "initialize", {"capabilities": {}}, 1, "good"]);
    let ied = json!(["note", "initialized", {}, 0, "good"]);
    let shut = json!(["req", "shutdown", null, 2, "good"]);
    let exit = json!(["note", "exit", null, 0, "good"]);
    let mut all = vec![json!(["resp", "", null, 1]), json!(["req", "nope", null, 7, "good"]), json!(["note", "nope", null, 0, "good"])];
    for (m, g, f, b) in requests() { for (v, h) in [(g, "good"), (f, "fails"), (b, "bad")] { for p in v { all.push(json!(["req", m, p, "x", h])) } } }
    for (m, g, b) in notifications() { for (v, h) in [(g, "good"), (b, "bad")] { for p in v { all.push(json!(["note", m, p, 0, h])) } } }
    for pre in [vec![], vec![&ini], vec![&ini, &ied], vec![&ini, &ied, &shut], vec![&ini, &ied, &shut, &exit], vec![&exit]] {
        for x in &all {
            let mut v: Vec<Value> = pre.iter().map(|x| (*x).clone()).collect();
            v.push(x.clone());
            for y in [&ini, &ied, &shut, &exit] { v.push((*y).clone()) }
            every.push(json!({ "msgs": v }));
        }
    }
    let rand = std::iter::repeat_with(move || {
        let mut v = vec![];
        let mut s = 0;
        for _ in 0..2 + r.below(25) {
            let x = message(&mut r, Some(s));
            if x[4] == "good" { if let Some(t) = allowed(x[0] == "req", x[1].as_str().unwrap(), s) { s = t } }
            v.push(x);
        }
        json!({ "msgs": v })
    });
    Box::new(every.into_iter().chain(rand))
}
