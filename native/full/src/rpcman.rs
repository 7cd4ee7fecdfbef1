//! the request manager (C15): copies send requests, the client answers them in any order, with strays and errors
use crate::{guarded, Cases, Rng};
use analyzer_abstractions::futures::task::noop_waker;
use analyzer_abstractions::lsp_types::{notification::LogMessage, request::{RegisterCapability, WorkspaceConfiguration}, ConfigurationItem, ConfigurationParams, LogMessageParams, MessageType, RegistrationParams};
use analyzer_host::json_rpc::message::{Message, Notification, Response};
use analyzer_host::json_rpc::RequestId;
use analyzer_host::lsp::{request::RequestManager, LspProtocolError};
use cancellation::CancellationTokenSource;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

type Outcome = Result<Option<Vec<Value>>, &'static str>;
fn err(e: LspProtocolError) -> &'static str {
    match e { LspProtocolError::TransportError => "transport", LspProtocolError::UnexpectedResponse => "unexpected", LspProtocolError::BadRequest(_) => "bad", _ => "other" }
}
fn one<F: Future>(f: &mut Pin<Box<F>>) -> Option<F::Output> where F: ?Sized {
    let w = noop_waker();
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(x) => Some(x), Poll::Pending => None }
}
/// the request the client receives next
fn received(r: &async_channel::Receiver<Message>, kinds: &[u64], ids: &[Option<RequestId>]) -> Result<Option<(usize, RequestId)>, String> {
    match r.try_recv() {
        Ok(Message::Request(r)) => {
            let kind = if r.method == "workspace/configuration" { 0 } else { 1 };
            let shown = if kind == 0 { &r.params["items"][0]["section"] } else { &r.params["registrations"][0]["id"] };
            let tag: usize = shown.as_str().and_then(|s| s.parse().ok()).ok_or(format!("sent {r:?}"))?;
            if tag >= kinds.len() || kinds[tag] != kind || (kind == 1 && r.method != "client/registerCapability") || ids[tag].is_some() { return Err(format!("request {tag} was sent as {r:?}")) }
            if let Some(j) = ids.iter().position(|i| i.as_ref() == Some(&r.id)) { return Err(format!("requests {j} and {tag} have the same id {}", r.id)) }
            Ok(Some((tag, r.id)))
        }
        Err(_) => Ok(None),
        x => Err(format!("sent {x:?}")),
    }
}
/// {copies, full, start, ops: [["req", copy, kind] | ["note", copy] | ["ans", nth request, how] | ["stray", id] | ["close"] | ["take"]]}
pub fn check(c: &Value) -> Result<bool, String> {
    let n = c["copies"].as_u64().unwrap() as usize;
    let full = c["full"].as_bool().unwrap_or(false); // the outgoing channel holds one message only
    let (out_s, out_r) = if full { async_channel::bounded::<Message>(1) } else { async_channel::unbounded::<Message>() };
    let (in_s, in_r) = async_channel::unbounded::<Message>();
    let mut copies = vec![RequestManager::new((out_s, in_r))];
    for i in 1..n { let k = copies[(i - 1) / 2].clone(); copies.push(k) }
    let src = CancellationTokenSource::new();
    let tok = src.token().clone();
    let mut server: Pin<Box<dyn Future<Output = Result<(), cancellation::OperationCanceled>> + '_>> = Box::pin(copies[c["start"].as_u64().unwrap() as usize % n].start(tok));
    let mut waiters: Vec<Option<Pin<Box<dyn Future<Output = Outcome> + '_>>>> = vec![];
    let mut got: Vec<Option<Outcome>> = vec![];
    let mut want: Vec<Option<Outcome>> = vec![];
    let mut ids: Vec<Option<RequestId>> = vec![];
    let mut kinds = vec![];
    let mut notes = 0;
    let mut closed = false;
    for op in c["ops"].as_array().unwrap() {
        let k = op[1].as_u64().unwrap_or(0) as usize;
        match op[0].as_str().unwrap() {
            "req" => {
                let (m, tag, kind) = (&copies[k % n], waiters.len(), op[2].as_u64().unwrap());
                kinds.push(kind);
                waiters.push(Some(if kind == 0 {
                    Box::pin(async move { m.send_and_receive::<WorkspaceConfiguration>(ConfigurationParams { items: vec![ConfigurationItem { scope_uri: None, section: Some(tag.to_string()) }] }).await.map(Some).map_err(err) })
                } else {
                    Box::pin(async move { m.send::<RegisterCapability>(RegistrationParams { registrations: vec![analyzer_abstractions::lsp_types::Registration { id: tag.to_string(), method: "m".into(), register_options: None }] }).await.map(|_| None).map_err(err) })
                }));
                got.push(None);
                want.push(if closed { Some(Err("transport")) } else { None });
                ids.push(None);
                // requests are handed over when the future is first polled
                let r = one(waiters[tag].as_mut().unwrap());
                if let Some(r) = r { got[tag] = Some(r); waiters[tag] = None }
                if !closed && !full { ids[tag] = Some(received(&out_r, &kinds, &ids)?.filter(|x| x.0 == tag).ok_or(format!("request {tag} was not sent"))?.1) }
            }
            "take" => if let Some((tag, id)) = received(&out_r, &kinds, &ids)? { ids[tag] = Some(id) },
            "note" => {
                if full { continue }
                notes += 1;
                let m = &copies[k % n];
                let r = one(&mut Box::pin(async move { m.send_notification::<LogMessage>(LogMessageParams { typ: MessageType::INFO, message: format!("n{notes}") }).await.map_err(err) }));
                if r != Some(if closed { Err("transport") } else { Ok(()) }) { return Err(format!("notification {notes} returned {r:?}")) }
                if !closed { match out_r.try_recv() {
                    Ok(Message::Notification(Notification { method, params })) if method == "window/logMessage" && params["message"] == json!(format!("n{notes}")) => {}
                    x => return Err(format!("notification {notes} was sent as {x:?}")),
                } }
            }
            "ans" => {
                if ids.is_empty() { continue }
                let k = k % ids.len();
                let id = match &ids[k] { Some(i) => i.clone(), None => continue };
                let how = op[2].as_u64().unwrap();
                let (resp, w): (Response, Outcome) = match how {
                    0 => (Response::new(id, Some(json!([k, "x"]))), Ok(Some(vec![json!(k), json!("x")]))),
                    1 => (Response { id, result: None, error: Some(analyzer_host::json_rpc::message::ResponseError { code: -3, message: "no".into(), data: None }) }, Err("unexpected")),
                    2 => (Response { id, result: Some(json!("text")), error: None }, Err("bad")),
                    3 => (Response { id, result: None, error: None }, Err("unexpected")),
                    _ => (Response { id, result: Some(json!([])), error: Some(analyzer_host::json_rpc::message::ResponseError { code: 1, message: "no".into(), data: None }) }, Err("unexpected")),
                };
                if want[k].is_none() { want[k] = Some(if kinds[k] == 0 || matches!(how, 1 | 4) { w } else { Ok(None) }) }
                in_s.try_send(Message::Response(resp)).map_err(|e| e.to_string())?;
            }
            "stray" => in_s.try_send(Message::Response(Response { id: if k % 2 == 0 { RequestId::from(100000 + k as i32) } else { RequestId::from(k.to_string()) }, result: Some(json!([9])), error: None })).map_err(|e| e.to_string())?,
            _ => { if full { continue } closed = true; out_r.close(); }
        }
        for _ in 0..3 {
            if guarded(|| one(&mut server)).map_err(|e| format!("the manager's loop: {e}"))?.is_some() { return Err("the manager's loop has ended".into()) }
            for i in 0..waiters.len() {
                if let Some(f) = waiters[i].as_mut() { if let Some(r) = one(f) { got[i] = Some(r); waiters[i] = None } }
            }
        }
        for i in 0..got.len() { if got[i] != want[i] { return Err(format!("request {i} has {:?}, expected {:?}, after {op}", got[i], want[i])) } }
    }
    src.cancel();
    drop(in_s);
    if one(&mut server) != Some(Err(cancellation::OperationCanceled)) {
        return Err("the manager's loop goes on after cancellation".into());
    }
    if full { out_r.close(); } // who waits for room is not waiting for a response yet
    // no response can come any more: who still waits is told, and so is who asks now
    for i in 0..waiters.len() {
        if let Some(mut f) = waiters[i].take() {
            match one(&mut f) { Some(Err("transport")) => {}, x => return Err(format!("request {i} has {x:?} when the manager's loop has ended")) }
        }
    }
    for m in &copies {
        let r = one(&mut Box::pin(async move { m.send::<RegisterCapability>(RegistrationParams { registrations: vec![] }).await.map_err(err) }));
        if r != Some(Err("transport")) { return Err(format!("a request after the manager's loop has ended has {r:?}")) }
    }
    Ok(n > 1 && want.iter().filter(|w| w.is_some()).count() > 1)
}
pub fn cases(mut r: Rng) -> Cases {
    let op = |x: usize| -> Value { match x {
        0 => json!(["req", 0, 0]), 1 => json!(["req", 1, 0]), 2 => json!(["req", 1, 1]), 3 => json!(["ans", 0, 0]), 4 => json!(["ans", 1, 0]), 5 => json!(["stray", 3]), 6 => json!(["ans", 0, 1]), _ => json!(["note", 1]) } };
    let small = (0..=4u32).flat_map(move |len| (0..8usize.pow(len)).map(move |mut x| {
        let mut ops = vec![];
        for _ in 0..len { ops.push(op(x % 8)); x /= 8 }
        json!({"copies": 2, "start": 0, "ops": ops})
    }));
    let rand = std::iter::repeat_with(move || {
        let copies = 1 + r.below(4);
        let len = 3 + r.below(25);
        let mut ops = vec![];
        for _ in 0..len { ops.push(match r.below(12) {
            0..=4 => json!(["req", r.below(copies), r.below(2)]),
            5..=9 => json!(["ans", r.below(8), r.below(5)]),
            10 => if r.below(3) == 0 { json!(["note", r.below(copies)]) } else { json!(["stray", r.below(6)]) },
            _ => if r.below(8) == 0 { json!(["close"]) } else { json!(["ans", r.below(8), 0]) },
        }) }
        if r.below(3) == 0 { // a channel that fills up
            let ops: Vec<Value> = ops.into_iter().flat_map(|o| match o[0].as_str() { Some("req") => vec![o], Some("ans") => vec![json!(["take"]), o], _ => vec![json!(["take"])] }).collect();
            return json!({"copies": copies, "full": true, "start": r.below(copies), "ops": ops})
        }
        json!({"copies": copies, "start": r.below(copies), "ops": ops})
    });
    Box::new(small.chain(rand))
}
