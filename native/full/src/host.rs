//! the server as a whole (C19): a client talks to a started AnalyzerHost over its channels
use crate::{guarded, lifecycle, Cases, Rng};
use analyzer_abstractions::fs::{AnyEnumerableFileSystem, EnumerableFileSystem};
use analyzer_abstractions::lsp_types::{TextDocumentIdentifier, Url};
use analyzer_abstractions::BoxFuture;
use analyzer_host::json_rpc::message::{Message, Response};
use analyzer_host::AnalyzerHost;
use async_channel::{Receiver, Sender};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

struct Fs(Arc<AtomicUsize>);
impl EnumerableFileSystem for Fs {
    fn enumerate_folder<'a>(&'a self, _: Url, _: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> { self.0.fetch_add(1, Ordering::SeqCst); Box::pin(async { vec![] }) }
    fn file_contents<'a>(&'a self, _: Url) -> BoxFuture<'a, Option<String>> { Box::pin(async { None }) }
}
/// the client's side: what it sends, and what it does at the moment something is sent to it
struct Client { to: Sender<Message>, taken: Mutex<Vec<Value>>, planned: Mutex<VecDeque<Value>>, closed: AtomicUsize, heard: AtomicUsize }
impl Client {
    fn send(&self, x: &Value) { if self.to.try_send(lifecycle::to_message(x)).is_ok() { self.taken.lock().unwrap().push(x.clone()) } }
    fn close(&self) { if !self.to.is_closed() { self.to.close(); self.closed.store(self.heard.load(Ordering::SeqCst), Ordering::SeqCst); } }
    fn gone(&self) -> bool { self.closed.load(Ordering::SeqCst) != usize::MAX }
}
impl Wake for Client {
    fn wake(self: Arc<Self>) {
        let x = self.planned.lock().unwrap().pop_front();
        match x { Some(Value::String(_)) => self.close(), Some(x) => self.send(&x), None => {} }
    }
}
struct Nothing;
impl Wake for Nothing { fn wake(self: Arc<Self>) {} }
type Reply = (String, Option<i32>);
/// {fs, folder, steps: [["msg", m] | ["wake", m | "close"] | ["poll"] | ["close"] | ["deaf"] | ["cancel"]]}, m as in lifecycle
pub fn check(c: &Value) -> Result<bool, String> {
    let c = c.clone();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(guarded(|| run(&c)).map_err(|e| format!("panic: {e}")).and_then(|x| x)); });
    rx.recv_timeout(Duration::from_secs(30)).unwrap_or_else(|_| Err("the server never comes back".into()))
}
fn run(c: &Value) -> Result<bool, String> {
    let (os, out): (_, Receiver<Message>) = async_channel::unbounded();
    let (to, ir) = async_channel::unbounded();
    let looked = Arc::new(AtomicUsize::new(0));
    let fs: Option<Arc<AnyEnumerableFileSystem>> = if c["fs"] == json!(true) { Some(Arc::new(Box::new(Fs(looked.clone())))) } else { None };
    let host = AnalyzerHost::new((os, ir), None, fs.clone());
    let src = cancellation::CancellationTokenSource::new();
    let mut server = Box::pin(host.start(src.token().clone()));
    let client = Arc::new(Client { to, taken: Mutex::new(vec![]), planned: Mutex::new(VecDeque::new()), closed: AtomicUsize::new(usize::MAX), heard: AtomicUsize::new(0) });
    let (idle, mine) = (Waker::from(Arc::new(Nothing)), Waker::from(client.clone()));
    let mut listening: Option<BoxFuture<'static, Result<Message, async_channel::RecvError>>> = None;
    let mut replies: Vec<Reply> = vec![];
    let mut asked: Vec<String> = vec![];
    let mut ended: Option<bool> = None;
    let (mut loose, mut deaf, mut canceled) = (None, false, false);
    let mut steps: Vec<Value> = c["steps"].as_array().unwrap().clone();
    steps.push(json!(["poll"]));
    steps.push(json!(["close"]));
    steps.push(json!(["poll"]));
    for (n, x) in steps.iter().enumerate() {
        match x[0].as_str().unwrap() {
            "msg" => client.send(&x[1]),
            "wake" => client.planned.lock().unwrap().push_back(x[1].clone()),
            "close" => client.close(),
            "deaf" => { deaf = true; listening = None; out.close(); while out.try_recv().is_ok() {} }
            "cancel" => { if ended.is_none() { canceled = true } src.cancel() }
            _ => {
                let mut quiet = 0;
                while quiet < 12 {
                    quiet += 1;
                    if !deaf { loop {
                        let out = out.clone();
                        let l = listening.get_or_insert_with(|| Box::pin(async move { out.recv().await }));
                        match l.as_mut().poll(&mut Context::from_waker(&mine)) {
                            Poll::Pending => break,
                            Poll::Ready(m) => {
                                listening = None;
                                match m {
                                    Err(_) => break,
                                    Ok(Message::Response(r)) => { quiet = 0; replies.push((r.id.to_string(), r.error.map(|e| e.code))); client.heard.store(replies.len(), Ordering::SeqCst) }
                                    Ok(Message::Request(q)) => {
                                        quiet = 0;
                                        let result = match q.method.as_str() { "p4analyzer/enumerateFolder" => json!([{"uri": "file:///w/a.p4"}]), "p4analyzer/fileContents" => json!("x"), _ => json!(null) };
                                        asked.push(q.method);
                                        let _ = client.to.try_send(Message::Response(Response { id: q.id, result: Some(result), error: None }));
                                    }
                                    Ok(_) => quiet = 0,
                                }
                            }
                        }
                    } }
                    if ended.is_none() { if let Poll::Ready(r) = server.as_mut().poll(&mut Context::from_waker(&idle)) { ended = Some(r.is_ok()) } }
                }
            }
        }
        let at = format!("after step {n} {x}");
        if client.gone() && loose.is_none() { loose = Some(client.closed.load(Ordering::SeqCst)) }
        if (deaf || canceled) && loose.is_none() { loose = Some(replies.len()) }
        if x[0] != json!("poll") { continue }
        // what the messages taken so far lead to
        let mut want: Vec<Reply> = vec![];
        let mut s = 0;
        for m in client.taken.lock().unwrap().iter() {
            if s == 4 { break }
            let to = if m[0] == json!("resp") { None } else { lifecycle::allowed(m[0] == json!("req"), m[1].as_str().unwrap(), s) };
            if m[0] == json!("req") { want.push((match &m[3] { Value::String(t) => t.clone(), v => v.to_string() }, lifecycle::code(to, m[4].as_str().unwrap(), s))) }
            if let (Some(t), "good") = (to, m[4].as_str().unwrap_or("")) { s = t }
        }
        // replies, in order; once the client is leaving, the outcome of what needs it is open
        let sure = loose.unwrap_or(usize::MAX);
        for (i, r) in replies.iter().enumerate() {
            let w = want.get(i).ok_or(format!("{at}: the server answers {r:?} to nothing"))?;
            if r.0.trim_matches('"') != w.0 || (i < sure && r.1 != w.1) { return Err(format!("{at}: answer {i} is {r:?}, expected {w:?}")) }
        }
        if !deaf && !canceled && replies.len() != want.len() { return Err(format!("{at}: {} of {} requests are answered", replies.len(), want.len())) }
        if s == 2 && c["folder"] == json!(true) && loose.is_none() {
            if asked.iter().any(|a| a == "p4analyzer/enumerateFolder") != fs.is_none() || (looked.load(Ordering::SeqCst) > 0) != fs.is_some() { return Err(format!("{at}: the files are looked for in the wrong place")) }
        }
        let due = s == 4 || client.gone();
        match ended {
            None if due && !(canceled && s == 4) => return Err(format!("{at}: the server goes on")),
            Some(_) if !due && !canceled => return Err(format!("{at}: the server has ended")),
            Some(ok) if ok == canceled => return Err(format!("{at}: the server has ended {}", if ok { "well" } else { "with an error" })),
            Some(true) if !out.is_closed() || !client.to.is_closed() => return Err(format!("{at}: the server has ended with a channel open")),
            _ => {}
        }
    }
    if ended.is_none() { return Err("the server never ends".into()) }
    Ok(replies.len() > 1)
}
pub fn cases(mut r: Rng) -> Cases {
    let ini = |folder: bool| json!(["req", "initialize", if folder { json!({"capabilities": {"workspace": {"didChangeWatchedFiles": {"dynamicRegistration": true}}}, "workspaceFolders": [{"uri": "file:///w/", "name": "w"}]}) } else { json!({"capabilities": {}}) }, 1, "good"]);
    let at = json!({"textDocument": {"uri": "file:///a.p4"}, "position": {"line": 1, "character": 2}});
    let letters = [json!(["msg", ["note", "initialized", {}, 0, "good"]]), json!(["msg", ["req", "shutdown", null, 2, "good"]]), json!(["msg", ["note", "exit", null, 0, "good"]]), json!(["wake", ["req", "textDocument/hover", at, "h", "good"]]),
        json!(["msg", ["resp", "", null, 9]]), json!(["poll"]), json!(["close"]), json!(["deaf"]), json!(["cancel"]), json!(["wake", "close"])];
    let l2 = letters.clone();
    let small = (0..=4u32).flat_map(move |len| { let letters = letters.clone(); (0..10usize.pow(len)).map(move |mut x| {
        let (fs, folder) = (x % 3 == 0, x % 2 == 0);
        let mut steps = vec![json!(["msg", ini(folder)])];
        for _ in 0..len { steps.push(letters[x % 10].clone()); x /= 10 }
        json!({"fs": fs, "folder": folder, "steps": steps})
    }) });
    let rand = std::iter::repeat_with(move || {
        let folder = r.below(2) == 0;
        let mut s = 0;
        let mut steps = vec![];
        for _ in 0..2 + r.below(20) {
            if r.below(4) == 0 { steps.push(json!(["poll"])) }
            if r.below(30) == 0 { steps.push(l2[5 + r.below(5)].clone()) }
            let x = if s == 0 && r.below(2) == 0 { ini(folder) } else { lifecycle::message(&mut r, Some(s)) };
            let x = if x[1] == json!("initialize") && x[4] == json!("good") { ini(folder) } else { x };
            let wake = r.below(8) == 0;
            if !wake && x[4] == json!("good") { if let Some(t) = lifecycle::allowed(x[0] == json!("req"), x[1].as_str().unwrap(), s) { s = t } }
            steps.push(json!([if wake { "wake" } else { "msg" }, x]));
        }
        json!({"fs": r.below(2) == 0, "folder": folder, "steps": steps})
    });
    Box::new(small.chain(rand))
}
