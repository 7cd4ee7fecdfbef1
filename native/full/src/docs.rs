//! the documents the server works on (C17): open documents belong to the editor, whatever is loaded meanwhile
use crate::{guarded, lifecycle::ready, Cases, Rng};
use analyzer_abstractions::fs::{AnyEnumerableFileSystem, EnumerableFileSystem};
use analyzer_abstractions::futures::task::noop_waker;
use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use analyzer_abstractions::lsp_types::{TextDocumentIdentifier, Url};
use analyzer_abstractions::BoxFuture;
use analyzer_host::fsm::LspProtocolMachine;
use analyzer_host::json_rpc::message::{Message, Notification, Request, Response};
use analyzer_host::json_rpc::RequestId;
use analyzer_host::lsp::request::RequestManager;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Disk { files: Mutex<BTreeMap<String, String>>, reads: Mutex<Vec<Arc<Mutex<Read>>>> }
struct Read { uri: String, got: Option<Option<String>>, waker: Option<Waker> }
struct ReadFut(Arc<Mutex<Read>>);
impl Future for ReadFut {
    type Output = Option<String>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<String>> {
        let mut r = self.0.lock().unwrap();
        match r.got.clone() { Some(x) => Poll::Ready(x), None => { r.waker = Some(cx.waker().clone()); Poll::Pending } }
    }
}
struct Fs(Arc<Disk>);
/// folders come with or without a slash at the end
fn is_below(u: &str, folder: &str) -> bool { u.starts_with(folder) && (folder.ends_with('/') || u[folder.len()..].starts_with('/')) }
impl EnumerableFileSystem for Fs {
    fn enumerate_folder<'a>(&'a self, u: Url, _: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
        let r = Arc::new(Mutex::new(Read { uri: u.to_string(), got: None, waker: None }));
        self.0.reads.lock().unwrap().push(r.clone());
        Box::pin(async move {
            ReadFut(r).await;
            self.0.files.lock().unwrap().keys().filter(|k| is_below(k, u.as_str())).map(|k| TextDocumentIdentifier { uri: Url::parse(k).unwrap() }).collect()
        })
    }
    fn file_contents<'a>(&'a self, u: Url) -> BoxFuture<'a, Option<String>> {
        let r = Arc::new(Mutex::new(Read { uri: u.to_string(), got: None, waker: None }));
        self.0.reads.lock().unwrap().push(r.clone());
        Box::pin(ReadFut(r))
    }
}
impl Disk {
    /// the i-th read that is under way ends with what is on the disk now
    fn end(&self, i: usize) -> Option<String> {
        let r = { let mut v = self.reads.lock().unwrap(); if v.is_empty() { return None } let n = v.len(); v.remove(i % n) };
        let mut r = r.lock().unwrap();
        r.got = Some(self.files.lock().unwrap().get(&r.uri).cloned());
        if let Some(w) = r.waker.take() { w.wake() }
        Some(r.uri.clone())
    }
    fn pending(&self, uri: &str) -> bool { self.reads.lock().unwrap().iter().any(|r| r.lock().unwrap().uri == uri) }
}
fn edit(t: &str, c: &Value) -> String {
    let new = c["text"].as_str().unwrap();
    if c["range"].is_null() { return new.into() }
    let at = |p: &Value| {
        let (l, ch) = (p["line"].as_u64().unwrap() as usize, p["character"].as_u64().unwrap() as usize);
        let (mut line, mut o) = (0, 0);
        for part in t.split_inclusive('\n') {
            if line == l {
                let body = part.strip_suffix('\n').unwrap_or(part);
                return o + body.char_indices().nth(ch).map_or(body.len(), |x| x.0);
            }
            o += part.len();
            line += 1;
        }
        t.len()
    };
    let (s, e) = (at(&c["range"]["start"]), at(&c["range"]["end"]));
    format!("{}{}{}", &t[..s], new, &t[e..])
}
struct Server { m: LspProtocolMachine, disk: Arc<Disk>, pool: Pin<Box<dyn Future<Output = ()>>>, out: async_channel::Receiver<Message>, back: async_channel::Sender<Message>, man: RequestManager, refuse: bool, order: usize }
impl Server {
    fn poll_pool(&mut self) {
        let w = noop_waker();
        for _ in 0..3 { let _ = self.pool.as_mut().poll(&mut Context::from_waker(&w)); }
    }
    fn send(&mut self, msg: Message) -> Result<bool, String> {
        let disk = self.disk.clone();
        let w = noop_waker();
        let (out, back, man, refuse) = (self.out.clone(), self.back.clone(), self.man.clone(), self.refuse);
        let mut order = self.order;
        let mut f = Box::pin(self.m.process_message(Arc::new(msg)));
        let tok = cancellation::CancellationTokenSource::new();
        let mut responses = Box::pin(man.start(tok.token().clone()));
        for _ in 0..60 {
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return Ok(match x { Ok(Some(Message::Response(r))) => r.error.is_none(), x => x.is_ok() }) }
            for _ in 0..3 { let _ = self.pool.as_mut().poll(&mut Context::from_waker(&w)); }
            disk.end(order % 3);
            order = order / 3;
            while let Ok(q) = out.try_recv() {
                if let Message::Request(q) = q {
                    let error = if refuse && q.method != "client/registerCapability" { Some(analyzer_host::json_rpc::message::ResponseError { code: -32601, message: "no".into(), data: None }) } else { None };
                    let _ = back.try_send(Message::Response(Response { id: q.id, result: if error.is_none() { Some(json!(null)) } else { None }, error }));
                }
            }
            let _ = responses.as_mut().poll(&mut Context::from_waker(&w));
        }
        Err("the message is never done with".into())
    }
}
/// a server that has been initialized
fn server(c: &Value) -> Result<Server, String> {
    let disk = Arc::new(Disk::default());
    let fs: Arc<AnyEnumerableFileSystem> = Arc::new(Box::new(Fs(disk.clone())));
    let (os, out) = async_channel::unbounded();
    let (back, ir) = async_channel::unbounded();
    let man = RequestManager::new((os, ir));
    let tok = cancellation::CancellationTokenSource::new();
    let token = tok.token().clone();
    let mut s = Server { m: LspProtocolMachine::new(None, man.clone(), fs), disk: disk.clone(), pool: Box::pin(async move { let _ = AsyncPool::start(token).await; }), out, back, man, refuse: c["refuse"] == json!(true), order: c["order"].as_u64().unwrap_or(0) as usize };
    for (u, t) in c["disk"].as_object().into_iter().flatten() { disk.files.lock().unwrap().insert(u.clone(), t.as_str().unwrap().into()); }
    let folders = match &c["folders"] { Value::Null => Value::Null, v => v.as_array().unwrap().iter().map(|u| json!({"uri": u, "name": "f"})).collect() };
    let init = |caps: Value| Message::Request(Request { id: RequestId::from(1), method: "initialize".into(), params: json!({"capabilities": caps, "workspaceFolders": folders}) });
    if c["first"] == json!(true) && s.send(init(json!({})))? != folders.is_null() { return Err("initialize without watched files is not refused".into()) }
    if c["first"] != json!(true) || !folders.is_null() {
        if !s.send(init(json!({"workspace": {"didChangeWatchedFiles": {"dynamicRegistration": true}}, "window": {"workDoneProgress": true}})))? { return Err("initialize fails".into()) }
    }
    if !s.send(note("initialized", json!({})))? { return Err("initialized fails".into()) }
    Ok(s)
}
fn note(m: &str, p: Value) -> Message { Message::Notification(Notification { method: m.into(), params: p }) }
/// {folders: null | [uris], first: initialize is refused once before, refuse: the client refuses progress, ops: [[kind, uri, ..]..]}
pub fn check(c: &Value) -> Result<bool, String> {
    let c = c.clone();
    std::thread::spawn(move || guarded(|| run(&c)).map_err(|e| format!("panic: {e}")).and_then(|x| x)).join().unwrap_or_else(|_| Err("panic".into()))
}
fn run(c: &Value) -> Result<bool, String> {
    let mut s = server(c)?;
    let disk = s.disk.clone();
    let mut open: BTreeMap<String, String> = BTreeMap::new();
    let mut hit = false;
    for (n, x) in c["ops"].as_array().unwrap().iter().enumerate() {
        let kind = x[0].as_str().unwrap();
        let uri = x[1].as_str().unwrap_or("").to_string();
        let at = format!("operation {n} {x}");
        let doc = json!({ "uri": uri, "version": 1 });
        let mut seen: Option<Option<String>> = None;
        let mut done = true;
        match kind {
            "open" => { done = s.send(note("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": x[2]}})))?; open.insert(uri.clone(), x[2].as_str().unwrap().into()); if disk.pending(&uri) { hit = true } }
            "change" => {
                let known = open.get_mut(&uri).map(|t| for e in x[2].as_array().unwrap() { *t = edit(t, e) }).is_some();
                if known { done = s.send(note("textDocument/didChange", json!({"textDocument": doc, "contentChanges": x[2]})))? }
            }
            "save" => {
                done = s.send(note("textDocument/didSave", json!({"textDocument": {"uri": uri}, "text": x[2]})))?;
                if let Some(t) = x[2].as_str() { open.insert(uri.clone(), t.into()); }
            }
            "close" => { done = s.send(note("textDocument/didClose", json!({"textDocument": {"uri": uri}})))?; open.remove(&uri); seen = Some(None) }
            "watch" => {
                done = s.send(note("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": uri, "type": x[2]}]})))?;
                if !open.contains_key(&uri) {
                    seen = match x[2].as_i64() { Some(1 | 2) => Some(Some(disk.files.lock().unwrap().get(&uri).cloned().unwrap_or_default())), Some(3) => Some(None), _ => None }
                } else { hit = true }
            }
            "disk" => { match x[2].as_str() { Some(t) => { disk.files.lock().unwrap().insert(uri.clone(), t.into()); } None => { disk.files.lock().unwrap().remove(&uri); } } }
            "end" => { if let Some(u) = disk.end(x[1].as_u64().unwrap() as usize) { if open.contains_key(&u) { hit = true } } }
            "complete" => { s.send(Message::Request(Request { id: RequestId::from(9), method: "textDocument/completion".into(), params: json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}}) }))?; }
            "pool" => s.poll_pool(),
            _ => return Err(format!("bad case {x}")),
        }
        if !done { return Err(format!("{at} fails")) }
        let st = ready(s.m.state.read()).ok_or("the state stays locked")?;
        for (u, t) in &open {
            let a = st.analyzer.unwrap();
            let id = a.file_id(u);
            match a.input(id) { Some(i) if i == t => {} i => return Err(format!("after {at}: {u} is open with the text {t:?}, the analyzer has {i:?}")) }
            let text: String = a.get_file(id).get_file_content().to_string();
            if &text != t { return Err(format!("after {at}: {u}: the file is {text:?}")) }
            drop(a);
            let f = st.workspaces().get_file(Url::parse(u).unwrap());
            if !f.is_open_in_ide() { return Err(format!("after {at}: {u} is not known to be open")) }
            match ready(f.get_parsed_unit()) { Some(Ok(i)) if i == id => {} r => return Err(format!("after {at}: {u} is open, its parsed unit is {}", match r { None => "pending".into(), Some(Ok(_)) => "another one".into(), Some(Err(e)) => format!("{e:?}") })) }
        }
        if let Some(want) = seen {
            let a = st.analyzer.unwrap();
            let got = a.input(a.file_id(&uri)).map(|x| x.to_string());
            if got != want { return Err(format!("after {at}: the analyzer has {got:?}, expected {want:?}")) }
            drop(a);
            if kind == "watch" && want.is_some() {
                let f = st.workspaces().get_file(Url::parse(&uri).unwrap());
                if !matches!(ready(f.get_parsed_unit()), Some(Ok(_))) { return Err(format!("after {at}: {uri} was read, but has no parsed unit")) }
            }
        }
    }
    Ok(hit)
}
const URIS: [&str; 5] = ["file:///w/a.p4", "file:///w/b.p4", "file:///v/c.p4", "untitled:U-1", "file:///w/n/d.p4"];
const TEXTS: [&str; 8] = ["", "x", "#include \"b.p4\"\nint a;\n", "#include \"//[\"\n", "a\nb\r\nc", "é\n\n€", "#include \"nope.p4\"\nq", "#include \"../v/c.p4\"\n#include <a.p4>\n"];
fn text(r: &mut Rng) -> Value { json!(TEXTS[r.below(TEXTS.len())]) }
fn change(r: &mut Rng) -> Value {
    if r.below(4) == 0 { return json!({ "text": text(r) }) }
    let (l, ch) = (r.below(3), r.below(4));
    let (l2, c2) = if r.below(2) == 0 { (l, ch + r.below(3)) } else { (l + 1 + r.below(2), r.below(4)) };
    json!({"range": {"start": {"line": l, "character": ch}, "end": {"line": l2, "character": c2}}, "text": *r.pick(&["", "z", "\n", "é#", "1\n2"])})
}
pub fn cases(mut r: Rng) -> Cases {
    let disk = json!({"file:///w/a.p4": "disk a", "file:///w/b.p4": "disk b", "file:///v/c.p4": "disk c"});
    let (a, b, n) = (URIS[0], URIS[1], "file:///w/none.p4");
    let mut first = vec![];
    // every order of the steps of one document's life against the steps of a load of it
    let steps = |u: &str| vec![json!(["open", u, "mine"]), json!(["end", 0]), json!(["pool"]), json!(["change", u, [{"range": {"start": {"line": 0, "character": 1}, "end": {"line": 0, "character": 2}}, "text": "é"}]]), json!(["close", u]), json!(["watch", u, 2]), json!(["watch", u, 3])];
    for u in [a, n] {
        let ss = steps(u);
        for i in 0..ss.len() * ss.len() * ss.len() * ss.len() {
            let v: Vec<Value> = (0..4).map(|k| ss[i / ss.len().pow(k) % ss.len()].clone()).collect();
            first.push(json!({"folders": null, "disk": disk, "ops": v}));
        }
    }
    for folders in [Value::Null, json!([]), json!(["file:///w/"]), json!(["file:///w"]), json!(["file:///w/", "file:///w/n/", "file:///v/"]), json!(["file:///w", "file:///v", "file:///w/n"])] {
        for f in [false, true] { for refuse in [false, true] { for u in URIS { for t in TEXTS {
            first.push(json!({"folders": folders, "first": f, "refuse": refuse, "disk": disk, "ops": [["pool"], ["open", u, t], ["complete", u], ["pool"], ["end", 0], ["pool"], ["end", 1], ["end", 0], ["pool"], ["complete", b], ["watch", a, 2], ["watch", u, 1], ["save", u, "saved"], ["pool"], ["save", n, "never opened"], ["close", u], ["watch", b, 9], ["complete", u]]}));
        } } } }
    }
    // two workspaces, one including a file of the other, indexed while files are being read
    for order in 0..243 { for ends in 0..8 {
        let e = |k: usize| json!(["end", (ends >> k) & 1]);
        first.push(json!({"folders": ["file:///w/", "file:///v/"], "order": order, "disk": {"file:///w/a.p4": TEXTS[7], "file:///v/c.p4": "#include \"../w/a.p4\"", "file:///w/b.p4": "disk b"},
            "ops": [["open", "file:///v/c.p4", "mine"], ["open", a, "mine"], e(0), ["pool"], e(1), ["pool"], e(2), ["pool"], ["end", 0], ["pool"], ["end", 0], ["pool"]]}));
    } }
    let rand = std::iter::repeat_with(move || {
        let mut ops = vec![];
        let k = 2 + r.below(3);
        for _ in 0..3 + r.below(22) {
            let u = URIS[r.below(k)];
            ops.push(match r.below(12) {
                0 | 1 => json!(["open", u, text(&mut r)]),
                2 => json!(["change", u, [change(&mut r)]]),
                3 => json!(["change", u, [change(&mut r), change(&mut r)]]),
                4 => json!(["close", u]),
                5 => json!(["watch", u, *r.pick(&[1, 2, 2, 3, 7])]),
                6 => json!(["disk", u, if r.below(3) == 0 { Value::Null } else { json!(format!("disk {}", r.below(100))) }]),
                7 => json!(["end", r.below(4)]),
                8 | 9 => json!(["pool"]),
                10 => json!(["save", u, if r.below(2) == 0 { Value::Null } else { text(&mut r) }]),
                _ => json!(["complete", u]),
            })
        }
        let folders = match r.below(3) { 0 => Value::Null, 1 => json!(["file:///w/"]), _ => json!(["file:///w/n/", "file:///w/"]) };
        json!({"folders": folders, "first": r.below(3) == 0, "refuse": r.below(3) == 0, "order": r.below(729), "disk": disk, "ops": ops})
    });
    Box::new(first.into_iter().chain(rand))
}

// ---- C18: the files of the workspaces and the files they include are loaded, and follow the disk ----
fn includes(u: &str, t: &str) -> Vec<String> {
    t.lines().filter_map(|l| {
        let p = l.strip_prefix('#')?.trim_start().strip_prefix("include")?.trim();
        p.strip_prefix('"').and_then(|p| p.strip_suffix('"')).or_else(|| p.strip_prefix('<')?.strip_suffix('>')).map(|p| p.to_string())
    })
        .filter_map(|p| Url::parse(&p).ok().or_else(|| Url::parse(u).unwrap().join(&p).ok())).map(|u| u.to_string()).collect()
}
/// everything that is under way ends
fn drain(s: &mut Server) -> Result<(), String> {
    for n in 0..200 {
        s.poll_pool();
        let o = s.order; s.order = o / 2 + n;
        if s.disk.end(s.order).is_none() && n > 3 { return Ok(()) }
    }
    Err("loading never ends".into())
}
pub fn check18(c: &Value) -> Result<bool, String> {
    let c = c.clone();
    std::thread::spawn(move || guarded(|| run18(&c)).map_err(|e| format!("panic: {e}")).and_then(|x| x)).join().unwrap_or_else(|_| Err("panic".into()))
}
fn run18(c: &Value) -> Result<bool, String> {
    let mut s = server(c)?;
    let disk = s.disk.clone();
    let folders: Vec<String> = c["folders"].as_array().into_iter().flatten().map(|u| u.as_str().unwrap().to_string()).collect();
    // what is said of files: the texts there have to be, and files that are the editor's or were
    let mut known: std::collections::BTreeSet<String> = disk.files.lock().unwrap().keys().filter(|k| folders.iter().any(|f| is_below(k, f))).cloned().collect();
    let mut texts: BTreeMap<String, Option<String>> = BTreeMap::new();
    let mut mine: BTreeMap<String, Option<String>> = BTreeMap::new();
    let mut hit = false;
    for (n, x) in c["ops"].as_array().unwrap().iter().enumerate() {
        let uri = x[1].as_str().unwrap_or("").to_string();
        let at = format!("operation {n} {x}");
        match x[0].as_str().unwrap() {
            "end" => { disk.end(x[1].as_u64().unwrap() as usize); }
            "pool" => s.poll_pool(),
            // the disk changes, and the client says so
            "follow" => {
                drain(&mut s)?;
                let was = disk.files.lock().unwrap().contains_key(&uri);
                match x[2].as_str() { Some(t) => { disk.files.lock().unwrap().insert(uri.clone(), t.into()); } None => { disk.files.lock().unwrap().remove(&uri); } }
                let typ = match (was, x[2].is_null()) { (_, true) => 3, (true, _) => 2, _ => 1 };
                let w = x[3].as_str().unwrap_or(&uri);
                if !s.send(note("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": w, "type": 2}, {"uri": uri, "type": typ}, {"uri": w, "type": 8}]})))? { return Err(format!("{at} fails")) }
                for u in [&uri, &w.to_string()] {
                    if !mine.contains_key(u) { known.insert(u.clone()); texts.insert(u.clone(), if u == &uri && typ == 3 { None } else { Some(disk.files.lock().unwrap().get(u).cloned().unwrap_or_default()) }); }
                }
            }
            "open" => { drain(&mut s)?; s.send(note("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": x[2]}})))?; mine.insert(uri.clone(), Some(x[2].as_str().unwrap().into())); known.remove(&uri); texts.remove(&uri); }
            "complete" => {
                s.send(Message::Request(Request { id: RequestId::from(9), method: "textDocument/completion".into(), params: json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}}) }))?;
                if let Some(Some(t)) = mine.get(&uri) { for u in includes(&uri, t) { if !mine.contains_key(&u) { known.insert(u); } } }
                else { known.insert(uri.clone()); }
            }
            _ => return Err(format!("bad case {x}")),
        }
        if x[0] == "pool" || x[0] == "end" { continue }
        drain(&mut s)?;
        let st = ready(s.m.state.read()).ok_or("the state stays locked")?;
        // files that were loaded (not after a change: nothing loads the includes then) include others
        let mut todo: Vec<String> = known.iter().filter(|u| !texts.contains_key(*u)).cloned().collect();
        while let Some(u) = todo.pop() {
            if mine.contains_key(&u) || texts.contains_key(&u) { continue }
            let t = disk.files.lock().unwrap().get(&u).cloned();
            known.insert(u.clone());
            if let Some(t) = &t { hit = true; todo.extend(includes(&u, t)); }
            let f = st.workspaces().get_file(Url::parse(&u).unwrap());
            let a = st.analyzer.unwrap();
            let id = a.file_id(&u);
            let got = (a.input(id).map(|x| x.to_string()), ready(f.get_parsed_unit()).map(|x| x.map_err(|e| format!("{e:?}")).map(|x| x == id)));
            let want = (t.clone(), Some(if t.is_some() { Ok(true) } else { Err("NotFound".to_string()) }));
            if got != want { return Err(format!("after {at}: {u} is on the disk as {t:?}, but was loaded as {got:?}")) }
            texts.insert(u, t);
        }
        for (u, t) in &texts {
            let f = st.workspaces().get_file(Url::parse(u).unwrap());
            // the file object may only be in one table: that of the folder it is below (below both of nested folders)
            let below = folders.iter().filter(|w| is_below(u, w)).count();
            for (w, folder) in &st.workspaces().workspaces {
                if let Some(g) = folder.files.read().unwrap().get(&Url::parse(u).unwrap()) {
                    if below == 1 && !Arc::ptr_eq(&f, g) { return Err(format!("after {at}: two files for {u}")) }
                    if !folders.is_empty() && !is_below(u, w.as_str()) { return Err(format!("after {at}: {u} is in the folder {w}")) }
                }
            }
            let a = st.analyzer.unwrap();
            let got = a.input(a.file_id(u)).map(|x| x.to_string());
            if &got != t { return Err(format!("after {at}: {u} is on the disk as {t:?}, the analyzer has {got:?}")) }
        }
    }
    Ok(hit)
}
pub fn cases18(mut r: Rng) -> Cases {
    let disk = json!({"file:///w/a.p4": "#include \"b.p4\"\nint a;", "file:///w/b.p4": "#include \"../v/c.p4\"\nb", "file:///v/c.p4": "# include \"none.p4\"\n#\tinclude \"d.p4\"", "file:///v/d.p4": "d", "file:///w/n/e.p4": "#include \"//[\"\n# \tinclude <f..p4>\n", "file:///w/n/f..p4": "f", "file:///w/..g.p4": "g", "file:///wn/h.p4": "h"});
    let all = ["file:///w/a.p4", "file:///w/b.p4", "file:///v/c.p4", "file:///v/d.p4", "file:///w/n/e.p4", "file:///v/none.p4", "untitled:U-1", "file:///w/n/f..p4", "file:///w/..g.p4", "file:///wn/h.p4"];
    let mut first = vec![];
    for folders in [Value::Null, json!([]), json!(["file:///w/"]), json!(["file:///v/", "file:///w/"]), json!(["file:///w/", "file:///w/n/", "file:///v/"]), json!(["file:///w", "file:///v", "file:///w/n"]), json!(["file:///e1/", "file:///v/", "file:///e2", "file:///w"])] {
        for f in [false, true] { for refuse in [false, true] { for order in [0, 1, 5, 77, 300] { for u in all { for w in all {
            first.push(json!({"folders": folders, "first": f, "refuse": refuse, "order": order, "disk": disk, "ops": [["complete", u], ["follow", u, "#include \"x.p4\"\nnew"], ["follow", "file:///v/none.p4", "there now", w], ["follow", u, null, w], ["open", w, "#include \"file:///v/d.p4\"\n"], ["complete", w], ["follow", u, "again", u], ["follow", w, "not seen"]]}));
        } } } } }
    }
    let rand = std::iter::repeat_with(move || {
        let mut ops = vec![];
        for _ in 0..2 + r.below(8) {
            let u = all[r.below(all.len())];
            let t = *r.pick(&["", "x", "#include \"a.p4\"\n", "#include \"c.p4\"\n#include \"n/e.p4\"", "#include \"new.p4\"\r\nz"]);
            ops.push(match r.below(8) {
                0 => json!(["end", r.below(4)]), 1 => json!(["pool"]), 2 => json!(["open", u, t]), 3 => json!(["complete", u]), 4 => json!(["follow", u, null, all[r.below(all.len())]]), _ => json!(["follow", u, t]),
            })
        }
        let folders = match r.below(6) { 0 => Value::Null, 1 => json!(["file:///w/"]), 2 => json!(["file:///v"]), 3 => json!(["file:///wn", "file:///w", "file:///v"]), 4 => json!(["file:///e1/", "file:///e2/", "file:///w/", "file:///e3"]), _ => json!(["file:///w/n/", "file:///w/", "file:///v/"]) };
        json!({"folders": folders, "first": r.below(3) == 0, "refuse": r.below(3) == 0, "order": r.below(729), "disk": disk, "ops": ops})
    });
    Box::new(first.into_iter().chain(rand))
}
