//! C12: AsyncPool. A case is a set of scripted pieces of work that run on a pool of a fresh thread.
use crate::{Cases, Rng};
use analyzer_abstractions::futures::executor::block_on;
use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use cancellation::CancellationTokenSource;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

#[derive(Default)]
struct Log {
    open: AtomicUsize,
    polls: AtomicUsize,
    bad: Mutex<Option<String>>,
    held: Mutex<Vec<Waker>>,
    canceled: AtomicBool,
    stopped: AtomicBool,
    queued: AtomicUsize,
    waiting: AtomicUsize,
    asleep: Mutex<Vec<Waker>>,
    threads: Mutex<Vec<std::thread::JoinHandle<()>>>,
    waking: AtomicBool,
}
impl Log { fn bad(&self, s: String) { self.bad.lock().unwrap().get_or_insert(s); } }
struct Work { n: usize, steps: Vec<String>, at: usize, done: bool, log: Arc<Log>, src: Arc<CancellationTokenSource>, seen: bool }
fn spawn(n: usize, steps: Vec<String>, log: &Arc<Log>, src: &Arc<CancellationTokenSource>) {
    if !log.stopped.load(SeqCst) { log.open.fetch_add(1, SeqCst); log.queued.fetch_add(1, SeqCst); }
    AsyncPool::spawn_work(Work { n, steps, at: 0, done: false, log: log.clone(), src: src.clone(), seen: false });
}
impl Drop for Work {
    fn drop(&mut self) { if self.log.waking.load(SeqCst) && !self.done { self.log.bad(format!("work {} is dropped by whom wakes it", self.n)) } }
}
impl Future for Work {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let log = self.log.clone();
        log.polls.fetch_add(1, SeqCst);
        if self.done { log.bad(format!("work {} is polled after it completed", self.n)) }
        if log.canceled.load(SeqCst) { log.bad(format!("work {} is polled after the pool was cancelled", self.n)) }
        if !self.seen { self.seen = true; log.queued.fetch_sub(1, SeqCst); }
        if self.at >= self.steps.len() {
            self.done = true;
            let wakers: Vec<Waker> = log.held.lock().unwrap().drain(..).collect();
            for w in wakers { w.wake() }
            let wakers: Vec<Waker> = log.asleep.lock().unwrap().drain(..).collect();
            for w in wakers { log.waiting.fetch_sub(1, SeqCst); w.wake_by_ref() }
            log.held.lock().unwrap().push(cx.waker().clone()); // to be woken when it has completed
            if log.open.fetch_sub(1, SeqCst) == 1 { log.stopped.store(true, SeqCst); AsyncPool::stop() }
            return Poll::Ready(());
        }
        let step = self.steps[self.at].clone();
        self.at += 1;
        match step.as_str() {
            "self" => cx.waker().wake_by_ref(),
            "twice" => { cx.waker().wake_by_ref(); cx.waker().clone().wake() }
            "thread" => { let w = cx.waker().clone(); let d = (self.n * 37 + self.at * 11) % 200; log.threads.lock().unwrap().push(std::thread::spawn(move || { for _ in 0..d * 20 { std::hint::spin_loop() } w.wake() })) }
            "during" => { let w = cx.waker().clone(); let _ = std::thread::spawn(move || w.wake()).join(); }
            "hold" => { if log.open.load(SeqCst) > 1 { log.held.lock().unwrap().push(cx.waker().clone()) } ; cx.waker().wake_by_ref() }
            // woken only by another piece of work that completes
            "wait" => { if log.open.load(SeqCst) > log.waiting.load(SeqCst) + 1 { log.waiting.fetch_add(1, SeqCst); log.asleep.lock().unwrap().push(cx.waker().clone()) } else { cx.waker().wake_by_ref() } }
            "spawn" => { spawn(self.n * 10 + self.at, vec!["self".into()], &log, &self.src); cx.waker().wake_by_ref() }
            "spawned" => { spawn(self.n * 10 + self.at, vec![], &log, &self.src); cx.waker().wake_by_ref() }
            "stop" => { log.stopped.store(true, SeqCst); AsyncPool::stop(); cx.waker().wake_by_ref() }
            "cancel" => { self.src.cancel(); log.canceled.store(true, SeqCst); cx.waker().wake_by_ref() }
            _ => cx.waker().wake_by_ref(),
        }
        Poll::Pending
    }
}
pub fn cases(mut r: Rng) -> Cases {
    const S: &[&str] = &["self", "twice", "thread", "during", "hold", "wait", "spawn", "spawned", "stop", "cancel"];
    let mut small = vec![];
    for k in 0..48u64 { small.push(json!({"idle": true, "stop": k & 1 == 1, "cancel": k & 2 == 2, "cancel_first": k & 4 == 4, "work": k >> 3})) }
    for a in S { small.push(json!({"works": [[a]], "late": true})); for b in S { small.push(json!({"works": [[a, b]], "late": true})); small.push(json!({"works": [[a], [b]], "late": true})); small.push(json!({"works": [[], [a, b], ["self", "thread"]], "late": true})); } }
    Box::new(small.into_iter().chain((0..).map(move |_| {
        let ends = r.below(4);
        let works: Vec<Vec<&str>> = (0..1 + r.below(6)).map(|_| (0..r.below(5)).map(|_| match r.below(12) { 0 if ends == 0 => "stop", 1 if ends == 1 => "cancel", _ => S[r.below(8)] }).collect()).collect();
        json!({"works": works, "late": r.bool(), "precancel": r.below(40) == 0})
    })))
}
/// a pool that waits with nothing to do is stopped or cancelled or both; driven by hand
fn idle(c: &Value) -> Result<bool, String> {
    let (stop, cancel, work) = (c["stop"] == json!(true), c["cancel"] == json!(true), c["work"].as_u64().unwrap_or(0));
    let first = c["cancel_first"] == json!(true);
    let h = std::thread::spawn(move || crate::guarded(|| {
        let src = CancellationTokenSource::new();
        let n = Arc::new(AtomicUsize::new(0));
        let mut f = Box::pin(AsyncPool::start(src.token().clone()));
        let w = analyzer_abstractions::futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        if f.as_mut().poll(&mut cx).is_ready() { return Err("a pool that nobody stops ends".to_string()) }
        if cancel && first { src.cancel() }
        for _ in 0..work { let n = n.clone(); AsyncPool::spawn_work(async move { n.fetch_add(1, SeqCst); }) }
        if stop { AsyncPool::stop() }
        if cancel && !first { src.cancel() }
        match f.as_mut().poll(&mut cx) {
            Poll::Pending => if stop { Err("a stopped pool still waits".to_string()) } else if cancel && work > 0 { Err("a cancelled pool that was woken still waits".to_string()) } else if n.load(SeqCst) as u64 != work { Err("queued work has not been polled".to_string()) } else { Ok(true) },
            Poll::Ready(r) => match r {
                Ok(()) if cancel => Err("a cancelled pool ends as if it had been stopped".to_string()),
                Err(_) if !cancel => Err("a pool that nobody cancelled ends as cancelled".to_string()),
                Ok(()) if !stop => Err("a pool that nobody stopped ends".to_string()),
                Ok(()) if n.load(SeqCst) as u64 != work => Err("queued work has not been polled".to_string()),
                _ if cancel && n.load(SeqCst) > 1 => Err("work is polled after the pool has seen that it is cancelled".to_string()),
                _ => Ok(true),
            },
        }
    }));
    h.join().map_err(|_| "panic".to_string())??
}
pub fn check(c: &Value) -> Result<bool, String> {
    if c["idle"] == json!(true) { return idle(c) }
    let works: Vec<Vec<String>> = c["works"].as_array().cloned().unwrap_or_default().iter().map(|w| w.as_array().cloned().unwrap_or_default().iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).collect();
    let late = c["late"] == json!(true);
    let pre = c["precancel"] == json!(true);
    let steps = works.iter().map(|w| w.len()).sum::<usize>();
    let stops = works.iter().any(|w| w.iter().any(|s| s == "stop"));
    let log = Arc::new(Log::default());
    let (tx, rx) = mpsc::channel();
    let l2 = log.clone();
    let h = std::thread::spawn(move || {
        let log = l2;
        let src = Arc::new(CancellationTokenSource::new());
        if pre { src.cancel(); log.canceled.store(true, SeqCst) }
        log.open.fetch_add(1, SeqCst); // nothing stops the pool before everything is spawned
        for (i, w) in works.iter().enumerate() { spawn(i + 1, w.clone(), &log, &src) }
        if log.open.fetch_sub(1, SeqCst) == 1 { AsyncPool::stop() }
        let r = crate::guarded(|| block_on(AsyncPool::start(src.token().clone())).is_ok());
        // waking and spawning when the pool has stopped
        let r = r.and_then(|ok| crate::guarded(|| {
            if late && log.stopped.load(SeqCst) {
                let ws: Vec<Waker> = log.held.lock().unwrap().drain(..).collect();
                let asleep: Vec<Waker> = log.asleep.lock().unwrap().drain(..).collect();
                // who wakes may hold locks that work takes when it is dropped
                log.waking.store(true, SeqCst);
                for w in ws.into_iter().chain(asleep) { w.wake() }
                log.waking.store(false, SeqCst);
                AsyncPool::spawn_work(async {});
                AsyncPool::stop();
            }
            ok
        }));
        let ts: Vec<_> = log.threads.lock().unwrap().drain(..).collect();
        let mut panicked = false;
        for t in ts { panicked |= t.join().is_err() }
        let _ = tx.send(if panicked { Err("a thread that wakes panics".into()) } else { r });
    });
    let r = match rx.recv_timeout(Duration::from_secs(4)) { Ok(r) => r, Err(_) => return Err(format!("work that has been woken is not polled: the pool waits for ever, {} pieces of work are left", log.open.load(SeqCst))) };
    let _ = h.join();
    if let Some(b) = log.bad.lock().unwrap().clone() { return Err(b) }
    let ok = r?;
    if log.canceled.load(SeqCst) {
        return if ok { Err("a cancelled pool ends as if it had been stopped".into()) } else { Ok(true) };
    }
    if !ok { return Err("a stopped pool ends as if it had been cancelled".into()) }
    if log.queued.load(SeqCst) != 0 { return Err("work that was in the queue when the pool was stopped has not been polled".into()) }
    if !stops && log.open.load(SeqCst) != 0 { return Err("the pool ended before the work was complete".into()) }
    if !stops && log.polls.load(SeqCst) < steps { return Err("too few polls".into()) }
    Ok(steps > 1)
}
