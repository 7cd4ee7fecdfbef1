//! C07, C08: FutureCompletionSource under real threads. A case is a set-up that is run for many rounds.
use crate::{Cases, Rng};
use analyzer_abstractions::futures_extensions::FutureCompletionSource;
use serde_json::{json, Value};
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// a value that counts how often it has been cloned since it was made
#[derive(Debug)] struct V(String, u32);
impl Clone for V { fn clone(&self) -> V { V(self.0.clone(), self.1 + 1) } }
impl PartialEq for V { fn eq(&self, o: &V) -> bool { self.0 == o.0 } }
type Src = FutureCompletionSource<V, u32>;
type Res = Result<V, u32>;
struct Flag(AtomicBool, AtomicUsize);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.1.fetch_add(1, SeqCst); self.0.store(true, SeqCst) } }
fn flag() -> (Arc<Flag>, Waker) { let f = Arc::new(Flag(AtomicBool::new(false), AtomicUsize::new(0))); (f.clone(), f.into()) }
fn spin(n: usize) { for _ in 0..n { std::hint::spin_loop() } }
fn u(v: &Value) -> usize { v.as_u64().unwrap_or(0) as usize }
fn val(i: usize) -> Res { if i % 3 == 2 { Err(i as u32) } else { Ok(V(format!("v{i}"), 0)) } }
fn set(s: &Src, i: usize) -> bool { match val(i) { Ok(v) => s.set_value(v), Err(e) => s.set_err(e) }.is_ok() }
fn now(s: &Src) -> Option<Res> { match s.state() { Poll::Ready(r) => Some(r), Poll::Pending => None } }

/// looking at a complete source does not change what is stored
fn same(s: &Src) -> Result<(), String> {
    let g = || match now(s) { Some(Ok(v)) => v.1, _ => 0 };
    let (a, b, c) = (g(), g(), g());
    if a != b || b != c { return Err(format!("the stored value is replaced when it is looked at: clones of generation {a}, {b}, {c}")) }
    Ok(())
}
/// setters race; readers watch
fn once_round(setters: usize, readers: usize, d: &[usize]) -> Result<bool, String> {
    let s = Src::new();
    if now(&s).is_some() { return Err("a new source is complete".into()) }
    let gate = AtomicUsize::new(0);
    let n = setters + readers;
    let oks: Mutex<Vec<usize>> = Mutex::new(vec![]);
    let seen: Mutex<Vec<Res>> = Mutex::new(vec![]);
    let over = AtomicUsize::new(0);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|t| {
        for i in 0..setters {
            let (s, gate, oks, seen, over, bad, d) = (s.clone(), &gate, &oks, &seen, &over, &bad, d[i % d.len()]);
            t.spawn(move || {
                gate.fetch_add(1, SeqCst);
                while gate.load(SeqCst) < n { std::hint::spin_loop() }
                spin(d);
                let before = now(&s);
                let ok = set(&s, i);
                match now(&s) {
                    None if ok => *bad.lock().unwrap() = Some("not complete after a set that succeeded".into()),
                    Some(x) => seen.lock().unwrap().push(x),
                    None => {}
                }
                if ok && before.is_some() { *bad.lock().unwrap() = Some("a set succeeded on a source that was complete".into()) }
                if ok { oks.lock().unwrap().push(i) }
                over.fetch_add(1, SeqCst);
            });
        }
        for _ in 0..readers {
            let (s, gate, seen, over) = (s.clone(), &gate, &seen, &over);
            t.spawn(move || {
                gate.fetch_add(1, SeqCst);
                while gate.load(SeqCst) < n { std::hint::spin_loop() }
                let mut l = vec![];
                loop {
                    let o = over.load(SeqCst) == setters;
                    if let Some(x) = now(&s) { if l.last() != Some(&x) { l.push(x) } }
                    if o { break }
                }
                seen.lock().unwrap().extend(l);
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() { return Err(b) }
    let oks = oks.into_inner().unwrap();
    if oks.len() != 1 { return Err(format!("{} of {setters} sets succeeded: {oks:?}", oks.len())) }
    let want = val(oks[0]);
    for x in seen.into_inner().unwrap() { if x != want { return Err(format!("observed {x:?} but the set that succeeded was {want:?}")) } }
    if set(&s, 7) || set(&s, 8) { return Err("a set succeeded on a complete source".into()) }
    if now(&s) != Some(want.clone()) { return Err(format!("state {:?} after everything, expected {want:?}", now(&s))) }
    same(&s)?;
    let (_, w) = flag();
    let mut f = Box::pin(s.future());
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(r) if r == want => {} r => return Err(format!("future of a complete source gives {r:?}, expected {want:?}")) }
    Ok(setters > 1)
}
fn with_value_round(i: usize) -> Result<bool, String> {
    let s = Src::new_with_value(V(format!("w{i}"), 0));
    let want = Ok(V(format!("w{i}"), 0));
    same(&s)?;
    if now(&s) != Some(want.clone()) { return Err(format!("state of a source built with a value: {:?}", now(&s))) }
    if set(&s, i) || set(&s.clone(), i + 1) { return Err("a set succeeded on a source built with a value".into()) }
    let (_, w) = flag();
    let mut f = Box::pin(s.future());
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(r) if r == want => Ok(false), r => Err(format!("future of a source built with a value gives {r:?}")) }
}
/// waiters start waiting while the source is completed
fn wake_round(waiters: usize, pre: usize, dropped: usize, mode: usize, which: usize, d: &[usize]) -> Result<bool, String> {
    let s = Src::new();
    let want = val(which);
    // futures already waiting
    let mut early: Vec<(Arc<Flag>, Waker, std::pin::Pin<Box<dyn Future<Output = Res> + '_>>)> = vec![];
    for i in 0..pre + dropped {
        let (f, w) = flag();
        let own = match mode { 0 => false, 1 => true, _ => i % 2 == 0 };
        let (c, b) = (s.clone(), &s);
        let mut fut: std::pin::Pin<Box<dyn Future<Output = Res> + '_>> = if own { Box::pin(async move { c.future().await }) } else { drop(c); Box::pin(b.future()) };
        if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(&w)) { return Err(format!("ready before any set: {r:?}")) }
        early.push((f, w, fut));
    }
    for k in 0..dropped { let i = (which + k) % early.len(); drop(early.remove(i)); }
    let gate = AtomicUsize::new(0);
    let n = waiters + 1;
    let done = AtomicBool::new(false);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|t| {
        for k in 0..waiters {
            let (s, gate, done, bad, d, want) = (s.clone(), &gate, &done, &bad, d[(k + 1) % d.len()], &want);
            t.spawn(move || {
                let (f, w) = flag();
                let mut fut = Box::pin(s.future());
                gate.fetch_add(1, SeqCst);
                while gate.load(SeqCst) < n { std::hint::spin_loop() }
                spin(d);
                loop {
                    f.0.store(false, SeqCst);
                    match fut.as_mut().poll(&mut Context::from_waker(&w)) {
                        Poll::Ready(r) => { if r != *want { *bad.lock().unwrap() = Some(format!("a waiter got {r:?}, expected {want:?}")) } break }
                        Poll::Pending => {}
                    }
                    while !f.0.load(SeqCst) {
                        if done.load(SeqCst) && !f.0.load(SeqCst) {
                            *bad.lock().unwrap() = Some("the source was completed while a waiter started to wait, and the waiter is never woken".into());
                            return;
                        }
                        std::hint::spin_loop();
                    }
                }
            });
        }
        let (s, gate, done, d) = (s.clone(), &gate, &done, d[0]);
        t.spawn(move || {
            gate.fetch_add(1, SeqCst);
            while gate.load(SeqCst) < n { std::hint::spin_loop() }
            spin(d);
            set(&s, which);
            done.store(true, SeqCst);
        });
    });
    if let Some(b) = bad.into_inner().unwrap() { return Err(b) }
    let k = early.len();
    for (i, (f, w, fut)) in early.iter_mut().enumerate() {
        if !f.0.load(SeqCst) { return Err(format!("waiter {i} of {k} that were waiting is not woken by the completion")) }
        match fut.as_mut().poll(&mut Context::from_waker(w)) {
            Poll::Ready(r) if r == want => {}
            r => return Err(format!("waiter {i} of {k} gets {r:?} after it was woken, expected {want:?}")),
        }
    }
    Ok(waiters > 0)
}
fn delays(r: &mut Rng) -> Vec<usize> { let m = *r.pick(&[1, 20, 60, 200]); (0..5).map(|_| r.below(m)).collect() }
fn rounds(c: &Value, f: impl Fn(&mut Rng, usize) -> Result<bool, String>) -> Result<bool, String> {
    let mut r = Rng(c["seed"].as_u64().unwrap_or(1) | 1);
    let mut nt = false;
    for k in 0..u(&c["rounds"]) { nt |= crate::guarded(|| f(&mut r, k)).and_then(|x| x).map_err(|e| format!("round {k}: {e}"))?; }
    Ok(nt)
}
pub fn once_check(c: &Value) -> Result<bool, String> {
    rounds(c, |r, k| { if k % 16 == 0 { with_value_round(k)?; } let d = delays(r); once_round(u(&c["setters"]), u(&c["readers"]), &d) })
}
pub fn wake_check(c: &Value) -> Result<bool, String> {
    rounds(c, |r, k| { let d = delays(r); wake_round(u(&c["waiters"]), u(&c["pre"]), u(&c["dropped"]), k / 6 % 3, k % 6, &d) })
}
pub fn once_cases(mut r: Rng) -> Cases {
    let small = vec![(1, 0, 20), (1, 1, 50), (2, 0, 300), (2, 1, 300), (3, 2, 300)].into_iter().map(|(s, rd, n)| json!({"setters": s, "readers": rd, "rounds": n, "seed": 1}));
    let rnd = std::iter::from_fn(move || { let s = 2 + r.below(2); let rd = r.below(3); Some(json!({"setters": s, "readers": rd, "rounds": 300, "seed": r.next() >> 12})) });
    Box::new(small.chain(rnd))
}
pub fn wake_cases(mut r: Rng) -> Cases {
    let mut small = vec![];
    for pre in [0, 1, 2, 3, 4, 8, 70, 300] { for dropped in 0..3 { small.push(json!({"waiters": 0, "pre": pre, "dropped": dropped, "rounds": 18, "seed": 1})) } }
    let rnd = std::iter::from_fn(move || { let w = 1 + r.below(2); let p = if r.below(6) == 0 { r.below(40) } else { r.below(3) }; let d = r.below(2); Some(json!({"waiters": w, "pre": p, "dropped": d, "rounds": 400, "seed": r.next() >> 12})) });
    Box::new(small.into_iter().chain(rnd))
}
