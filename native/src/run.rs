//! the search/replay loop shared by the two native harnesses
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bool(&mut self) -> bool { self.next() >> 40 & 1 == 1 }
}
pub type Cases = Box<dyn Iterator<Item = Value>>;
pub struct Prop {
    /// cases to try, smallest first; ends (exhaustive part) or goes on for ever (random part)
    pub cases: fn(Rng) -> Cases,
    /// Ok(nontrivial?) or Err(what is wrong)
    pub check: fn(&Value) -> Result<bool, String>,
    /// the code under test may overflow the stack or loop: write every case down before running it
    pub durable: bool,
    pub rule: &'static str,
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}
fn run_one(p: &Prop, c: &Value) -> Result<bool, String> {
    match guarded(|| (p.check)(c)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}
pub fn run(prop: fn(&str) -> Option<Prop>) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let p = match prop(&a[2]) { Some(p) => p, None => std::process::exit(2) };
    if a[1] == "replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
        let c = v.get("case").unwrap_or(&v).clone();
        let limit = 20;
        std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(limit)); println!("FAILS: does not return within {limit} s"); std::process::exit(1) });
        match run_one(&p, &c) {
            Ok(_) => println!("holds"),
            Err(e) => { println!("FAILS: {e}\ncase: {c}"); std::process::exit(1) }
        }
        return;
    }
    let seed: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let out = a[5].clone();
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567);
    for _ in 0..4 { rng.next(); }
    let t0 = Instant::now();
    let cur: Arc<Mutex<(u64, Value, Instant)>> = Arc::new(Mutex::new((0, Value::Null, Instant::now())));
    {
        // watchdog: a case that does not return is a failing case
        let cur = cur.clone();
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = cur.lock().unwrap();
            if g.1 != Value::Null && g.2.elapsed() > Duration::from_secs(15) {
                std::fs::write(&out, json!({"case": g.1, "why": "does not return within 15 s"}).to_string()).unwrap();
                std::process::exit(1);
            }
        });
    }
    let curfile = format!("{out}.current");
    let (mut n, mut nontriv) = (0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut exhausted = true;
    for c in (p.cases)(rng) {
        if t0.elapsed().as_secs_f64() > secs { exhausted = false; break }
        n += 1;
        if p.durable {
            let mut f = std::fs::File::create(&curfile).unwrap();
            f.write_all(c.to_string().as_bytes()).unwrap();
        }
        { let mut g = cur.lock().unwrap(); *g = (n, c.clone(), Instant::now()); }
        let r = run_one(&p, &c);
        match r {
            Ok(nt) => {
                if nt && seen.len() < 3_000_000 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    c.to_string().hash(&mut h);
                    if seen.insert(h.finish()) { nontriv += 1; if samples.len() < 3 && (n % 97 == 3 || n > 5000) { samples.push(c.clone()) } }
                }
            }
            Err(e) => {
                std::fs::write(&out, json!({"case": c, "why": e}).to_string()).unwrap();
                println!("{}", json!({"evaluations": n, "failing": true}));
                std::process::exit(1)
            }
        }
        { let mut g = cur.lock().unwrap(); g.1 = Value::Null; }
    }
    let _ = std::fs::remove_file(&curfile);
    println!("{}", json!({"evaluations": n, "distinct_nontrivial": nontriv, "rule": p.rule, "samples": samples, "exhausted": exhausted}));
}
