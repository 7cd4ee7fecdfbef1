//! C04-C06: the grammar engine. Oracle: a direct interpreter of parsing expression grammars without any memo.
use crate::{Cases, Rng};
use analyzer_core::parser::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

const NAMES: [&str; 7] = ["start", "a", "b", "c", "d", "e", "zz"];
fn name(v: &Value) -> &'static str {
    let s = v.as_str().unwrap_or("zz");
    NAMES.iter().find(|x| **x == s).copied().unwrap_or_else(|| Box::leak(s.to_string().into_boxed_str()))
}
type G = BTreeMap<&'static str, Rule<char>>;
fn rule(v: &Value) -> Rule<char> {
    let names = |x: &Value| x.as_array().unwrap().iter().map(name).collect::<Vec<_>>();
    if let Some(t) = v.get("t") { Rule::Terminal(Rc::new(t.as_str().unwrap().chars().collect())) }
    else if let Some(x) = v.get("c") { Rule::Choice(names(x)) }
    else if let Some(x) = v.get("s") { Rule::Sequence(names(x)) }
    else if let Some(x) = v.get("r") { Rule::Repetition(name(x)) }
    else { Rule::Not(name(&v["n"])) }
}
fn grammar(v: &Value) -> G { v.as_object().unwrap().iter().map(|(k, r)| (name(&json!(k)), rule(r))).collect() }
fn refs(r: &Rule<char>) -> Vec<&'static str> {
    match r { Rule::Terminal(_) => vec![], Rule::Choice(x) | Rule::Sequence(x) => x.clone(), Rule::Repetition(x) | Rule::Not(x) => vec![*x] }
}
/// defined references, no left recursion, no repetition of a rule that can match nothing
pub fn well_formed(g: &G) -> bool {
    if !g.contains_key("start") || g.values().any(|r| refs(r).iter().any(|n| !g.contains_key(n))) { return false }
    let mut nullable: HashMap<&str, bool> = g.keys().map(|k| (*k, false)).collect();
    loop {
        let mut ch = false;
        for (k, r) in g {
            let n = match r {
                Rule::Terminal(t) => t.is_empty(),
                Rule::Choice(x) => x.iter().any(|y| nullable[y]),
                Rule::Sequence(x) => x.iter().all(|y| nullable[y]),
                Rule::Repetition(_) | Rule::Not(_) => true,
            };
            if n && !nullable[k] { nullable.insert(k, true); ch = true }
        }
        if !ch { break }
    }
    if g.values().any(|r| matches!(r, Rule::Repetition(x) if nullable[x])) { return false }
    let left = |k: &str| -> Vec<&'static str> {
        match &g[k] {
            Rule::Sequence(x) => { let mut v = vec![]; for y in x { v.push(*y); if !nullable[y] { break } } v }
            r => refs(r),
        }
    };
    for k in g.keys() {
        let mut seen: Vec<&str> = left(k);
        let mut i = 0;
        while i < seen.len() {
            if seen[i] == *k { return false }
            for y in left(seen[i]) { if !seen.contains(&y) { seen.push(y) } }
            i += 1;
        }
    }
    true
}
struct Budget(u64);
/// None: out of budget; Some(None): no match; Some(Some((cst, end)))
fn eval(g: &G, s: &[char], n: &'static str, p: usize, b: &mut Budget) -> Option<Option<(Rc<Cst<char>>, usize)>> {
    if b.0 == 0 { return None }
    b.0 -= 1;
    Some(match &g[n] {
        Rule::Terminal(t) => if s[p..].starts_with(t) { Some((Rc::new(Cst::Terminal(t.clone())), p + t.len())) } else { None },
        Rule::Choice(x) => {
            let mut r = None;
            for y in x { if let Some((c, e)) = eval(g, s, y, p, b)? { r = Some((Rc::new(Cst::Choice(y, c)), e)); break } }
            r
        }
        Rule::Sequence(x) => {
            let (mut q, mut v) = (p, vec![]);
            for y in x { match eval(g, s, y, q, b)? { Some((c, e)) => { v.push(c); q = e } None => return Some(None) } }
            Some((Rc::new(Cst::Sequence(v)), q))
        }
        Rule::Repetition(y) => {
            let (mut q, mut v) = (p, vec![]);
            while let Some((c, e)) = eval(g, s, y, q, b)? { v.push(c); q = e }
            Some((Rc::new(Cst::Repetition(v)), q))
        }
        Rule::Not(y) => if eval(g, s, y, p, b)?.is_some() { None } else { Some((Rc::new(Cst::Not(y)), p)) },
    })
}
fn make(g: &G, t: &[char]) -> Result<Parser<char>, String> {
    let h: HashMap<&'static str, Rule<char>> = g.iter().map(|(k, v)| (*k, v.clone())).collect();
    let mk = Parser::from_rules(&h).map_err(|e| format!("well-formed grammar rejected: {e}"))?;
    Ok(mk(t.to_vec().into()))
}
fn chars(v: &Value) -> Vec<char> { v.as_str().unwrap_or("").chars().collect() }
fn want(g: &G, s: &[char]) -> Option<Option<Cst<char>>> {
    let r = eval(g, s, "start", 0, &mut Budget(60_000))?;
    Some(r.filter(|(_, e)| *e == s.len()).map(|(c, _)| (*c).clone()))
}
pub fn match_check(c: &Value) -> Result<bool, String> {
    let g = grammar(&c["rules"]);
    if !well_formed(&g) { return Ok(false) }
    let s = chars(&c["text"]);
    let w = match want(&g, &s) { Some(w) => w, None => return Ok(false) };
    let mut p = make(&g, &s)?;
    for k in 0..2 {
        let r = p._match();
        if r != w { return Err(format!("match {k} gives {r:?}, expected {w:?}")) }
    }
    Ok(w.is_some() && s.len() > 1)
}
pub fn edit_check(c: &Value) -> Result<bool, String> {
    let g = grammar(&c["rules"]);
    if !well_formed(&g) { return Ok(false) }
    let mut s = chars(&c["text"]);
    let mut p = make(&g, &s)?;
    let mut nt = false;
    for (k, o) in c["ops"].as_array().unwrap().iter().enumerate() {
        if let Some(e) = o.as_array() {
            let (mut x, mut y) = (e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap() as usize);
            x = x.min(s.len()); y = y.min(s.len()).max(x);
            let t = chars(&e[2]);
            s.splice(x..y, t.iter().cloned());
            p.apply_edit(x..y, &t);
        } else {
            let w = match want(&g, &s) { Some(w) => w, None => return Ok(false) };
            let r = p._match();
            if r != w {
                let f = make(&g, &s)?._match();
                return Err(format!("operation {k}: text {:?} matches as {r:?}, a fresh parser gives {f:?}, expected {w:?}", s.iter().collect::<String>()));
            }
            nt |= k > 0 && w.is_some();
        }
    }
    Ok(nt)
}
pub fn rules_check(c: &Value) -> Result<bool, String> {
    let g = grammar(&c["rules"]);
    let ok = g.contains_key("start") && g.values().all(|r| refs(r).iter().all(|n| g.contains_key(n)));
    let h: HashMap<&'static str, Rule<char>> = g.iter().map(|(k, v)| (*k, v.clone())).collect();
    let got = Parser::from_rules(&h).is_ok();
    if got != ok { return Err(format!("grammar {} but from_rules returned {}", if ok { "is complete" } else { "lacks 'start' or a referenced rule" }, if got { "a parser" } else { "an error" })) }
    if ok && well_formed(&g) { make(&g, &['x'])?._match(); }
    Ok(g.len() > 1)
}
fn rnd_rule(r: &mut Rng, i: usize, n: usize, undef: bool) -> Value {
    // mostly references to later rules, sometimes backwards (recursion)
    let rf = |r: &mut Rng| -> &'static str {
        if undef && r.below(12) == 0 { return NAMES[r.below(NAMES.len())] }
        if i + 1 < n && r.below(6) != 0 { NAMES[i + 1 + r.below(n - i - 1)] } else { NAMES[r.below(n)] }
    };
    if (i + 1 == n && !undef) || (undef && i == 0 && r.below(3) == 0) { return json!({"t": *r.pick(&["x", "y", "xy", "", "xx", "xyx", "z"])}) }
    match r.below(if i == 0 { 7 } else { 9 }) {
        0 | 1 => { let k = 1 + r.below(4); json!({"c": (0..k).map(|_| rf(r)).collect::<Vec<_>>()}) }
        2 | 3 | 4 => { let k = 1 + r.below(4); json!({"s": (0..k).map(|_| rf(r)).collect::<Vec<_>>()}) }
        5 => json!({"r": rf(r)}),
        6 => json!({"n": rf(r)}),
        _ => json!({"t": *r.pick(&["x", "y", "z", "xy", "yx", "xz", "xyz", ""])}),
    }
}
fn rnd_grammar(r: &mut Rng) -> Value {
    for _ in 0..200 {
        let n = 2 + r.below(5);
        let g: serde_json::Map<String, Value> = (0..n).map(|i| (NAMES[i].to_string(), rnd_rule(r, i, n, false))).collect();
        let g = Value::Object(g);
        if well_formed(&grammar(&g)) { return g }
    }
    json!({"start": {"t": "x"}})
}
fn fixed() -> Vec<Value> {
    vec![
        json!({"start": {"t": "xy"}}),
        json!({"start": {"t": ""}}),
        json!({"start": {"s": ["a", "b"]}, "a": {"t": ""}, "b": {"t": "x"}}),
        json!({"start": {"s": ["b", "a"]}, "a": {"t": ""}, "b": {"t": "x"}}),
        json!({"start": {"s": ["a", "b"]}, "a": {"r": "c"}, "b": {"t": "y"}, "c": {"t": "x"}}),
        json!({"start": {"c": ["a", "b"]}, "a": {"s": ["d", "d", "e"]}, "b": {"s": ["d", "d"]}, "d": {"t": "x"}, "e": {"t": "y"}}),
        json!({"start": {"s": ["a", "b"]}, "a": {"n": "c"}, "b": {"c": ["c", "d"]}, "c": {"t": "xy"}, "d": {"t": "xx"}}),
        json!({"start": {"s": ["a", "b"]}, "a": {"r": "d"}, "b": {"n": "c"}, "c": {"t": "y"}, "d": {"t": "x"}}),
        json!({"start": {"r": "a"}, "a": {"c": ["b", "c"]}, "b": {"s": ["d", "e"]}, "c": {"s": ["e", "d"]}, "d": {"t": "x"}, "e": {"t": "y"}}),
        json!({"start": {"c": ["a", "b"]}, "a": {"s": ["d", "start"]}, "b": {"s": ["d"]}, "d": {"t": "x"}}),
    ]
}
/// a text the rule probably matches
fn derive(g: &G, n: &'static str, r: &mut Rng, depth: usize, out: &mut String) {
    if depth == 0 || out.len() > 12 { return }
    match &g[n] {
        Rule::Terminal(t) => out.extend(t.iter()),
        Rule::Choice(x) => if !x.is_empty() { derive(g, x[r.below(x.len())], r, depth - 1, out) },
        Rule::Sequence(x) => for y in x { derive(g, y, r, depth - 1, out) },
        Rule::Repetition(y) => for _ in 0..r.below(4) { derive(g, y, r, depth - 1, out) },
        Rule::Not(_) => {}
    }
}
fn text_for(g: &Value, r: &mut Rng) -> String {
    if r.below(4) == 0 { return rnd_text(r, 8) }
    let g = grammar(g);
    let mut s = String::new();
    derive(&g, "start", r, 12, &mut s);
    s.truncate(12);
    s
}
const T: &[char] = &['x', 'y'];
const T3: &[char] = &['x', 'y', 'x', 'y', 'z'];
fn rnd_text(r: &mut Rng, max: usize) -> String { let n = r.below(max + 1); (0..n).map(|_| *r.pick(T3)).collect() }
pub fn match_cases(mut r: Rng) -> Cases {
    let texts = crate::lsp::strings(T, 4);
    let mut small = vec![];
    for g in fixed() { for t in &texts { small.push(json!({"rules": g, "text": t})) } }
    let rnd = std::iter::from_fn(move || { let g = rnd_grammar(&mut r); let t = text_for(&g, &mut r); Some(json!({"rules": g, "text": t})) });
    Box::new(small.into_iter().chain(rnd))
}
pub fn edit_cases(mut r: Rng) -> Cases {
    let texts = crate::lsp::strings(T, 3);
    let adds = crate::lsp::strings(T, 1);
    let mut small = vec![];
    for g in fixed() { for t in &texts { for a in &adds { for x in 0..=t.len() { for y in x..=t.len() {
        for ops in [json!(["m", [x, y, a], "m"]), json!([[x, y, a], "m"])] { small.push(json!({"rules": g, "text": t, "ops": ops})) }
    }}}}}
    let rnd = std::iter::from_fn(move || {
        let g = rnd_grammar(&mut r);
        let t = text_for(&g, &mut r);
        let mut n = t.len();
        let mut cur = t.clone();
        let mut ops = vec![];
        for _ in 0..1 + r.below(6) {
            if r.below(3) == 0 {
                // an edit that turns the text into another one of the grammar
                let w = text_for(&g, &mut r);
                let mut x = 0;
                while x < w.len().min(cur.len()) && w.as_bytes()[x] == cur.as_bytes()[x] { x += 1 }
                let mut k = 0;
                while k < w.len().min(cur.len()) - x && w.as_bytes()[w.len() - 1 - k] == cur.as_bytes()[cur.len() - 1 - k] { k += 1 }
                if r.below(3) != 0 { ops.push(json!("m")) }
                ops.push(json!([x, cur.len() - k, &w[x..w.len() - k]]));
                n = w.len();
                cur = w;
                continue;
            }
            if r.below(3) != 0 { ops.push(json!("m")) }
            let x = r.below(n + 1);
            let y = x + r.below((n - x).min(3) + 1);
            let a = rnd_text(&mut r, 3);
            n = n - (y - x) + a.len();
            cur.replace_range(x..y, &a);
            ops.push(json!([x, y, a]));
        }
        ops.push(json!("m"));
        Some(json!({"rules": g, "text": t, "ops": ops}))
    });
    Box::new(small.into_iter().chain(rnd))
}
pub fn rules_cases(mut r: Rng) -> Cases {
    let rnd = std::iter::from_fn(move || {
        let n = 1 + r.below(5);
        let skip = if r.below(6) == 0 { r.below(n) } else { n };
        let g: serde_json::Map<String, Value> = (0..n).filter(|i| *i != skip).map(|i| (NAMES[i].to_string(), rnd_rule(&mut r, i, n, true))).collect();
        Some(json!({"rules": g}))
    });
    Box::new(fixed().into_iter().map(|g| json!({"rules": g})).chain(rnd))
}
