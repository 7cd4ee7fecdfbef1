//! the preprocessor: conditions (C13) and what is kept of a text (C14)
use crate::{guarded, Cases, Rng};
use analyzer_core::base_abstractions::FileId;
use analyzer_core::lexer::Token;
use analyzer_core::preprocessor::{parse_pp_expression, PreprocessorDirective, PreprocessorState};
use analyzer_core::Database;
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};

// ---------- an independent evaluator of conditions: operator precedence parsing over tokens ----------
#[derive(Clone, Debug, PartialEq)]
enum T { Num(i64), Name(String), Op(&'static str) }
const OPS: [&str; 20] = ["<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "|", "^", "&", "+", "-", "*", "/", "%", "<", ">", "(", ")"];
fn prec(o: &str) -> u8 {
    match o { "||" => 1, "&&" => 2, "|" => 3, "^" => 4, "&" => 5, "==" | "!=" => 6, "<" | ">" | "<=" | ">=" => 7, "<<" | ">>" => 8, "+" | "-" => 9, "*" | "/" | "%" => 10, _ => 0 }
}
fn lex(s: &str) -> Option<Vec<T>> {
    let b: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        if b[i].is_whitespace() { i += 1; continue }
        if b[i].is_ascii_digit() {
            let hex = b[i] == '0' && i + 1 < b.len() && (b[i + 1] == 'x' || b[i + 1] == 'X');
            let st = if hex { i + 2 } else { i };
            i = st;
            while i < b.len() && (if hex { b[i].is_ascii_hexdigit() } else { b[i].is_ascii_digit() } || b[i] == '_') { i += 1 }
            let d: String = b[st..i].iter().filter(|c| **c != '_').collect();
            out.push(T::Num(i64::from_str_radix(&d, if hex { 16 } else { 10 }).ok()?));
        } else if b[i].is_ascii_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') { i += 1 }
            out.push(T::Name(b[st..i].iter().collect()));
        } else {
            let rest: String = b[i..].iter().take(2).collect();
            let o = OPS.iter().find(|o| rest.starts_with(**o))?;
            out.push(T::Op(o));
            i += o.len();
        }
    }
    Some(out)
}
type Defs = BTreeMap<String, String>;
struct E<'a> { d: &'a Defs, t: Vec<T>, i: usize, exp: Vec<String> }
impl<'a> E<'a> {
    fn factor(&mut self) -> Result<Option<i64>, ()> {
        let t = self.t.get(self.i).cloned().ok_or(())?;
        self.i += 1;
        match t {
            T::Num(n) => Ok(Some(n)),
            T::Op("(") => { let v = self.expr(1)?; if self.t.get(self.i) != Some(&T::Op(")")) { return Err(()) } self.i += 1; Ok(v) }
            T::Op(_) => Err(()),
            T::Name(n) if n == "defined" => {
                let p = self.t.get(self.i) == Some(&T::Op("("));
                if p { self.i += 1 }
                let n = match self.t.get(self.i) { Some(T::Name(n)) => n.clone(), _ => return Err(()) };
                self.i += 1;
                if p { if self.t.get(self.i) != Some(&T::Op(")")) { return Err(()) } self.i += 1 }
                Ok(Some(self.d.contains_key(&n) as i64))
            }
            T::Name(n) => {
                if self.exp.contains(&n) { return Ok(None) }
                let txt = match self.d.get(&n) { Some(t) => t, None => return Ok(None) };
                let mut exp = self.exp.clone();
                exp.push(n);
                Ok(eval(self.d, txt, exp))
            }
        }
    }
    fn expr(&mut self, min: u8) -> Result<Option<i64>, ()> {
        let mut l = self.factor()?;
        while let Some(T::Op(o)) = self.t.get(self.i).cloned() {
            let p = prec(o);
            if p == 0 || p < min { break }
            self.i += 1;
            let r = self.expr(p + 1)?;
            l = match (l, r) { (Some(l), Some(r)) => op(o, l, r), _ => None };
        }
        Ok(l)
    }
}
fn op(o: &str, a: i64, b: i64) -> Option<i64> {
    let (x, y) = (a as i128, b as i128);
    let v = match o {
        "+" => x + y, "-" => x - y, "*" => x * y,
        "/" => if y == 0 { return None } else { x / y },
        "%" => if y == 0 || (a == i64::MIN && b == -1) { return None } else { x % y },
        "<<" => if !(0..64).contains(&y) { return None } else { ((a as u64) << y) as i64 as i128 },
        ">>" => if !(0..64).contains(&y) { return None } else { x >> y },
        "&" => x & y, "|" => x | y, "^" => x ^ y,
        "&&" => (x != 0 && y != 0) as i128, "||" => (x != 0 || y != 0) as i128,
        "<" => (x < y) as i128, ">" => (x > y) as i128, "<=" => (x <= y) as i128, ">=" => (x >= y) as i128,
        "==" => (x == y) as i128, _ => (x != y) as i128,
    };
    i64::try_from(v).ok()
}
/// a text that is no expression has no value
fn eval(d: &Defs, t: &str, exp: Vec<String>) -> Option<i64> {
    let mut e = E { d, t: lex(t)?, i: 0, exp };
    match e.expr(1) { Ok(v) if e.i == e.t.len() => v, _ => None }
}

fn texts(rng: &mut Rng, n: usize) -> String {
    let atoms = ["0", "1", "2", "3", "7", "64", "0xff", "1_000", "9223372036854775807", "A", "B", "C", "_d1", "defined(A)", "defined B", "defined ( C )", "defined( _d1 )"];
    if n == 0 { return rng.pick(&atoms).to_string() }
    let k = rng.below(n);
    let (l, r) = (texts(rng, k), texts(rng, n - 1 - k));
    let o = OPS[rng.below(18)];
    let s = *rng.pick(&["", " ", "  ", "\t"]);
    let s = if l.ends_with(|c: char| c.is_alphanumeric()) && s.is_empty() { s } else { s };
    let t = format!("{l}{s}{o}{s}{r}");
    match rng.below(3) { 0 => format!("({t})"), 1 => format!("( {t} )"), _ => t }
}
pub fn expr_cases(mut rng: Rng) -> Cases {
    let small = ["0", "1", "2", "5", "A", "U", "defined(A)", "defined U", "(2)", "0x10", "9223372036854775807"];
    let mut v = vec![];
    for a in small { v.push(json!({"defs": {"A": "3"}, "cond": a})) }
    for o in &OPS[..18] {
        for a in small { for b in small { for s in ["", " "] { v.push(json!({"defs": {"A": "3"}, "cond": format!("{a}{s}{o}{s}{b}")})) } } }
    }
    for o in &OPS[..18] { for p in &OPS[..18] {
        for (a, b, c) in [("5", "2", "1"), ("1", "2", "5"), ("0", "1", "2"), ("8", "3", "3"), ("0", "0", "1")] {
            v.push(json!({"defs": {}, "cond": format!("{a} {o} {b} {p} {c}")}));
            v.push(json!({"defs": {}, "cond": format!("{a}{o}({b}{p}{c})")}));
        }
    } }
    for d in [json!({"A": "A"}), json!({"A": "B", "B": "A"}), json!({"A": "B + 1", "B": "C", "C": "A || 1"}), json!({"A": ""}), json!({"A": "(B", "B": "1"}), json!({"A": "1 + A"})] {
        for c in ["A", "B", "A || 1", "1 + A", "defined(A)", "defined(B) + defined A", "A == A"] { v.push(json!({"defs": d, "cond": c})) }
    }
    Box::new(v.into_iter().chain(std::iter::from_fn(move || {
        let mut d = serde_json::Map::new();
        for n in ["A", "B", "C", "_d1"] { if rng.bool() { let k = rng.below(3); d.insert(n.into(), texts(&mut rng, k).into()); } }
        let k = 1 + rng.below(6);
        Some(json!({"defs": d, "cond": texts(&mut rng, k)}))
    })))
}
pub fn expr_check(c: &Value) -> Result<bool, String> {
    let defs: Defs = c["defs"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
    let cond = c["cond"].as_str().unwrap();
    let db = Database::new(|_, p| Ok(p.into()));
    let id = FileId::new(&db, "f".into());
    let mut pp = PreprocessorState::new(|_| unreachable!(), |_| unreachable!());
    let mut input: VecDeque<_> = defs.iter().map(|(k, v)| (id, Token::PreprocessorDirective(PreprocessorDirective::Define(k.clone(), v.clone())), 0..1)).collect();
    pp.preprocess(&mut input);
    let want = eval(&defs, cond, vec![]);
    let got = guarded(|| {
        let e = parse_pp_expression(cond.to_string());
        match e { Some(e) => (true, pp.interpret_pp_expr(&e), pp.interpret_condition(&e)), None => (false, None, false) }
    }).map_err(|e| format!("#if {cond} with {defs:?}: {e}"))?;
    if !got.0 { return Err(format!("#if {cond}: is not accepted")) }
    if got.1 != want { return Err(format!("#if {cond} with {defs:?}: has the value {:?} instead of {want:?}", got.1)) }
    if got.2 != (want.unwrap_or(0) != 0) { return Err(format!("#if {cond} with {defs:?}: value {want:?} but the branch is {}", if got.2 { "taken" } else { "skipped" })) }
    Ok(cond.split(|c: char| c.is_alphanumeric() || " ()_\t".contains(c)).filter(|s| !s.is_empty()).count() >= 2)
}

// ---------- C14: which tokens are kept ----------
/// tokens are written "id x", "ws", "if COND", "elif COND", "else", "endif", "define N TEXT", "undef N", "include F", "pragma", "other"
fn token(t: &str) -> Token {
    use PreprocessorDirective::*;
    let (k, r) = t.split_once(' ').unwrap_or((t, ""));
    let cond = || parse_pp_expression(r.to_string()).unwrap();
    Token::PreprocessorDirective(match k {
        "ws" => return Token::Whitespace,
        "id" => return Token::Identifier(r.to_string()),
        "if" => If(cond()), "elif" => ElseIf(cond()), "else" => Else, "endif" => EndIf,
        "define" => { let (n, x) = r.split_once(' ').unwrap_or((r, "")); Define(n.into(), x.into()) }
        "undef" => Undef(r.into()),
        "include" => Include(analyzer_core::preprocessor::PreprocessorQuotationStyle::DoubleQuotes, r.into()),
        "pragma" => Pragma(r.into()),
        _ => Other(k.into(), r.into()),
    })
}
type Kept = (String, String, usize, usize);
struct Open { at: (String, usize), outer: bool, els: bool, taken: bool, live: bool }
/// an independent reading: every token looks at whether all conditionals around it are active
fn preprocessed(files: &BTreeMap<String, Vec<String>>, root: &str) -> (Vec<Kept>, Vec<(String, usize)>, Defs, bool) {
    let (mut out, mut errs, mut defs): (Vec<Kept>, Vec<(String, usize)>, Defs) = (vec![], vec![], Defs::new());
    let mut seen = vec![root.to_string()];
    let mut open: Vec<Open> = vec![];
    let mut input: Vec<(String, usize)> = (0..files[root].len()).rev().map(|i| (root.to_string(), i)).collect();
    let (mut skipped, mut kept) = (false, false);
    while let Some((f, i)) = input.pop() {
        let t = files[&f][i].clone();
        let (k, r) = t.split_once(' ').unwrap_or((t.as_str(), ""));
        let live = open.iter().all(|o| o.live);
        let holds = |r: &str, defs: &Defs| eval(defs, r, vec![]).unwrap_or(0) != 0;
        match k {
            "if" => { let v = live && holds(r, &defs); open.push(Open { at: (f, i), outer: live, els: false, taken: v, live: v }) }
            "elif" | "else" | "endif" if open.is_empty() => errs.push((f, i)),
            "endif" => { open.pop(); }
            "elif" => { let o = open.last_mut().unwrap(); if o.outer { o.live = !o.taken && holds(r, &defs); o.taken |= o.live; o.els = false } }
            "else" => { let o = open.last_mut().unwrap(); if o.outer { if o.els { errs.push((f, i)) } o.live = !o.taken; o.taken = true; o.els = true } }
            _ if !live => skipped = true,
            "define" => { let (n, x) = r.split_once(' ').unwrap_or((r, "")); defs.insert(n.into(), x.into()); }
            "undef" => { defs.remove(r); }
            "include" => if seen.iter().any(|s| s == r) || !files.contains_key(r) { errs.push((f, i)) } else { seen.push(r.into()); for j in (0..files[r].len()).rev() { input.push((r.into(), j)) } },
            "pragma" => (),
            "id" => { kept = true; out.push((f, t.clone(), i * 10, i * 10 + 5)) }
            "ws" => match out.last_mut() { Some(l) if l.0 == f && l.1 == "ws" => l.3 = i * 10 + 5, _ => out.push((f, t.clone(), i * 10, i * 10 + 5)) },
            _ => errs.push((f, i)),
        }
    }
    if let Some(o) = open.last() { errs.push(o.at.clone()) }
    if let Some(d) = open.iter().position(|o| !o.live) { if d > 0 { errs.push(open[d - 1].at.clone()) } }
    (out, errs, defs, skipped && kept)
}
pub fn pre_cases(mut rng: Rng) -> Cases {
    let mut v = vec![];
    // every sequence of up to 6 conditional directives, with a token between any two
    let dirs = ["if 1", "if 0", "elif 1", "elif 0", "else", "endif"];
    for n in 1..=6u32 {
        for c in 0..6usize.pow(n) {
            let (mut c, mut t) = (c, vec![]);
            for i in 0..n { t.push(dirs[c % 6].to_string()); c /= 6; t.push(format!("id x{i}")); }
            v.push(json!({"files": {"r": t}}));
        }
    }
    for (r, a, b) in [
        (vec!["include a", "id r"], vec!["id a", "id b", "id c"], vec![]), (vec!["include a", "include a", "id r"], vec!["id a"], vec![]), (vec!["include r", "id r"], vec![], vec![]),
        (vec!["include a", "id r", "include b"], vec!["include b", "id a"], vec!["include a", "id b"]), (vec!["if 0", "include a", "endif", "include a"], vec!["id a"], vec![]),
        (vec!["if 1", "include a", "id r"], vec!["endif", "id a", "if 0"], vec![]), (vec!["ws", "ws", "include a", "ws", "ws"], vec!["ws", "ws"], vec![]),
        (vec!["include a", "if A", "id r", "endif"], vec!["define A 1"], vec![]), (vec!["if 0", "define A 1", "if A", "endif", "endif", "if A", "id x", "endif"], vec![], vec![]),
        (vec!["include nowhere", "id r", "pragma", "other x", "ws"], vec![], vec![]), (vec!["if 1", "if 1", "if 0", "if 1", "id x"], vec![], vec![]),
    ] { v.push(json!({"files": {"r": r, "a": a, "b": b}})) }
    Box::new(v.into_iter().chain(std::iter::from_fn(move || {
        let names = ["r", "a", "b", "c"];
        let mut files = serde_json::Map::new();
        for n in &names[..1 + rng.below(4)] {
            let k = rng.below(14);
            let t: Vec<String> = (0..k).map(|i| match rng.below(16) {
                0 | 1 => format!("if {}", rng.pick(&["1", "0", "A", "B", "defined(A)", "A == B", "A || B"])),
                2 | 3 => "endif".into(), 4 => "else".into(),
                5 => format!("elif {}", rng.pick(&["1", "0", "A", "defined(B)"])),
                6 | 7 => format!("define {} {}", rng.pick(&["A", "B"]), rng.pick(&["0", "1", "2", "A", "B + 1"])),
                8 => format!("undef {}", rng.pick(&["A", "B"])),
                9 | 10 => format!("include {}", rng.pick(&["r", "a", "b", "c", "none"])),
                11 => rng.pick(&["pragma p", "other x"]).to_string(),
                12 | 13 => "ws".into(),
                _ => format!("id {n}{i}"),
            }).collect();
            files.insert(n.to_string(), json!(t));
        }
        Some(json!({"files": files}))
    })))
}
pub fn pre_check(c: &Value) -> Result<bool, String> {
    let files: BTreeMap<String, Vec<String>> = c["files"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())).collect();
    let db = Database::new(|_, p| Ok(p.into()));
    let ids: BTreeMap<String, FileId> = files.keys().map(|k| (k.clone(), FileId::new(&db, k.as_str().into()))).collect();
    let name = |id: FileId| ids.iter().find(|(_, i)| **i == id).map(|(k, _)| k.clone()).unwrap_or("?".into());
    let lexed: Vec<(FileId, Vec<(Token, std::ops::Range<usize>)>)> = files.iter().map(|(k, v)| (ids[k], v.iter().enumerate().map(|(i, t)| (token(t), i * 10..i * 10 + 5)).collect())).collect();
    let (want, werrs, wdefs, nontrivial) = preprocessed(&files, "r");
    let (out, errs, defs) = guarded(|| {
        let mut pp = PreprocessorState::new(|p| FileId::new(&db, p.into()), |f| lexed.iter().find(|(i, _)| *i == f).map(|(_, v)| v));
        let mut input: VecDeque<_> = lexed.iter().find(|(i, _)| *i == ids["r"]).unwrap().1.iter().cloned().map(|(t, s)| (ids["r"], t, s)).collect();
        let out = pp.preprocess(&mut input);
        // the definitions are seen through conditions
        let defs: Vec<(bool, Option<i64>)> = ["A", "B"].iter().map(|n| (pp.interpret_condition(&defined_expr(n)), pp.interpret_pp_expr(&parse_pp_expression(n.to_string()).unwrap()))).collect();
        (out, pp.errors, defs)
    }).map_err(|e| format!("{files:?}: {e}"))?;
    let got: Vec<Kept> = out.into_iter().map(|(f, t, s)| (name(f), match t { Token::Whitespace => "ws".into(), Token::Identifier(x) => format!("id {x}"), t => format!("{t:?}") }, s.start, s.end)).collect();
    if got != want { return Err(format!("{files:?}: keeps {got:?} instead of {want:?}")) }
    let gerrs: Vec<(String, usize)> = errs.iter().map(|((f, s), _)| (name(*f), s.start / 10)).collect();
    if gerrs != werrs { return Err(format!("{files:?}: reports {gerrs:?} instead of {werrs:?}")) }
    let wd: Vec<(bool, Option<i64>)> = ["A", "B"].iter().map(|n| (wdefs.contains_key(*n), eval(&wdefs, n, vec![]))).collect();
    if defs != wd { return Err(format!("{files:?}: A and B are defined as {defs:?} instead of {wd:?}")) }
    Ok(nontrivial)
}
fn defined_expr(n: &str) -> analyzer_core::preprocessor::PreprocessorExpression { analyzer_core::preprocessor::PreprocessorExpression::Defined(n.to_string()) }
