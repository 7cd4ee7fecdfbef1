use crate::{Cases, Rng};
use analyzer_core::lsp_file::*;
use serde_json::{json, Value};

// ---------- oracle: written from the LSP meaning of positions, shares nothing with the code ----------
fn lines(t: &str) -> Vec<&str> { t.split_inclusive('\n').collect() }
pub fn o_p2b(t: &str, line: usize, ch: usize) -> usize {
    let ls = lines(t);
    if line >= ls.len() { return t.len() }
    let start: usize = ls[..line].iter().map(|l| l.len()).sum();
    let body = ls[line].strip_suffix('\n').unwrap_or(ls[line]);
    start + body.chars().take(ch).map(|c| c.len_utf8()).sum::<usize>()
}
pub fn o_b2p(t: &str, b: usize) -> (usize, usize) {
    if t.is_empty() { return (0, 0) }
    let ls = lines(t);
    if b >= t.len() { return (ls.len(), 0) }
    let mut start = 0;
    for (i, l) in ls.iter().enumerate() {
        if b < start + l.len() {
            // column: number of characters of the line that end at or before b (its line break is the column after the last)
            let mut n = 0; let mut e = start;
            for c in l.chars() { e += c.len_utf8(); if e <= b { n += 1 } else { break } }
            return (i, n);
        }
        start += l.len();
    }
    unreachable!()
}
fn o_index(t: &str) -> Vec<usize> {
    let mut v = vec![]; let mut e = 0;
    for l in lines(t) { e += l.len(); v.push(e - 1) }
    v
}
fn s(v: &Value) -> String { v.as_str().unwrap_or("").to_string() }
fn u(v: &Value) -> usize { v.as_u64().unwrap_or(0) as usize }

pub fn strings(al: &'static [char], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut i = 0;
    while i < v.len() {
        if v[i].chars().count() < max { for c in al { let mut x = v[i].clone(); x.push(*c); v.push(x) } }
        i += 1;
    }
    v
}
const AL: &[char] = &['a', '\n', 'ć', '\r', '😀', '€', 'b', ' ', '\t', '\u{2028}', '\u{85}', '\u{0}', '\u{feff}', '\u{301}', '\u{b}', '\u{c}', 'Z', '_', '0', '"', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
pub fn rnd_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let few = r.below(3) != 0;
    (0..n).map(|_| if r.below(4) == 0 { '\n' } else if few { AL[r.below(6)] } else { *r.pick(AL) }).collect()
}
// ---------- C01 ----------
pub fn edit_cases(mut r: Rng) -> Cases {
    let texts = strings(&['a', '\n', 'ć'], 3);
    let adds = strings(&['b', '\n', 'ć'], 2);
    let mut small = vec![];
    for t in &texts {
        let nl = lines(t).len() + 2;
        for a in &adds {
            small.push(json!({"text": t, "edits": [{"r": null, "t": a}]}));
            for l0 in 0..nl { for c0 in 0..4 { for l1 in l0..nl { for c1 in 0..4 {
                if o_p2b(t, l0, c0) > o_p2b(t, l1, c1) { continue }
                small.push(json!({"text": t, "edits": [{"r": [l0, c0, l1, c1], "t": a}]}));
            }}}}
        }
    }
    let n = small.len();
    let rnd = std::iter::from_fn(move || {
        let max = *r.pick(&[6, 14, 14, 40]); let t = rnd_text(&mut r, max);
        let mut cur = t.clone();
        let mut es = vec![];
        for _ in 0..1 + r.below(5) {
            let a = rnd_text(&mut r, 6);
            if r.below(12) == 0 { cur = a.clone(); es.push(json!({"r": null, "t": a})); continue }
            let nl = lines(&cur).len() + 2;
            for _ in 0..20 {
                let (mut p, mut q) = ((r.below(nl), r.below(9)), (r.below(nl), r.below(9)));
                if r.below(16) == 0 { q.1 = usize::MAX }
                if r.below(32) == 0 { q.0 = u32::MAX as usize }
                if o_p2b(&cur, p.0, p.1) > o_p2b(&cur, q.0, q.1) { std::mem::swap(&mut p, &mut q) }
                let (x, y) = (o_p2b(&cur, p.0, p.1), o_p2b(&cur, q.0, q.1));
                if x > y { continue }
                cur.replace_range(x..y, &a);
                es.push(json!({"r": [p.0, p.1, q.0, q.1], "t": a}));
                break;
            }
        }
        Some(json!({"text": t, "edits": es}))
    });
    let _ = n;
    Box::new(small.into_iter().chain(rnd))
}
pub fn edit_check(c: &Value) -> Result<bool, String> {
    let mut want = s(&c["text"]);
    let mut f = LspFile::new(&want);
    let mut nt = false;
    for (k, e) in c["edits"].as_array().unwrap().iter().enumerate() {
        let t = s(&e["t"]);
        let range = match e["r"].as_array() {
            None => { want = t.clone(); None }
            Some(r) => {
                let (x, y) = (o_p2b(&want, u(&r[0]), u(&r[1])), o_p2b(&want, u(&r[2]), u(&r[3])));
                if x > y { return Ok(false) }
                nt |= !want.is_empty();
                want.replace_range(x..y, &t);
                Some(Range::new(Position::new(u(&r[0]), u(&r[1])), Position::new(u(&r[2]), u(&r[3]))))
            }
        };
        f.lazy_add(&ChangeEvent { range, text: t });
        if *f.get_file_content() != want { return Err(format!("after edit {k}: text {:?}, expected {:?}", f.get_file_content(), want)) }
        let fresh = LspFile::new(&want);
        if f.get_ranges() != fresh.get_ranges() || *f.get_ranges() != o_index(&want) {
            return Err(format!("after edit {k}: line index {:?}, of the same text opened afresh {:?}, expected {:?}", f.get_ranges(), fresh.get_ranges(), o_index(&want)));
        }
    }
    Ok(nt)
}
// ---------- C02, C03 ----------
pub fn pos_cases(mut r: Rng) -> Cases {
    let small: Vec<Value> = strings(&AL[..5], 4).into_iter().chain(strings(AL, 2)).map(|t| json!({"text": t})).collect();
    let rnd = std::iter::from_fn(move || { let max = *r.pick(&[6, 12, 12, 30, 60, 300]); Some(json!({"text": rnd_text(&mut r, max)})) });
    Box::new(small.into_iter().chain(rnd))
}
pub fn pos_check(c: &Value) -> Result<bool, String> {
    let t = s(&c["text"]);
    let f = LspFile::new(&t);
    let nl = lines(&t).len() + 2;
    let mut ps: Vec<(usize, usize)> = vec![];
    for l in (0..nl).chain([usize::MAX - 1, usize::MAX]) {
        let w = lines(&t).get(l).map(|x| x.chars().count()).unwrap_or(0) + 2;
        for k in (0..w).chain([u32::MAX as usize, usize::MAX]) { ps.push((l, k)) }
    }
    for (l, k) in ps {
        let got = f.lsp_to_byte(&Position::new(l, k));
        let want = o_p2b(&t, l, k);
        if got != want { return Err(format!("position ({l}, {k}) -> byte {got}, expected {want}")) }
        let g = f.lsp_range_to_byte_range(&Range::new(Position::new(0, 0), Position::new(l, k)));
        if g != (0..want) { return Err(format!("range (0,0)-({l},{k}) -> {g:?}, expected 0..{want}")) }
        let g = f.lsp_range_to_byte_range(&Range::new(Position::new(l, k), Position::new(nl, 0)));
        if g != (want..t.len()) { return Err(format!("range ({l},{k})-end -> {g:?}, expected {want}..{}", t.len())) }
    }
    for b in (0..t.len() + 3).chain([usize::MAX - 1, usize::MAX]) {
        let g = f.byte_to_lsp(b);
        let want = o_b2p(&t, b);
        if (g.line, g.character) != want { return Err(format!("byte {b} -> {g:?}, expected {want:?}")) }
        if t.is_char_boundary(b) && f.lsp_to_byte(&g) != b { return Err(format!("byte {b} -> {g:?} -> byte {}", f.lsp_to_byte(&g))) }
        let gr = f.byte_range_to_lsp_range(&(0..b));
        let w0 = o_b2p(&t, 0);
        if (gr.start.line, gr.start.character, gr.end.line, gr.end.character) != (w0.0, w0.1, want.0, want.1) { return Err(format!("byte range 0..{b} -> {gr:?}, expected {w0:?} {want:?}")) }
        let gr = f.byte_range_to_lsp_range(&(b..t.len()));
        let w0 = o_b2p(&t, t.len());
        if (gr.start.line, gr.start.character, gr.end.line, gr.end.character) != (want.0, want.1, w0.0, w0.1) { return Err(format!("byte range {b}.. -> {gr:?}, expected {want:?} {w0:?}")) }
    }
    Ok(t.contains('\n') || t.len() > t.chars().count())
}
pub fn idx_check(c: &Value) -> Result<bool, String> {
    let t = s(&c["text"]);
    let f = LspFile::new(&t);
    if *f.get_file_content() != t { return Err("text changed on opening".into()) }
    if *f.get_ranges() != o_index(&t) { return Err(format!("line index {:?}, expected {:?}", f.get_ranges(), o_index(&t))) }
    let ls = lines(&t);
    for l in (0..ls.len() + 3).chain([usize::MAX]) {
        let want = ls.get(l).map(|x| x.chars().count()).unwrap_or(0);
        if f.line_char(l) != want { return Err(format!("line {l} has {} characters, expected {want}", f.line_char(l))) }
    }
    Ok(t.contains('\n') || t.len() > t.chars().count())
}
