//! the lexer: tokens, their places and what is reported (C20)
use crate::{guarded, Cases, Rng};
use analyzer_core::base_abstractions::{Buffer, Diagnostics, FileId, Severity};
use analyzer_core::lexer::Token;
use analyzer_core::preprocessor::{parse_pp_expression, PreprocessorDirective as D, PreprocessorQuotationStyle as Q};
use analyzer_core::{lex, Database};
use serde_json::{json, Value};

/// an independent reading of a text: what stands where (offsets of characters), and the ranges of what is no token
#[derive(Debug, Clone, PartialEq)]
enum T { Bad, Lit(u8, bool, Option<u32>, i64), Word(String), Sym(char), Space, Comment, Dir(String) }
const SYMS: &str = "}]>):,.=*/+-{[<(;";
const WORDS: [&str; 11] = ["action", "apply", "control", "else", "header", "if", "return", "state", "table", "transition", "typedef"];
fn idc(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
fn literal(t: &str) -> Option<T> {
    let (mut w, mut signed, mut rest) = (None, false, t);
    let n = t.chars().take_while(|c| c.is_ascii_digit()).count();
    if n > 0 && (t[n..].starts_with('w') || t[n..].starts_with('s')) {
        let mut v: u64 = 0;
        for c in t[..n].chars() { v = v * 10 + c as u64 - 48; if v > u32::MAX as u64 { return None } }
        w = Some(v as u32);
        signed = t[n..].starts_with('s');
        rest = &t[n + 1..];
    }
    let mut base = 10;
    for (p, b) in [("0b", 2), ("0B", 2), ("0d", 10), ("0D", 10), ("0o", 8), ("0O", 8), ("0x", 16), ("0X", 16)] {
        if let Some(r) = rest.strip_prefix(p) { base = b; rest = r; break }
    }
    let mut v: i128 = 0;
    let mut any = false;
    for c in rest.chars().filter(|c| *c != '_') {
        v = v * base as i128 + c.to_digit(base)? as i128;
        any = true;
        if v > i64::MAX as i128 { return None }
    }
    if any { Some(T::Lit(base as u8, signed, w, v as i64)) } else { None }
}
fn aws(c: char) -> bool { c.is_ascii_whitespace() }
fn dir(word: &str, arg: &str, errs: &mut Vec<&'static str>) -> Option<D> {
    let trimmed = arg.trim_start_matches(aws);
    Some(match word {
        "include" => {
            if arg.starts_with(|c| !aws(c)) { errs.push("include") }
            let end = match trimmed.chars().next() { Some('<') => '>', Some('"') => '"', _ => { errs.push("include"); return None } };
            let body = &trimmed[1..];
            match body.find(end) { Some(k) => D::Include(if end == '>' { Q::AngleBrackets } else { Q::DoubleQuotes }, body[..k].into()), None => { errs.push("include"); return None } }
        }
        "if" => D::If(parse_pp_expression(arg.into())?),
        "elif" => D::ElseIf(parse_pp_expression(arg.into())?),
        "else" => D::Else,
        "endif" => D::EndIf,
        "define" => {
            if !trimmed.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') { errs.push("macro"); return None }
            let k = trimmed.find(|c| !idc(c)).unwrap_or(trimmed.len());
            D::Define(trimmed[..k].into(), trimmed[k..].trim_start_matches(aws).into())
        }
        "undef" => { let w: Vec<_> = arg.trim().split(aws).filter(|x| !x.is_empty()).collect(); if w.len() != 1 { return None } D::Undef(w[0].into()) }
        "pragma" => D::Pragma(trimmed.into()),
        _ => D::Other(word.into(), arg.into()),
    })
}
type Read = (Vec<(T, std::ops::Range<usize>)>, Vec<(std::ops::Range<usize>, &'static str)>);
fn read(text: &str) -> Read {
    let b: Vec<(usize, char)> = text.char_indices().collect();
    let off = |i: usize| b.get(i).map_or(text.len(), |x| x.0);
    let at = |i: usize| b.get(i).map(|x| x.1);
    let (mut i, mut out, mut errs) = (0, vec![], vec![]);
    while i < b.len() {
        let st = i;
        let c = b[i].1;
        let t = if c.is_whitespace() { while at(i).map_or(false, char::is_whitespace) { i += 1 } T::Space }
        else if c == '/' && at(i + 1) == Some('/') { while at(i).map_or(false, |c| c != '\n') { i += 1 } if at(i).is_some() { i += 1 } T::Comment }
        else if c == '/' && at(i + 1) == Some('*') {
            i += 2;
            loop {
                if i >= b.len() { break T::Bad }
                if at(i) == Some('*') && at(i + 1) == Some('/') { i += 2; break T::Comment }
                i += 1;
            }
        }
        else if c.is_ascii_digit() {
            while at(i).map_or(false, |c| "0123456789wsbBdDoOxXacefACEF_".contains(c)) { i += 1 }
            literal(&text[off(st)..off(i)]).unwrap_or_else(|| { errs.push((off(st)..off(i), "malformed integer")); T::Bad })
        }
        else if c.is_ascii_alphabetic() || c == '_' { while at(i).map_or(false, idc) { i += 1 } T::Word(text[off(st)..off(i)].into()) }
        else if c == '#' && { let mut j = i + 1; while at(j).map_or(false, char::is_whitespace) { j += 1 } at(j).map_or(false, |c| c.is_alphanumeric() || c == '_') } {
            i += 1;
            while at(i).map_or(false, char::is_whitespace) { i += 1 }
            let w = i;
            while at(i).map_or(false, |c| c.is_alphanumeric() || c == '_') { i += 1 }
            let word = &text[off(w)..off(i)];
            // the rest of the logical line: a backslash stands for the character after it (a line end may be two characters)
            let mut arg = String::new();
            while let Some(c) = at(i) {
                i += 1;
                match c {
                    '\n' => break,
                    '\\' => {
                        while at(i) == Some('\r') { arg.push('\r'); i += 1 }
                        if let Some(c) = at(i) { arg.push(c); i += 1 }
                    }
                    c => arg.push(c),
                }
            }
            let mut e = vec![];
            let d = dir(word, &arg, &mut e);
            for x in e { errs.push((off(st)..off(i), x)) }
            match d { Some(d) => T::Dir(format!("{d:?}")), None => T::Bad }
        }
        // a # without a directive, and the white space after it
        else if c == '#' { i += 1; while at(i).map_or(false, char::is_whitespace) { i += 1 } T::Bad }
        else { i += 1; if SYMS.contains(c) { T::Sym(c) } else { T::Bad } };
        out.push((t, off(st)..off(i)));
    }
    // what is no token is reported once for each stretch of it
    let mut bad: Option<std::ops::Range<usize>> = None;
    for (t, r) in &out {
        match (&mut bad, t) { (Some(b), T::Bad) => b.end = r.end, (None, T::Bad) => bad = Some(r.clone()), (b, _) => if let Some(b) = b.take() { errs.push((b, "unexpected token")) } }
    }
    if let Some(b) = bad { errs.push((b, "unexpected token")) }
    (out, errs)
}
fn shown(t: &Token) -> T {
    let s = |c| T::Sym(c);
    let w = |x: &str| T::Word(x.into());
    match t {
        Token::CloseBrace => s('}'), Token::CloseBracket => s(']'), Token::CloseChevron => s('>'), Token::CloseParen => s(')'), Token::Colon => s(':'), Token::Comma => s(','),
        Token::Comment => T::Comment, Token::Dot => s('.'), Token::Equals => s('='), Token::Asterisk => s('*'), Token::Slash => s('/'), Token::Plus => s('+'), Token::Minus => s('-'),
        Token::Error => T::Bad, Token::Identifier(x) => if WORDS.contains(&x.as_str()) { T::Word(format!("<{x} is no keyword>")) } else { w(x) },
        Token::Integer(l) => T::Lit(l.base, l.signed, l.width, l.value),
        Token::KwAction => w("action"), Token::KwApply => w("apply"), Token::KwControl => w("control"), Token::KwElse => w("else"), Token::KwHeader => w("header"), Token::KwIf => w("if"),
        Token::KwReturn => w("return"), Token::KwState => w("state"), Token::KwTable => w("table"), Token::KwTransition => w("transition"), Token::KwTypedef => w("typedef"),
        Token::OpenBrace => s('{'), Token::OpenBracket => s('['), Token::OpenChevron => s('<'), Token::OpenParen => s('('), Token::Semicolon => s(';'),
        Token::PreprocessorDirective(d) => T::Dir(format!("{d:?}")), Token::Whitespace => T::Space,
    }
}
/// several error tokens in a row say the same as one
fn merged(v: Vec<(T, std::ops::Range<usize>)>) -> Vec<(T, std::ops::Range<usize>)> {
    let mut out: Vec<(T, std::ops::Range<usize>)> = vec![];
    for (t, r) in v {
        match out.last_mut() { Some((T::Bad, l)) if t == T::Bad && l.end == r.start => l.end = r.end, _ => out.push((t, r)) }
    }
    out
}
pub fn check(c: &Value) -> Result<bool, String> {
    let text = c["text"].as_str().unwrap();
    let (want, mut errs) = read(text);
    let (got, mut diags) = guarded(|| {
        let db = Database::new(|_, p| Ok(p.into()));
        let id = FileId::new(&db, "f.p4".into());
        let buf = Buffer::from_string(&db, &text.to_string());
        let got: Vec<_> = lex(&db, id, buf).lexemes(&db).iter().map(|(t, r)| (shown(t), r.clone())).collect();
        let diags: Vec<_> = lex::accumulated::<Diagnostics>(&db, id, buf).into_iter().map(|d| (d.location, d.message, d.severity == Severity::Error, d.file == id)).collect();
        (got, diags)
    }).map_err(|e| format!("{text:?}: {e}"))?;
    let mut end = 0;
    for (t, r) in &got {
        if r.start != end || r.end <= r.start { return Err(format!("{text:?}: {t:?} at {r:?} after {end}: the tokens do not cover the text")) }
        end = r.end;
    }
    if end != text.len() { return Err(format!("{text:?}: the tokens end at {end} of {}", text.len())) }
    let (got, want) = (merged(got), merged(want));
    if let Some(k) = (0..got.len().max(want.len())).find(|k| got.get(*k) != want.get(*k)) {
        return Err(format!("{text:?}: read as {:?} instead of {:?}", got.get(k), want.get(k)));
    }
    let by = |a: &(std::ops::Range<usize>, _), b: &(std::ops::Range<usize>, _)| (a.0.start, a.0.end).cmp(&(b.0.start, b.0.end));
    errs.sort_by(by);
    diags.sort_by_key(|d| (d.0.start, d.0.end));
    let _ = by;
    if diags.len() != errs.len() || diags.iter().zip(&errs).any(|(d, e)| d.0 != e.0 || !d.2 || !d.3) {
        return Err(format!("{text:?}: reported {:?} instead of {errs:?}", diags.iter().map(|d| (&d.0, &d.1)).collect::<Vec<_>>()));
    }
    Ok(want.iter().filter(|t| !matches!(t.0, T::Space | T::Sym(_))).count() >= 2)
}
pub fn cases(mut rng: Rng) -> Cases {
    let mut v: Vec<String> = vec![];
    // the parts of a literal
    for w in ["", "8w", "8s", "0w", "4294967295w", "4294967296w", "99999999999999999999s", "8W", "1_0w", "8w8w", "w"] {
        for b in ["", "0x", "0X", "0b", "0B", "0o", "0O", "0d", "0D", "00x", "10b", "0x0b"] {
            for d in ["", "0", "1", "7", "10", "19", "1_0", "_1", "1_", "_", "__1__0__", "ff", "FACE", "9a", "12w3", "10s2", "0b1", "9223372036854775807", "9223372036854775808", "7fffffffffffffff", "8000000000000000", "2"] {
                v.push(format!("{w}{b}{d}"));
            }
        }
    }
    // comments
    let c = ["/", "*", "\n", "a", "é", "\\"];
    for n in 0..5usize { for k in 0..c.len().pow(n as u32) { let mut k = k; let mut t = String::new(); for _ in 0..n { t += c[k % c.len()]; k /= c.len() } v.push(format!("/*{t}")); if n < 4 { v.push(format!("//{t}")); v.push(format!("/{t}*/ b")) } } }
    // directives with short arguments
    let a = [" ", "A", "\\", "\n", "\r", "\"", "<", ">", "1", "é"];
    for w in ["include", "if", "elif", "else", "endif", "define", "undef", "pragma", "other", "ifx", "Define"] {
        for n in 0..4usize {
            if n == 3 && w.starts_with("e") { continue }
            for k in 0..a.len().pow(n as u32) { let mut k = k; let mut t = String::new(); for _ in 0..n { t += a[k % a.len()]; k /= a.len() } v.push(format!("#{w} {t}")); if n < 3 { v.push(format!("#{w}{t} B\nC")); v.push(format!("# \t{w} X{t} B")) } }
        }
    }
    for t in ["#include <a>b>", "#include \"a<b>\" x", "#include <a\\\n>", "#define F(x) x+1\\\n +2 \\\n\\\n3\nfoo", "#define A \\\r\n 1\r\nfoo", "#define A \\\\", "#define A \\", "#undef A B", "#undef  A ", "#undef \u{a0}A\u{a0}", "#", "# ", "#\nif 1", "##if 1", "#9", "#_", "#é",
        "#define\tA\t1\\\\\\\n2", "#define A_1b \u{a0}x", "#if 1 + \\\n 1\nx", "#if", "#if )", "a#if 0\n", "#pragma  a\\\nb", "#if\\\n1\nfoo", "@@ @", "a@ é€b", "\u{feff}action", "action actions _action action1 if0 elsewhere", "0if", "1.5", "a.b(c)[d]{e}<f>;g:h,i=j*k+l-m/n//", "//", "// x", "/**/", "/***/", "/*/", "/* * / */ a", "\u{2028}a\u{a0}b\u{c}c\u{b}d"] { v.push(t.into()) }
    let parts = ["/*", "*/", "//", "\n", "\r\n", "\\\n", "\\\r\n", "\\", " ", "\t", "#", "#define A ", "#define ", "#undef ", "#include ", "<x.p4>", "\"y.p4\"", "#if ", "#elif ", "#else", "#endif", "#pragma ", "# error ", "action", "apply", "control", "else", "header", "if", "return", "state", "table", "transition", "typedef", "foo", "_x1", "A", "0", "1", "8w", "4s0b1", "0x1F", "1_000", "0b2", "99w", "(", ")", "{", "}", "[", "]", "<", ">", ";", ":", ",", ".", "=", "*", "/", "+", "-", "@", "é", "€", "\u{a0}", "\"", "'", "!", "&&", "1 + 2"];
    Box::new(v.into_iter().chain(std::iter::from_fn(move || { let n = 1 + rng.below(14); Some((0..n).map(|_| *rng.pick(&parts)).collect::<String>()) })).map(|t| json!({ "text": t })))
}
