#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@file l crates/analyzer-core/src/lexer.rs
//@file b crates/analyzer-core/src/base_abstractions.rs
//@file p crates/analyzer-core/src/preprocessor.rs
//@method l chars v_chars
//@method l len_utf8 v_len_utf8
//@method l is_ascii_whitespace v_aws
//@method l is_ascii_alphabetic v_aal
//@method l is_ascii_alphanumeric v_aan
//@method l to_string v_string
//@method l push v_push
//@method l replace v_without
//@method l collect v_collect
//@method l trim v_trim
//@method l split_ascii_whitespace v_words
//@method l parse v_parse
//@method l [..] v
//@ghostarg l Diagnostics::push Tracked(log)
//@ghostarg l report Tracked(log)
//@ghostarg l parse_include Tracked(log)
//@ghostarg l parse_define Tracked(log)
//@path l i64::from_str_radix v_i64_from_radix
verus! {
global size_of usize == 8;
//@include prelude_text.vrs
//@item p enum PreprocessorQuotationStyle [open]
//@item p enum PreprocessorBinOp [open]
//@item p enum PreprocessorExpression [open]
//@item p enum PreprocessorDirective [open]
//@item l struct Literal [open]
/// salsa's interned id of a path
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct FileId(pub u32);
//@item b enum Severity [open]
pub type Span = std::ops::Range<usize>;

// ================= what a text means =================
pub type Text = Seq<char>;
pub open spec fn aws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' }
pub open spec fn aal(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn adig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn idc(c: char) -> bool { aal(c) || adig(c) || c == '_' }
/// how many characters s has before the first that is not in class f
pub open spec fn run(s: Text, f: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() == 0 || !f(s[0]) { 0 } else { 1 + run(s.skip(1), f) } }
pub open spec fn f_aws() -> spec_fn(char) -> bool { |c: char| aws(c) }
pub open spec fn f_naws() -> spec_fn(char) -> bool { |c: char| !aws(c) }
pub open spec fn f_adig() -> spec_fn(char) -> bool { |c: char| adig(c) }
pub open spec fn f_idc() -> spec_fn(char) -> bool { |c: char| idc(c) }
pub open spec fn f_space() -> spec_fn(char) -> bool { |c: char| space(c) }
pub open spec fn f_not(d: char) -> spec_fn(char) -> bool { |x: char| x != d }
pub open spec fn trim0(s: Text) -> Text { s.skip(run(s, f_aws())) }
// ---- the rest of a logical line: a backslash stands for the character after it; a line may end with two characters ----
pub open spec fn line_text(s: Text, esc: bool) -> Text decreases s.len() {
    if s.len() == 0 || (s[0] == '\n' && !esc) { Seq::empty() }
    else if s[0] == '\\' && !esc { line_text(s.skip(1), true) }
    else { seq![s[0]] + line_text(s.skip(1), esc && s[0] == '\r') }
}
/// how many characters that is, the line feed included
pub open spec fn line_len(s: Text, esc: bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == '\n' && !esc { 1 }
    else { 1 + line_len(s.skip(1), if s[0] == '\\' && !esc { true } else { esc && s[0] == '\r' }) }
}
// ---- comments ----
pub open spec fn closes(s: Text, k: int) -> bool { 0 <= k && k + 1 < s.len() && s[k] == '*' && s[k + 1] == '/' }
// ---- integer literals ----
pub open spec fn digit(c: char) -> int {
    if adig(c) { c as int - '0' as int } else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 } else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 } else { 99 }
}
/// the number s is to the base b
pub open spec fn number(s: Text, b: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if digit(s.last()) >= b { None }
    else if s.len() == 1 { Some(digit(s[0])) }
    else { match number(s.drop_last(), b) { None => None, Some(n) => Some(n * b + digit(s.last())) } }
}
pub open spec fn at_most(n: Option<int>, max: int) -> Option<int> { match n { Some(n) if n <= max => Some(n), _ => None } }
pub open spec fn without(s: Text, c: char) -> Text { s.filter(|x: char| x != c) }
/// width and sign in front of the digits, and how many characters they are
pub open spec fn width(t: Text) -> Option<(int, bool, int)> {
    let n = run(t, f_adig());
    if 0 < n < t.len() && (t[n] == 'w' || t[n] == 's') {
        match at_most(number(t.take(n), 10), u32::MAX as int) { Some(w) => Some((w, t[n] == 's', n + 1)), None => None }
    } else { None }
}
pub open spec fn after_width(t: Text) -> Text { match width(t) { Some((w, s, n)) => t.skip(n), None => t } }
pub open spec fn base_of(c: char) -> Option<int> {
    if c == 'b' || c == 'B' { Some(2) } else if c == 'd' || c == 'D' { Some(10) } else if c == 'o' || c == 'O' { Some(8) } else if c == 'x' || c == 'X' { Some(16) } else { None }
}
pub open spec fn base(t: Text) -> Option<int> { if t.len() >= 2 && t[0] == '0' { base_of(t[1]) } else { None } }
pub open spec fn after_base(t: Text) -> Text { if base(t) is Some { t.skip(2) } else { t } }
pub open spec fn base10(t: Text) -> int { match base(t) { Some(b) => b, None => 10 } }
pub open spec fn value(t: Text) -> Option<int> { let d = after_width(t); at_most(number(without(after_base(d), '_'), base10(d)), i64::MAX as int) }
/// l is what the literal t says
pub open spec fn says(l: Literal, t: Text) -> bool {
    &&& value(t) == Some(l.value as int)
    &&& l.base == base10(after_width(t))
    &&& match width(t) { Some((w, s, n)) => l.width matches Some(x) && x == w && l.signed == s, None => l.width is None && !l.signed }
}
pub open spec fn intc(c: char) -> bool { adig(c) || c == 'w' || c == 's' || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') || c == 'o' || c == 'O' || c == 'x' || c == 'X' || c == '_' }
pub open spec fn all(t: Text, f: spec_fn(char) -> bool) -> bool { forall|i: int| 0 <= i < t.len() ==> f(#[trigger] t[i]) }
// ---- directives ----
pub open spec fn find(s: Text, c: char) -> Option<int> { let n = run(s, f_not(c)); if n < s.len() { Some(n) } else { None } }
pub open spec fn opens(t: Text) -> Option<char> { if t.len() == 0 { None } else if t[0] == '<' { Some('>') } else if t[0] == '"' { Some('"') } else { None } }
pub open spec fn include(arg: Text) -> Option<(PreprocessorQuotationStyle, Text)> {
    let t = trim0(arg);
    match opens(t) {
        None => None,
        Some(end) => match find(t.skip(1), end) {
            Some(k) => Some((if end == '>' { PreprocessorQuotationStyle::AngleBrackets } else { PreprocessorQuotationStyle::DoubleQuotes }, t.skip(1).take(k))),
            None => None,
        },
    }
}
pub open spec fn apart(arg: Text) -> bool { arg.len() == 0 || aws(arg[0]) }
pub open spec fn named(t: Text) -> bool { t.len() > 0 && (aal(t[0]) || t[0] == '_') }
pub open spec fn name_len(t: Text) -> int { run(t, f_idc()) }
pub open spec fn define(arg: Text) -> Option<(Text, Text)> {
    let t = trim0(arg);
    if named(t) { Some((t.take(name_len(t)), trim0(t.skip(name_len(t))))) } else { None }
}
pub uninterp spec fn parsed(t: Text) -> Option<PreprocessorExpression>;
/// the directive WORD with the rest of its logical line
pub open spec fn directive(word: Text, arg: Text) -> Option<Dir> {
    if word == "include"@ { match include(arg) { Some((q, p)) => Some(Dir::Include(q, p)), None => None } }
    else if word == "if"@ { match parsed(arg) { Some(e) => Some(Dir::If(e)), None => None } }
    else if word == "elif"@ { match parsed(arg) { Some(e) => Some(Dir::ElseIf(e)), None => None } }
    else if word == "else"@ { Some(Dir::Else) }
    else if word == "endif"@ { Some(Dir::EndIf) }
    else if word == "define"@ { match define(arg) { Some((n, t)) => Some(Dir::Define(n, t)), None => None } }
    else if word == "undef"@ { if words(trimmed(arg)).len() == 1 { Some(Dir::Undef(words(trimmed(arg))[0])) } else { None } }
    else if word == "pragma"@ { Some(Dir::Pragma(trim0(arg))) }
    else { Some(Dir::Other(word, arg)) }
}
/// how many reports a directive makes of its own
pub open spec fn complaints(word: Text, arg: Text) -> int {
    if word == "include"@ { (if apart(arg) { 0int } else { 1 }) + (if include(arg) is Some { 0int } else { 1 }) }
    else if word == "define"@ { if define(arg) is Some { 0 } else { 1 } }
    else { 0 }
}
pub ghost enum Dir { Include(PreprocessorQuotationStyle, Text), If(PreprocessorExpression), ElseIf(PreprocessorExpression), Else, EndIf, Define(Text, Text), Undef(Text), Pragma(Text), Other(Text, Text) }
pub open spec fn dir(d: PreprocessorDirective) -> Dir {
    match d {
        PreprocessorDirective::Include(q, p) => Dir::Include(q, p@), PreprocessorDirective::If(e) => Dir::If(e), PreprocessorDirective::ElseIf(e) => Dir::ElseIf(e),
        PreprocessorDirective::Else => Dir::Else, PreprocessorDirective::EndIf => Dir::EndIf, PreprocessorDirective::Define(n, t) => Dir::Define(n@, t@),
        PreprocessorDirective::Undef(n) => Dir::Undef(n@), PreprocessorDirective::Pragma(t) => Dir::Pragma(t@), PreprocessorDirective::Other(n, t) => Dir::Other(n@, t@),
    }
}
/// the word after `#` and white space
pub uninterp spec fn space(c: char) -> bool;
pub open spec fn word(t: Text) -> Text { t.skip(1).skip(run(t.skip(1), f_space())) }
/// words between ASCII white space
pub open spec fn words(s: Text) -> Seq<Text> decreases s.len() via words_shrink {
    let t = trim0(s);
    let n = run(t, f_naws());
    if t.len() == 0 { Seq::empty() } else { seq![t.take(n)] + words(t.skip(n)) }
}
#[via_fn]
proof fn words_shrink(s: Text) { lem_run(s, f_aws()); let t = trim0(s); lem_run(t, f_naws()); }
/// str::trim
pub uninterp spec fn trimmed(s: Text) -> Text;
pub proof fn lem_run(s: Text, f: spec_fn(char) -> bool)
    ensures 0 <= run(s, f) <= s.len(), forall|i: int| 0 <= i < run(s, f) ==> f(#[trigger] s[i]), run(s, f) < s.len() ==> !f(s[run(s, f)]),
    decreases s.len(),
{
    if s.len() > 0 && f(s[0]) {
        lem_run(s.skip(1), f);
        assert forall|i: int| 0 <= i < run(s, f) implies f(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if run(s, f) < s.len() { assert(s.skip(1)[run(s, f) - 1] == s[run(s, f)]); }
    }
}
pub proof fn lem_run_is(s: Text, f: spec_fn(char) -> bool, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> f(#[trigger] s[i]), k < s.len() ==> !f(s[k]),
    ensures run(s, f) == k,
{
    lem_run(s, f);
    let n = run(s, f);
    if n < k { assert(f(s[n])); }
    if k < n { assert(f(s[k])); }
}
pub proof fn lem_logical(s: Text, esc: bool)
    ensures 0 <= line_len(s, esc) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && !(s[0] == '\n' && !esc) { lem_logical(s.skip(1), if s[0] == '\\' && !esc { true } else { esc && s[0] == '\r' }); } }

// ================= what is reported =================
pub ghost struct Report { pub file: FileId, pub start: int, pub end: int, pub severity: Severity }
/// salsa's accumulated diagnostics
pub tracked struct Log { pub ghost all: Seq<Report> }
pub struct Diagnostic { pub file: FileId, pub location: Span, pub severity: Severity, pub message: String }
pub struct DbRef {}
pub struct Diagnostics {}
impl Diagnostics {
    #[verifier::external_body] pub fn push(db: &DbRef, d: Diagnostic, Tracked(log): Tracked<&mut Log>)
        ensures final(log).all == old(log).all.push(Report { file: d.file, start: d.location.start as int, end: d.location.end as int, severity: d.severity }) { unimplemented!() }
}
/// *const dyn Db: it points to a database that lives while the lexer does
#[derive(Clone, Copy)] pub struct VDbPtr { pub a: usize }
impl VDbPtr { #[verifier::external_body] pub fn v_deref<'a>(self) -> (r: &'a DbRef) { unimplemented!() } }
pub struct Lextras { pub db: Option<VDbPtr>, pub file_id: FileId }
/// exactly n errors were reported, all here
pub open spec fn told(a: Log, b: Log, x: &LogosLexer, n: int) -> bool {
    let m = if x.extras.db is Some { n } else { 0 };
    &&& b.all.len() == a.all.len() + m
    &&& forall|i: int| 0 <= i < a.all.len() ==> #[trigger] b.all[i] == a.all[i]
    &&& forall|i: int| a.all.len() <= i < b.all.len() ==> #[trigger] b.all[i] == (Report { file: x.extras.file_id, start: x.start(), end: x.end(), severity: Severity::Error })
}

// ================= logos, regex and str =================
/// logos::Lexer: the text, and the token read so far
pub struct LogosLexer { pub extras: Lextras, pub t: Ghost<(Text, int, int)> }
impl LogosLexer {
    pub open spec fn text(&self) -> Text { self.t@.0 }
    /// in characters
    pub open spec fn from(&self) -> int { self.t@.1 }
    pub open spec fn to(&self) -> int { self.t@.2 }
    pub open spec fn start(&self) -> int { blen(self.text().take(self.from())) }
    pub open spec fn end(&self) -> int { blen(self.text().take(self.to())) }
    pub open spec fn ok(&self) -> bool { 0 <= self.from() <= self.to() <= self.text().len() }
    pub open spec fn token(&self) -> Text { self.text().subrange(self.from(), self.to()) }
    pub open spec fn rest(&self) -> Text { self.text().skip(self.to()) }
    /// the token has got n characters longer
    pub open spec fn longer(&self, o: &LogosLexer, n: int) -> bool { self.extras == o.extras && self.text() == o.text() && self.from() == o.from() && self.to() == o.to() + n && 0 <= n <= o.rest().len() }
    #[verifier::external_body] pub fn slice<'a>(&self) -> (r: &'a str) requires self.ok(), ensures r@ == self.token() { unimplemented!() }
    #[verifier::external_body] pub fn remainder<'a>(&self) -> (r: &'a str) requires self.ok(), ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) requires self.ok(), ensures r.start == self.start(), r.end == self.end() { unimplemented!() }
    #[verifier::external_body] pub fn bump(&mut self, n: usize) requires old(self).ok(), is_bnd(old(self).rest(), n as int), ensures final(self).longer(old(self), cidx(old(self).rest(), n as int)) { unimplemented!() }
}
pub proof fn lem_one(s: Text)
    requires s.len() > 0,
    ensures is_bnd(s, clen(s[0])), cidx(s, clen(s[0])) == 1,
{ lem_blen_step(s, 0); assert(s.take(0) =~= Seq::<char>::empty()); lem_cidx(s, 1); }
pub trait VChar { fn v_len_utf8(self) -> usize; fn v_aws(&self) -> bool; fn v_aal(&self) -> bool; fn v_aan(&self) -> bool; }
impl VChar for char {
    #[verifier::external_body] fn v_len_utf8(self) -> (r: usize) ensures r == clen(self) { self.len_utf8() }
    #[verifier::external_body] fn v_aws(&self) -> (r: bool) ensures r == aws(*self) { self.is_ascii_whitespace() }
    #[verifier::external_body] fn v_aal(&self) -> (r: bool) ensures r == aal(*self) { self.is_ascii_alphabetic() }
    #[verifier::external_body] fn v_aan(&self) -> (r: bool) ensures r == (aal(*self) || adig(*self)) { self.is_ascii_alphanumeric() }
}
/// std::str::Chars and its adaptors: the characters to come
pub struct VChars { pub s: Ghost<Text> }
impl VChars {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).s@.len() > 0 && c == old(self).s@[0] && final(self).s@ == old(self).s@.skip(1), None => old(self).s@.len() == 0 && final(self).s@ == old(self).s@ } { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<&char>)
        ensures final(self).s@ == old(self).s@, match r { Some(c) => old(self).s@.len() > 0 && *c == old(self).s@[0], None => old(self).s@.len() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn next_if<F: FnMut(&char) -> bool>(&mut self, f: F) -> (r: Option<char>)
        requires forall|c: &char| f.requires((c,)),
        ensures match r { Some(c) => old(self).s@.len() > 0 && c == old(self).s@[0] && f.ensures((&c,), true) && final(self).s@ == old(self).s@.skip(1), None => final(self).s@ == old(self).s@ && (old(self).s@.len() > 0 ==> f.ensures((&old(self).s@[0],), false)) } { unimplemented!() }
    #[verifier::external_body] pub fn peekable(self) -> (r: VChars) ensures r.s@ == self.s@ { unimplemented!() }
    #[verifier::external_body] pub fn by_ref(&mut self) -> (r: &mut VChars) ensures *r == *old(self), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn skip_while<F: FnMut(&char) -> bool>(self, f: F) -> (r: VChars)
        requires forall|c: &char| f.requires((c,)),
        ensures exists|k: int| 0 <= k <= self.s@.len() && r.s@ == #[trigger] self.s@.skip(k) && (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] self.s@[i],), true)) && (k < self.s@.len() ==> f.ensures((&self.s@[k],), false)) { unimplemented!() }
    #[verifier::external_body] pub fn take_while<F: FnMut(&char) -> bool>(self, f: F) -> (r: VChars)
        requires forall|c: &char| f.requires((c,)),
        ensures exists|k: int| 0 <= k <= self.s@.len() && r.s@ == #[trigger] self.s@.take(k) && (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] self.s@[i],), true)) && (k < self.s@.len() ==> f.ensures((&self.s@[k],), false)) { unimplemented!() }
    #[verifier::external_body] pub fn v_collect(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
}
pub trait VStr { spec fn vt(&self) -> Text;
    fn v_chars(&self) -> (r: VChars) ensures r.s@ == self.vt();
    fn v_string(&self) -> (r: String) ensures r@ == self.vt();
    fn v_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == trimmed(self.vt());
    fn v_words(&self) -> (r: VWords) ensures r.w@ == words(self.vt());
    fn v_without(&self, c: char, with: &str) -> (r: String) ensures with@.len() == 0 ==> r@ == without(self.vt(), c);
    fn v_parse(&self) -> (r: Result<u32, VParseError>) ensures match r { Ok(n) => number(self.vt(), 10) == Some(n as int), Err(_) => signed_(self.vt()) || at_most(number(self.vt(), 10), u32::MAX as int) is None };
    fn v_from<'a>(&'a self, r: usize) -> (o: &'a str) requires is_bnd(self.vt(), r as int), ensures o@ == self.vt().skip(cidx(self.vt(), r as int));
}
pub open spec fn signed_(t: Text) -> bool { t.len() > 0 && (t[0] == '+' || t[0] == '-') }
pub struct VParseError {}
pub struct VWords { pub w: Ghost<Seq<Text>> }
impl VWords {
    #[verifier::external_body] pub fn next<'a>(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(c) => old(self).w@.len() > 0 && c@ == old(self).w@[0] && final(self).w@ == old(self).w@.skip(1), None => old(self).w@.len() == 0 && final(self).w@ == old(self).w@ } { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.w@.len() { unimplemented!() }
    #[verifier::external_body] pub fn v_collect<'a>(self) -> (r: Vec<&'a str>) ensures r@.len() == self.w@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.w@[i] { unimplemented!() }
}
impl VStr for str {
    open spec fn vt(&self) -> Text { self@ }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_words(&self) -> (r: VWords) { unimplemented!() }
    #[verifier::external_body] fn v_without(&self, c: char, with: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_parse(&self) -> (r: Result<u32, VParseError>) { unimplemented!() }
    #[verifier::external_body] fn v_from<'a>(&'a self, r: usize) -> (o: &'a str) { unimplemented!() }
}
impl VStr for String {
    open spec fn vt(&self) -> Text { self@ }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_words(&self) -> (r: VWords) { unimplemented!() }
    #[verifier::external_body] fn v_without(&self, c: char, with: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_parse(&self) -> (r: Result<u32, VParseError>) { unimplemented!() }
    #[verifier::external_body] fn v_from<'a>(&'a self, r: usize) -> (o: &'a str) { unimplemented!() }
}
pub trait VPush { fn v_push(&mut self, c: char); }
impl VPush for String { #[verifier::external_body] fn v_push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() } }
#[verifier::external_body] pub fn v_i64_from_radix(s: &str, b: u32) -> (r: Result<i64, VParseError>)
    requires 2 <= b <= 36,
    ensures !signed_(s@) ==> match r { Ok(n) => number(s@, b as int) == Some(n as int), Err(_) => at_most(number(s@, b as int), i64::MAX as int) is None } { unimplemented!() }
#[verifier::external_body] pub fn parse_pp_expression(t: String) -> (r: Option<PreprocessorExpression>) ensures r == parsed(t@) { unimplemented!() }
/// texts are equal if their characters are
pub broadcast axiom fn str_ext(a: &str, b: &str) ensures #![trigger a@, b@] (a@ == b@) == (a == b);
#[verifier::external_body] pub fn v_message() -> String { unimplemented!() }
/// regex::Regex: its pattern; what the three patterns of this file match is stated below
pub struct Regex { pub p: Ghost<Text> }
pub struct Caps { pub t: Ghost<Text>, pub g: Ghost<Seq<(int, int)>> }
pub struct Match { pub t: Ghost<Text>, pub a: Ghost<int>, pub z: Ghost<int> }
pub uninterp spec fn matched(p: Text, t: Text) -> Option<Seq<(int, int)>>;
#[verifier::external_body] pub fn v_regex(p: &str) -> (r: Regex) ensures r.p@ == p@ { unimplemented!() }
impl Regex {
    #[verifier::external_body] pub fn captures(&self, t: &str) -> (r: Option<Caps>) ensures match r { Some(c) => c.t@ == t@ && matched(self.p@, t@) == Some(c.g@), None => matched(self.p@, t@) is None } { unimplemented!() }
}
impl Caps {
    #[verifier::external_body] pub fn get(&self, k: usize) -> (r: Option<Match>) ensures match r { Some(m) => k < self.g@.len() && m.t@ == self.t@ && m.a@ == self.g@[k as int].0 && m.z@ == self.g@[k as int].1, None => k >= self.g@.len() } { unimplemented!() }
}
impl Match {
    #[verifier::external_body] pub fn as_str<'a>(&self) -> (r: &'a str) ensures r@ == self.t@.subrange(self.a@, self.z@) { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures r == blen(self.t@.take(self.z@)) { unimplemented!() }
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r == blen(self.t@.take(self.a@)) { unimplemented!() }
}
/// trusted: digits and then w or s, from the start
#[verifier::external_body] pub proof fn re_width(t: Text)
    ensures ({ let n = run(t, f_adig());
        matched("^([0-9][0-9]*)([ws])"@, t) == (if 0 < n < t.len() && (t[n] == 'w' || t[n] == 's') { Some(seq![(0int, n + 1), (0int, n), (n, n + 1)]) } else { None::<Seq<(int, int)>> }) }) {}
#[verifier::external_body] pub proof fn re_base(t: Text)
    ensures matched("^0([bBdDoOxX])"@, t) == (if base(t) is Some { Some(seq![(0int, 2int), (1int, 2int)]) } else { None::<Seq<(int, int)>> }) {}
/// trusted: the text of a directive token is #, white space and a word
pub uninterp spec fn hash_word(t: Text) -> bool;
#[verifier::external_body] pub proof fn re_directive(t: Text)
    requires hash_word(t),
    ensures t.len() > 0, ({ let k = 1 + run(t.skip(1), f_space()); matched("#\\s*(\\w+)"@, t) == Some(seq![(0int, t.len() as int), (k, t.len() as int)]) && 0 <= k <= t.len() && word(t) == t.subrange(k, t.len() as int) }) {}

/// the words are different
pub proof fn lem_words() ensures "include"@ != "if"@, "include"@ != "elif"@, "include"@ != "else"@, "include"@ != "endif"@, "include"@ != "define"@, "include"@ != "undef"@, "include"@ != "pragma"@, "if"@ != "elif"@, "if"@ != "else"@, "if"@ != "endif"@, "if"@ != "define"@, "if"@ != "undef"@, "if"@ != "pragma"@, "elif"@ != "else"@, "elif"@ != "endif"@, "elif"@ != "define"@, "elif"@ != "undef"@, "elif"@ != "pragma"@, "else"@ != "endif"@, "else"@ != "define"@, "else"@ != "undef"@, "else"@ != "pragma"@, "endif"@ != "define"@, "endif"@ != "undef"@, "endif"@ != "pragma"@, "define"@ != "undef"@, "define"@ != "pragma"@, "undef"@ != "pragma"@ { reveal_strlit("include"); reveal_strlit("if"); reveal_strlit("elif"); reveal_strlit("else"); reveal_strlit("endif"); reveal_strlit("define"); reveal_strlit("undef"); reveal_strlit("pragma"); assert("include"@.len() != "if"@.len()); assert("include"@.len() != "elif"@.len()); assert("include"@.len() != "else"@.len()); assert("include"@.len() != "endif"@.len()); assert("include"@.len() != "define"@.len()); assert("include"@.len() != "undef"@.len()); assert("include"@.len() != "pragma"@.len()); assert("if"@.len() != "elif"@.len()); assert("if"@.len() != "else"@.len()); assert("if"@.len() != "endif"@.len()); assert("if"@.len() != "define"@.len()); assert("if"@.len() != "undef"@.len()); assert("if"@.len() != "pragma"@.len()); assert("elif"@[2] != "else"@[2]); assert("elif"@.len() != "endif"@.len()); assert("elif"@.len() != "define"@.len()); assert("elif"@.len() != "undef"@.len()); assert("elif"@.len() != "pragma"@.len()); assert("else"@.len() != "endif"@.len()); assert("else"@.len() != "define"@.len()); assert("else"@.len() != "undef"@.len()); assert("else"@.len() != "pragma"@.len()); assert("endif"@.len() != "define"@.len()); assert("endif"@[0] != "undef"@[0]); assert("endif"@.len() != "pragma"@.len()); assert("define"@.len() != "undef"@.len()); assert("define"@[0] != "pragma"@[0]); assert("undef"@.len() != "pragma"@.len()); }
pub proof fn lem_letters() ensures "w"@ == seq!['w'], "s"@ == seq!['s'], "b"@ == seq!['b'], "B"@ == seq!['B'], "d"@ == seq!['d'], "D"@ == seq!['D'], "o"@ == seq!['o'], "O"@ == seq!['O'], "x"@ == seq!['x'], "X"@ == seq!['X'] { reveal_strlit("w"); assert("w"@ =~= seq!['w']); reveal_strlit("s"); assert("s"@ =~= seq!['s']); reveal_strlit("b"); assert("b"@ =~= seq!['b']); reveal_strlit("B"); assert("B"@ =~= seq!['B']); reveal_strlit("d"); assert("d"@ =~= seq!['d']); reveal_strlit("D"); assert("D"@ =~= seq!['D']); reveal_strlit("o"); assert("o"@ =~= seq!['o']); reveal_strlit("O"); assert("O"@ =~= seq!['O']); reveal_strlit("x"); assert("x"@ =~= seq!['x']); reveal_strlit("X"); assert("X"@ =~= seq!['X']); }
pub proof fn lem_without(s: Text, c: char, f: spec_fn(char) -> bool)
    requires all(s, f),
    ensures all(without(s, c), f),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { assert(all(s.drop_last(), f)); lem_without(s.drop_last(), c, f); assert(f(s[s.len() - 1])); }
}
// ================= the code =================
pub struct Lexer<'a>(pub &'a mut LogosLexer);
//@fn l parse_width
//@ret r
//@opt desugar
//@subst /(?s)lazy_static! \{\s*static ref (\w+): Regex = Regex::new\((r?"[^;]*")\)\.unwrap\(\);\s*\}/ => let $1 = v_regex($2);
//@ensures
    match r { Some(((w, s), rest)) => width(str@) matches Some((x, y, n)) && x == w && y == s && rest@ == str@.skip(n), None => width(str@) is None },
//@start
    broadcast use str_ext;
    proof { lem_letters(); re_width(str@); lem_run(str@, f_adig()); 
        let n = run(str@, f_adig()); if n < str@.len() { assert(str@.subrange(n, n + 1) =~= seq![str@[n]]); lem_cidx(str@, n + 1); assert(str@.subrange(0, n) =~= str@.take(n)); }
        assert(0 < n ==> !signed_(str@.take(n))); }
//@endfn
//@fn l parse_base
//@ret r
//@opt desugar
//@subst /(?s)lazy_static! \{\s*static ref (\w+): Regex = Regex::new\((r?"[^;]*")\)\.unwrap\(\);\s*\}/ => let $1 = v_regex($2);
//@ensures
    match r { Some((b, rest)) => base(str@) == Some(b as int) && rest@ == after_base(str@), None => base(str@) is None },
//@start
    broadcast use str_ext;
    proof { re_base(str@); lem_letters();
        if base(str@) is Some { assert(str@.subrange(1, 2) =~= seq![str@[1]]); lem_clen(str@[0]); lem_clen(str@[1]); lem_cidx(str@, 2); } }
//@endfn
impl<'a> Lexer<'a> {
//@fn l Lexer::read_comment
//@ret r
//@opt desugar fornext=rem
//@requires
    old(self).0.ok(),
//@ensures
    final(self).0.ok(),
    ({ let s = old(self).0.rest(); let n = final(self).0.to() - old(self).0.to();
       final(self).0.longer(old(self).0, n) && (forall|j: int| j < n - 2 ==> !#[trigger] closes(s, j)) && if r { closes(s, n - 2) } else { n == s.len() && !closes(s, n - 2) } }),
//@start
    let ghost o = *self.0;
    let ghost mut i: int = 0;
    let ghost s = self.0.rest();
    proof { assert(s.skip(0) =~= s); }
//@loop 0
    invariant 0 <= i <= s.len(), o == *old(self).0, self.0.ok(), o.ok(), self.0.longer(&o, i), s == o.rest(), rem.s@ == s.skip(i), asterisk == (i > 0 && s[i - 1] == '*'), forall|j: int| j < i - 1 ==> !#[trigger] closes(s, j),
    ensures i == s.len(),
    decreases s.len() - i,
//@loopstart 0
    proof { if i < s.len() { assert(self.0.rest() =~= s.skip(i)); lem_one(s.skip(i)); assert(s.skip(i)[0] == s[i]); assert(s.skip(i).skip(1) =~= s.skip(i + 1)); i = i + 1; } }
//@endfn
//@fn l Lexer::read_line_with_newline_escapes
//@ret r
//@opt desugar fornext=iter
//@requires
    old(self).0.ok(), s@ == old(self).0.rest(),
//@ensures
    final(self).0.ok(), r@ == line_text(s@, false), final(self).0.longer(old(self).0, line_len(s@, false)),
//@start
    let ghost o = *self.0;
    let ghost mut i: int = 0;
    proof { lem_logical(s@, false); assert(s@.skip(0) =~= s@); assert(Seq::<char>::empty() + line_text(s@, false) =~= line_text(s@, false)); }
//@loop 0
    invariant_except_break buf@ + line_text(s@.skip(i), escape) == line_text(s@, false), i + line_len(s@.skip(i), escape) == line_len(s@, false),
    invariant 0 <= i <= s@.len(), o == *old(self).0, self.0.ok(), o.ok(), self.0.longer(&o, i), s@ == o.rest(), iter.s@ == s@.skip(i),
    ensures buf@ == line_text(s@, false), i == line_len(s@, false),
    decreases s@.len() - i,
//@loopstart 0
    let ghost b0 = buf@;
    let ghost e0 = escape;
    proof {
        if i < s@.len() {
            let r = s@.skip(i);
            assert(self.0.rest() =~= r); lem_one(r); assert(r[0] == s@[i]); assert(r.skip(1) =~= s@.skip(i + 1)); i = i + 1;
            assert(b0 + (seq![r[0]] + line_text(r.skip(1), e0 && r[0] == '\r')) =~= b0.push(r[0]) + line_text(r.skip(1), e0 && r[0] == '\r'));
        }
        assert(b0 + Seq::<char>::empty() =~= b0);
    }
//@endfn
//@fn l Lexer::report
//@opt desugar
//@subst? /unsafe\s*\{\s*&\*(\w+)\s*\}/ => $1.v_deref()
//@ghostparam Tracked(log): Tracked<&mut Log>
//@requires
    old(self).0.ok(),
//@ensures
    *final(self).0 == *old(self).0, severity is Error ==> told(*old(log), *final(log), old(self).0, 1),
//@endfn
//@fn l Lexer::parse_include
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@opt fornext=iter
//@subst? /&format!\("[^"]*"\)/ => &v_message()
//@closures /v_aws|is_ascii_whitespace/ => |ch: &char| -> (b: bool) ensures b == aws(*ch)
//@ghostparam Tracked(log): Tracked<&mut Log>
//@requires
    old(self).0.ok(),
//@ensures
    *final(self).0 == *old(self).0,
    match r { Some((q, p)) => include(buf@) == Some((q, p@)), None => include(buf@) is None },
    told(*old(log), *final(log), old(self).0, (if apart(buf@) { 0int } else { 1 }) + (if include(buf@) is Some { 0int } else { 1 })),
//@start
    let ghost arg = buf@;
    let ghost g = *log;
//@after /let mut iter =/
    let ghost t = iter.s@;
    proof { let k = choose|k: int| 0 <= k <= arg.len() && t == #[trigger] arg.skip(k) && (forall|i: int| 0 <= i < k ==> aws(#[trigger] arg[i])) && (k < arg.len() ==> !aws(arg[k])); lem_run_is(arg, f_aws(), k); assert(t == trim0(arg)); }
//@beforeloop 0
    let ghost mut i: int = 0;
    let ghost u = t.skip(1);
    proof { assert(u.skip(0) =~= u); assert(u.take(0) =~= Seq::<char>::empty()); }
//@loop 0
    invariant_except_break iter.s@ == u.skip(i),
    invariant 0 <= i <= u.len(), buf@ == u.take(i), forall|j: int| 0 <= j < i ==> #[trigger] u[j] != terminator, *self.0 == *old(self).0,
        *log == l1, t == trim0(arg), u == t.skip(1), opens(t) == Some(terminator), told(*old(log), l1, self.0, if apart(arg) { 0int } else { 1 }), old(self).0.ok(),
    ensures i < u.len() && u[i] == terminator, //? loop
    ensures i == u.len(), //? while
    decreases u.len() - i,
//@loopstart 0
    proof {
        if i < u.len() { assert(u.skip(i)[0] == u[i]); assert(u.skip(i).skip(1) =~= u.skip(i + 1)); assert(u.take(i).push(u[i]) =~= u.take(i + 1)); if u[i] != terminator { i = i + 1; } else { lem_run_is(u, f_not(terminator), i); } }
        else { lem_run_is(u, f_not(terminator), i); }
    }
//@afterloop 0
    proof { lem_run_is(u, f_not(terminator), i); }
//@before /let mut buf = String::new/
    let ghost l1 = *log;
//@endfn
//@fn l Lexer::parse_define
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@ghostparam Tracked(log): Tracked<&mut Log>
//@requires
    old(self).0.ok(),
//@ensures
    *final(self).0 == *old(self).0,
    match r { Some((n, t)) => define(buf@) == Some((n@, t@)), None => define(buf@) is None },
    told(*old(log), *final(log), old(self).0, if define(buf@) is Some { 0int } else { 1 }),
//@closures /v_aan|is_ascii_alphanumeric/ => |ch: &char| -> (b: bool) ensures b == idc(*ch)
//@closures /v_aws|is_ascii_whitespace/ => |ch: &char| -> (b: bool) ensures b == aws(*ch)
//@start
    let ghost arg = buf@;
//@after /let mut iter = /
    let ghost t = iter.s@;
    proof { let k = choose|k: int| 0 <= k <= arg.len() && t == #[trigger] arg.skip(k) && (forall|i: int| 0 <= i < k ==> aws(#[trigger] arg[i])) && (k < arg.len() ==> !aws(arg[k])); lem_run_is(arg, f_aws(), k); assert(t == trim0(arg)); }
//@beforeloop 0
    let ghost mut i: int = 0;
    proof { assert(t.skip(0) =~= t); assert(t.take(0) =~= Seq::<char>::empty()); }
//@loop 0
    invariant 0 <= i <= t.len(), iter.s@ == t.skip(i), symbol@ == t.take(i), forall|j: int| 0 <= j < i ==> idc(#[trigger] t[j]),
    ensures i < t.len() ==> !idc(t[i]),
    decreases t.len() - i,
//@loopstart 0
    proof { if i < t.len() { assert(t.skip(i)[0] == t[i]); assert(t.skip(i).skip(1) =~= t.skip(i + 1)); assert(t.take(i).push(t[i]) =~= t.take(i + 1)); if idc(t[i]) { i = i + 1; } } }
//@beforeloop 1
    let ghost u = t.skip(i);
    let ghost mut j: int = 0;
    proof { lem_run_is(t, f_idc(), i); assert(u.skip(0) =~= u); }
//@loop 1
    invariant 0 <= j <= u.len(), iter.s@ == u.skip(j), forall|k: int| 0 <= k < j ==> aws(#[trigger] u[k]),
    ensures j < u.len() ==> !aws(u[j]),
    decreases u.len() - j,
//@loopstart 1
    proof { if j < u.len() { assert(u.skip(j)[0] == u[j]); assert(u.skip(j).skip(1) =~= u.skip(j + 1)); if aws(u[j]) { j = j + 1; } } }
//@afterloop 1
    proof { lem_run_is(u, f_aws(), j); }
//@endfn
//@fn l Lexer::read_int
//@ret r
//@subst? /\((mut )?self,/ => (&mut self,
//@opt desugar
//@ghostparam Tracked(log): Tracked<&mut Log>
//@requires
    old(self).0.ok(), all(old(self).0.token(), |c: char| intc(c)),
//@ensures
    match r { Some(l) => says(l, old(self).0.token()), None => value(old(self).0.token()) is None },
    *final(self).0 == *old(self).0, told(*old(log), *final(log), old(self).0, if r is Some { 0int } else { 1 }),
//@start
    proof {
        let t = self.0.token();
        lem_run(t, f_adig());
        let d = after_width(t);
        assert(all(d, |c: char| intc(c)));
        assert(all(after_base(d), |c: char| intc(c)));
        lem_without(after_base(d), '_', |c: char| intc(c));
        let x = without(after_base(d), '_');
        assert(x.len() > 0 ==> intc(x[0]));
        reveal_strlit("");
    }
//@endfn
//@fn l Lexer::read_directive
//@ret r
//@subst? /\((mut )?self,/ => (&mut self,
//@ghostparam Tracked(log): Tracked<&mut Log>
//@requires
    old(self).0.ok(), hash_word(old(self).0.token()),
//@subst /(?s)lazy_static! \{\s*static ref (\w+): Regex = Regex::new\((r?"[^;]*")\)\.unwrap\(\);\s*\}/ => let $1 = v_regex($2);
//@ensures
    final(self).0.longer(old(self).0, line_len(old(self).0.rest(), false)),
    match r { Some(d) => directive(word(old(self).0.token()), line_text(old(self).0.rest(), false)) == Some(dir(d)), None => directive(word(old(self).0.token()), line_text(old(self).0.rest(), false)) is None },
    told(*old(log), *final(log), final(self).0, complaints(word(old(self).0.token()), line_text(old(self).0.rest(), false))),
//@closures /v_aws|is_ascii_whitespace/ => |ch: &char| -> (b: bool) ensures b == aws(*ch)
//@start
    let ghost a = line_text(self.0.rest(), false);
    broadcast use str_ext;
    proof {
        lem_words();
        re_directive(self.0.token());
        assert forall|k: int| 0 <= k <= a.len() && (forall|i: int| 0 <= i < k ==> aws(#[trigger] a[i])) && (k < a.len() ==> !aws(a[k])) implies #[trigger] a.skip(k) == trim0(a) by { lem_run_is(a, f_aws(), k); }
    }
//@endfn
}
} // verus!
fn main() {}
