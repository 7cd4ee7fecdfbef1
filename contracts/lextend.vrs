#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@file a crates/analyzer-core/src/lib.rs
//@file l crates/analyzer-core/src/lexer.rs
//@file b crates/analyzer-core/src/base_abstractions.rs
//@file p crates/analyzer-core/src/preprocessor.rs
//@closureblock a <SpannedIter as Lextensions<'a,'db>>::process_error_tokens 0 vx_scan(db: &Database, file_id: FileId) -> Option<(Token, Span)> => vx_scanner(db, file_id)
//@method a clone v_clone
//@method a to_string v_string
//@method a collect v_collect
//@ghostarg a collect Tracked(log)
//@path a Box::new v_box
//@path a std::iter::once v_once
//@path a std::mem::transmute v_pointer
//@ghostarg a Diagnostics::push Tracked(log)
//@known vx_scan
verus! {
global size_of usize == 8;
//@item p enum PreprocessorQuotationStyle [open]
//@item p enum PreprocessorBinOp [open]
//@item p enum PreprocessorExpression [open]
//@item p enum PreprocessorDirective [open]
//@item l struct Literal [open]
//@item l enum Token [open]
//@item b enum Severity [open]
pub type Span = std::ops::Range<usize>;
#[derive(Clone, Copy)] #[verifier::external_body] pub struct FileId {}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Buffer {}
pub struct Diagnostic { pub file: FileId, pub location: Span, pub severity: Severity, pub message: String }
#[verifier::external_body] pub struct Database {}
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for Span { #[verifier::external_body] fn v_clone(&self) -> (r: Span) { self.clone() } }
pub trait VString { fn v_string(&self) -> String; }
impl VString for str { #[verifier::external_body] fn v_string(&self) -> (r: String) ensures r@ == self@ { self.to_string() } }
pub fn v_box<T>(t: T) -> (r: T) ensures r == t { t }

// ================= what is reported =================
pub type Toks = Seq<(Token, Span)>;
pub ghost struct Report { pub file: FileId, pub location: Span, pub severity: Severity }
/// salsa's accumulated diagnostics, those for tokens without meaning
pub tracked struct Log { pub ghost all: Seq<Report> }
pub open spec fn stray(t: (Token, Span)) -> bool { t.0 is Error }
/// where the stretch of error tokens ends that i is in
pub open spec fn past(ts: Toks, i: int) -> int decreases ts.len() - i { if 0 <= i < ts.len() && stray(ts[i]) { past(ts, i + 1) } else { i } }
pub open spec fn unexpected(file: FileId, from: usize, to: usize) -> Report { Report { file, location: Span { start: from, end: to }, severity: Severity::Error } }
/// one report for each stretch of error tokens from i on, from the start of its first to the end of its last
pub open spec fn stretches(file: FileId, ts: Toks, i: int) -> Seq<Report> decreases ts.len() - i when 0 <= i via dec_stretches {
    if i >= ts.len() { Seq::empty() }
    else if stray(ts[i]) { seq![unexpected(file, ts[i].1.start, ts[past(ts, i) - 1].1.end)] + stretches(file, ts, past(ts, i)) }
    else { stretches(file, ts, i + 1) }
}
#[via_fn] proof fn dec_stretches(file: FileId, ts: Toks, i: int) { if i < ts.len() { lem_past(ts, i); } }
pub proof fn lem_past(ts: Toks, i: int) requires 0 <= i <= ts.len(), ensures i <= past(ts, i) <= ts.len(), i < ts.len() && stray(ts[i]) ==> past(ts, i) > i, decreases ts.len() - i
{ if i < ts.len() && stray(ts[i]) { lem_past(ts, i + 1); } }

// ================= what the scanner does with a token =================
pub open spec fn step(st: Option<Span>, t: (Token, Span)) -> Option<Span> { if !stray(t) { None } else { match st { Some(a) => Some(Span { start: a.start, end: t.1.end }), None => Some(t.1) } } }
pub open spec fn says(file: FileId, st: Option<Span>, t: (Token, Span)) -> Seq<Report> { if stray(t) || st is None { Seq::empty() } else { seq![unexpected(file, st->0.start, st->0.end)] } }
/// all that is reported when the tokens from i on are passed through it
pub open spec fn scanned(file: FileId, ts: Toks, i: int, st: Option<Span>) -> Seq<Report> decreases ts.len() - i {
    if 0 <= i < ts.len() { says(file, st, ts[i]) + scanned(file, ts, i + 1, step(st, ts[i])) } else { Seq::empty() }
}
pub proof fn lem_scanned(file: FileId, ts: Toks, last: (Token, Span), i: int, st: Option<Span>)
    requires 0 <= i <= ts.len(), !stray(last),
    ensures scanned(file, ts.push(last), i, st) == (match st { None => stretches(file, ts, i), Some(a) => seq![unexpected(file, a.start, if past(ts, i) > i { ts[past(ts, i) - 1].1.end } else { a.end })] + stretches(file, ts, past(ts, i)) }),
    decreases ts.len() - i,
{
    let u = ts.push(last);
    lem_past(ts, i);
    if i == ts.len() {
        assert(u[i] == last);
        assert(scanned(file, u, i + 1, step(st, u[i])) =~= Seq::<Report>::empty());
        assert(scanned(file, u, i, st) =~= says(file, st, last));
        assert(stretches(file, ts, i) =~= Seq::<Report>::empty());
        if st is Some { assert(says(file, st, last) =~= seq![unexpected(file, st->0.start, st->0.end)] + stretches(file, ts, past(ts, i))); }
    } else {
        assert(u[i] == ts[i]);
        lem_past(ts, i + 1);
        lem_scanned(file, ts, last, i + 1, step(st, ts[i]));
        if stray(ts[i]) {
            assert(past(ts, i) == past(ts, i + 1));
            assert(scanned(file, u, i, st) =~= scanned(file, u, i + 1, step(st, ts[i])));
        } else {
            assert(past(ts, i) == i);
            assert(stretches(file, ts, i) == stretches(file, ts, i + 1));
            assert(scanned(file, u, i, st) =~= says(file, st, ts[i]) + stretches(file, ts, i));
            if st is None { assert(scanned(file, u, i, st) =~= stretches(file, ts, i)); }
        }
    }
}

// ================= salsa, logos and the adaptors of iterators =================
pub struct Diagnostics {}
impl Diagnostics {
    #[verifier::external_body] pub fn push(db: &Database, d: Diagnostic, Tracked(log): Tracked<&mut Log>)
        ensures final(log).all == old(log).all.push(Report { file: d.file, location: d.location, severity: d.severity }) { unimplemented!() }
}
/// *const dyn Db
#[derive(Clone, Copy)] #[verifier::external_body] pub struct VDbPtr {}
#[verifier::external_body] pub fn v_pointer(db: &Database) -> VDbPtr { unimplemented!() }
pub struct Lextras { pub db: Option<VDbPtr>, pub file_id: FileId }
#[verifier::external_body] pub struct LspFile {}
impl LspFile { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn get_file_content(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
impl Buffer {
    pub uninterp spec fn of(&self) -> LspFile;
    #[verifier::external_body] pub fn file<'a>(&self, db: &'a Database) -> (r: &'a LspFile) ensures *r == self.of() { unimplemented!() }
}
/// the tokens logos reads from a text (unit `lexer`); what its callbacks report, they report for this file, if they have a database
pub uninterp spec fn tokens(text: Seq<char>, file: FileId, reports: bool) -> Toks;
#[verifier::external_body] pub struct LogosLexer<'a> { x: &'a () }
impl<'a> LogosLexer<'a> {
    pub uninterp spec fn toks(&self) -> Toks;
    #[verifier::external_body] pub fn spanned(self) -> (r: SpannedIter<'a>) ensures r.toks@ == self.toks(), r.said@.len() == 0 { unimplemented!() }
}
impl Token { #[verifier::external_body] pub fn lexer_with_extras<'a>(s: &'a str, x: Lextras) -> (r: LogosLexer<'a>) ensures r.toks() == tokens(s@, x.file_id, x.db is Some) { unimplemented!() } }
/// an iterator over tokens, and what passing all of them reports
pub struct SpannedIter<'a> { pub toks: Ghost<Toks>, pub said: Ghost<Seq<Report>>, pub x: &'a () }
/// (for the solver: the term is in sight)
pub open spec fn named(t: Toks) -> bool { true }
pub struct VOnce { pub t: Ghost<(Token, Span)> }
#[verifier::external_body] pub fn v_once(t: (Token, Span)) -> (r: VOnce) ensures r.t@ == t { unimplemented!() }
/// the closure: what it does with one token is the contract of vx_scan
pub struct VScanner<'a> { pub file: FileId, pub db: &'a Database }
pub fn vx_scanner<'a>(db: &'a Database, file_id: FileId) -> (r: VScanner<'a>) ensures r.file == file_id { VScanner { file: file_id, db } }
pub struct VPositions<'a> { pub items: Ghost<Seq<Position<(Token, Span)>>>, pub said: Ghost<Seq<Report>>, pub x: &'a () }
pub enum Position<T> { First(T), Middle(T), Last(T), Only(T) }
impl<T> Position<T> {
    pub open spec fn of(&self) -> T { match *self { Position::First(t) => t, Position::Middle(t) => t, Position::Last(t) => t, Position::Only(t) => t } }
    #[verifier::external_body] pub fn into_inner(self) -> (r: T) ensures r == self.of() { unimplemented!() }
}
pub open spec fn position(ts: Toks, i: int) -> Position<(Token, Span)> { if ts.len() == 1 { Position::Only(ts[i]) } else if i == 0 { Position::First(ts[i]) } else if i == ts.len() - 1 { Position::Last(ts[i]) } else { Position::Middle(ts[i]) } }
pub open spec fn kept(ps: Seq<Position<(Token, Span)>>, g: spec_fn(Position<(Token, Span)>) -> Option<(Token, Span)>) -> Toks decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { let r = kept(ps.drop_last(), g); match g(ps.last()) { Some(t) => r.push(t), None => r } }
}
impl<'a> SpannedIter<'a> {
    #[verifier::external_body] pub fn chain(self, o: VOnce) -> (r: SpannedIter<'a>) ensures r.toks@ == self.toks@.push(o.t@), r.said@ == self.said@ { unimplemented!() }
    /// vx_scan hands on every token, so none is held back
    #[verifier::external_body] pub fn scan<'b>(self, st: Option<Span>, f: VScanner<'b>) -> (r: SpannedIter<'a>) requires self.said@.len() == 0, ensures r.toks@ == self.toks@, r.said@ == scanned(f.file, self.toks@, 0, st) { unimplemented!() }
    #[verifier::external_body] pub fn with_position(self) -> (r: VPositions<'a>)
        ensures r.said@ == self.said@, r.items@.len() == self.toks@.len(), forall|i: int| 0 <= i < r.items@.len() ==> #[trigger] r.items@[i] == position(self.toks@, i), named(kept(r.items@, f_inner())) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Token, Span)>)
        ensures match r { Some(t) => old(self).toks@.len() > 0 && t == old(self).toks@[0] && final(self).toks@ == old(self).toks@.skip(1), None => old(self).toks@.len() == 0 && final(self).toks@ == old(self).toks@ } { unimplemented!() }
}
impl<'a> VPositions<'a> {
    #[verifier::external_body] pub fn filter_map<F: Fn(Position<(Token, Span)>) -> Option<(Token, Span)>>(self, f: F) -> (r: SpannedIter<'a>)
        requires forall|x: Position<(Token, Span)>| f.requires((x,)),
        ensures r.said@ == self.said@, forall|g: spec_fn(Position<(Token, Span)>) -> Option<(Token, Span)>| (forall|x: Position<(Token, Span)>, o: Option<(Token, Span)>| f.ensures((x,), o) ==> o == #[trigger] called(g, x, o)) ==> r.toks@ == #[trigger] kept(self.items@, g) { unimplemented!() }
}
pub open spec fn called(g: spec_fn(Position<(Token, Span)>) -> Option<(Token, Span)>, x: Position<(Token, Span)>, o: Option<(Token, Span)>) -> Option<(Token, Span)> { g(x) }
/// all but the last
pub open spec fn inner(x: Position<(Token, Span)>) -> Option<(Token, Span)> { match x { Position::Last(_) => None, Position::Only(_) => None, Position::First(t) => Some(t), Position::Middle(t) => Some(t) } }
pub open spec fn f_inner() -> spec_fn(Position<(Token, Span)>) -> Option<(Token, Span)> { |x: Position<(Token, Span)>| inner(x) }
pub proof fn lem_kept(ps: Seq<Position<(Token, Span)>>, ts: Toks, n: int)
    requires ps.len() == ts.len(), 0 <= n < ts.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == position(ts, i),
    ensures kept(ps.take(n), f_inner()) == ts.take(n),
    decreases n,
{
    if n > 0 { lem_kept(ps, ts, n - 1); assert(ps.take(n).drop_last() =~= ps.take(n - 1)); assert(ps.take(n).last() == ps[n - 1]); assert(ts.take(n - 1).push(ts[n - 1]) =~= ts.take(n)); }
    else { assert(ts.take(0) =~= Seq::<(Token, Span)>::empty()); }
}
pub proof fn lem_kept_all(ps: Seq<Position<(Token, Span)>>, ts: Toks)
    requires ps.len() == ts.len(), 0 < ts.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == position(ts, i),
    ensures kept(ps, f_inner()) == ts.drop_last(),
{
    let n = ts.len() - 1;
    lem_kept(ps, ts, n);
    assert(ps.drop_last() =~= ps.take(n)); assert(ts.drop_last() =~= ts.take(n)); assert(ps.last() == position(ts, n));
}
pub struct Lextender<'a>(pub SpannedIter<'a>);
impl<'a> Lextender<'a> {
    /// calls next until there is no more
    #[verifier::external_body] pub fn v_collect(self, Tracked(log): Tracked<&mut Log>) -> (r: Vec<(Token, Span)>)
        ensures r@ == self.0.toks@, final(log).all == old(log).all + self.0.said@ { unimplemented!() }
//@fn a <Lextender as Iterator>::next
//@ret r
//@subst /Self::Item/ => (Token, Span)
//@ensures
    match r { Some(t) => old(self).0.toks@.len() > 0 && t == old(self).0.toks@[0] && final(self).0.toks@ == old(self).0.toks@.skip(1), None => old(self).0.toks@.len() == 0 && final(self).0.toks@ == old(self).0.toks@ },
//@endfn
}
#[verifier::external_body] pub struct LexedBuffer {}
impl LexedBuffer { pub uninterp spec fn of(&self) -> Toks; #[verifier::external_body] pub fn new(db: &Database, t: Vec<(Token, Span)>) -> (r: LexedBuffer) ensures r.of() == t@ { unimplemented!() } }

//@fn a vx_scan
//@ret r
//@subst? /&('\w+ )?dyn (crate::)?Db/ => &Database
//@ghostparam Tracked(log): Tracked<&mut Log>
//@ensures
    r == Some(tk), *final(state) == step(*old(state), tk), final(log).all == old(log).all + says(file_id, *old(state), tk),
//@endfn
impl<'a> SpannedIter<'a> {
//@fn a <SpannedIter as Lextensions<'a,'db>>::process_error_tokens
//@ret r
//@subst? /&('\w+ )?dyn (crate::)?Db/ => &Database
//@subst /use itertools::[^;]*;/ =>
//@closures /into_inner|Position::/ => |x: Position<(Token, Span)>| -> (o: Option<(Token, Span)>) ensures o == inner(x)
//@requires
    self.said@.len() == 0,
//@ensures
    r.0.toks@ == self.toks@, r.0.said@ == stretches(file_id, self.toks@, 0),
//@start
    proof {
        let ts = self.toks@;
        assert forall|last: (Token, Span)| !stray(last) implies #[trigger] scanned(file_id, ts.push(last), 0, None) == stretches(file_id, ts, 0) by { lem_scanned(file_id, ts, last, 0, None); }
        assert forall|last: (Token, Span)| (#[trigger] ts.push(last)).drop_last() == ts by { assert(ts.push(last).drop_last() =~= ts); }
        assert forall|ps: Seq<Position<(Token, Span)>>, us: Toks| #![trigger kept(ps, f_inner()), us.drop_last()] ps.len() == us.len() && 0 < us.len() && (forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == position(us, i)) implies kept(ps, f_inner()) == us.drop_last() by { lem_kept_all(ps, us); }
    }
//@endfn
}
//@fn a lex
//@ret r
//@ghostparam Tracked(log): Tracked<&mut Log>
//@subst? /&('\w+ )?dyn (crate::)?Db/ => &Database
//@subst /unsafe \{ (v_pointer\(db\)) \}/ => $1
//@ensures
    r.of() == tokens(buf.of().text(), file_id, true), final(log).all == old(log).all + stretches(file_id, tokens(buf.of().text(), file_id, true), 0),
//@endfn
}
fn main() {}
