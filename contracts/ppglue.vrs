#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::collections::VecDeque;
//@file a crates/analyzer-core/src/lib.rs
//@file l crates/analyzer-core/src/lexer.rs
//@file b crates/analyzer-core/src/base_abstractions.rs
//@file p crates/analyzer-core/src/preprocessor.rs
//@closureblock a preprocess 0 vx_to_id(db: &Database, base: FileId) -> FileId => vx_ids(db, file_id)
//@closureblock a preprocess 0 {FileId} vx_lexemes<'a>(db: &'a Database, fs: Fs) -> Option<&'a Vec<(Token, Span)>> => vx_files(db, fs)
//@method a iter v_iter
//@method a cloned v_cloned
//@method a collect v_collect
//@method a get v_get
//@method a map v_map
//@ghostarg a Diagnostics::push Tracked(log)
//@ghostarg a IncludedDependencies::push Tracked(log)
//@ghostarg a preprocess Tracked(log)
//@known vx_to_id
//@known vx_lexemes
//@known lex
verus! {
global size_of usize == 8;
//@item p enum PreprocessorQuotationStyle [open]
//@item p enum PreprocessorBinOp [open]
//@item p enum PreprocessorExpression [open]
//@item p enum PreprocessorDirective [open]
//@item l struct Literal [open]
//@item l enum Token [open]
//@item b enum Severity [open]
pub type Span = std::ops::Range<usize>;
pub type Toks = Seq<(Token, Span)>;
pub type Tok = (FileId, Token, Span);
#[derive(Clone, Copy)] #[verifier::external_body] pub struct FileId {}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Buffer {}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Fs {}
#[verifier::external_body] pub struct Database {}
pub uninterp spec fn id_of(s: Seq<char>) -> FileId;
/// the path that p means in a file (Database::resolve_path, unit `analyzer`)
pub uninterp spec fn path_in(f: FileId, p: Seq<char>) -> Seq<char>;
impl FileId { #[verifier::external_body] pub fn new(db: &Database, s: String) -> (r: FileId) ensures r == id_of(s@) { unimplemented!() } }
impl Database { #[verifier::external_body] pub fn resolve_path(&self, f: FileId, p: &str) -> (r: String) ensures r@ == path_in(f, p@) { unimplemented!() } }
/// the files the database has
pub struct VFiles { pub m: Ghost<Map<FileId, Buffer>> }
impl VFiles { #[verifier::external_body] pub fn v_get<'a>(&'a self, f: &FileId) -> (r: Option<&'a Buffer>) ensures match r { Some(b) => self.m@.dom().contains(*f) && *b == self.m@[*f], None => !self.m@.dom().contains(*f) } { unimplemented!() } }
impl Fs { pub uninterp spec fn of(&self) -> Map<FileId, Buffer>; #[verifier::external_body] pub fn fs(&self, db: &Database) -> (r: VFiles) ensures r.m@ == self.of() { unimplemented!() } }
/// what lex gives (unit `lextend`)
pub uninterp spec fn lexed_of(i: FileId, b: Buffer) -> Toks;
#[verifier::external_body] pub struct LexedBuffer {}
impl LexedBuffer { pub uninterp spec fn of(&self) -> Toks; #[verifier::external_body] pub fn lexemes<'a>(&self, db: &'a Database) -> (r: &'a Vec<(Token, Span)>) ensures r@ == self.of() { unimplemented!() } }
#[verifier::external_body] pub fn lex(db: &Database, i: FileId, b: Buffer) -> (r: &LexedBuffer) ensures r.of() == lexed_of(i, b) { unimplemented!() }
// ---- what is accumulated ----
pub ghost struct Report { pub file: FileId, pub location: Span, pub severity: Severity, pub message: String }
pub ghost struct Wanted { pub file: FileId, pub there: bool }
pub tracked struct Log { pub ghost reports: Seq<Report>, pub ghost wanted: Seq<Wanted> }
pub struct Diagnostic { pub file: FileId, pub location: Span, pub severity: Severity, pub message: String }
//@item b struct IncludedDependency [open]
pub struct Diagnostics {}
impl Diagnostics { #[verifier::external_body] pub fn push(db: &Database, d: Diagnostic, Tracked(log): Tracked<&mut Log>)
    ensures final(log).wanted == old(log).wanted, final(log).reports == old(log).reports.push(Report { file: d.file, location: d.location, severity: d.severity, message: d.message }) { unimplemented!() } }
pub struct IncludedDependencies {}
impl IncludedDependencies { #[verifier::external_body] pub fn push(db: &Database, d: IncludedDependency, Tracked(log): Tracked<&mut Log>)
    ensures final(log).reports == old(log).reports, final(log).wanted == old(log).wanted.push(Wanted { file: d.file_id, there: d.is_resolved }) { unimplemented!() } }
// ---- the preprocessor (units `ppexpr`, `pp`) and its two callbacks, each of which is a function below ----
pub ghost struct Env { pub base: FileId, pub files: Map<FileId, Buffer> }
pub struct VIds { pub base: Ghost<FileId> }
pub struct VLexes { pub files: Ghost<Map<FileId, Buffer>> }
#[verifier::external_body] pub fn vx_ids(db: &Database, f: FileId) -> (r: VIds) ensures r.base@ == f { unimplemented!() }
#[verifier::external_body] pub fn vx_files(db: &Database, fs: Fs) -> (r: VLexes) ensures r.files@ == fs.of() { unimplemented!() }
pub struct PreprocessorState { pub errors: Vec<((FileId, Span), String)>, pub env: Ghost<Env> }
/// the preprocessed tokens, the errors, and the files that were looked for
pub uninterp spec fn result_of(e: Env, input: Seq<Tok>) -> Seq<Tok>;
pub uninterp spec fn errors_of(e: Env, input: Seq<Tok>) -> Seq<((FileId, Span), String)>;
pub uninterp spec fn asked_of(e: Env, input: Seq<Tok>) -> Seq<FileId>;
pub open spec fn wants(e: Env, input: Seq<Tok>) -> Seq<Wanted> { asked_of(e, input).map_values(|f: FileId| Wanted { file: f, there: e.files.dom().contains(f) }) }
impl PreprocessorState {
    #[verifier::external_body] pub fn new(ids: VIds, files: VLexes) -> (r: PreprocessorState) ensures r.errors@.len() == 0, r.env@ == (Env { base: ids.base@, files: files.files@ }) { unimplemented!() }
    #[verifier::external_body] pub fn preprocess(&mut self, input: &mut VecDeque<Tok>, Tracked(log): Tracked<&mut Log>) -> (r: Vec<Tok>)
        requires old(self).errors@.len() == 0, forall|i: int| 0 <= i < old(input)@.len() ==> (#[trigger] old(input)@[i]).0 == old(input)@[0].0,
        ensures r@ == result_of(old(self).env@, old(input)@), final(self).errors@ == errors_of(old(self).env@, old(input)@), final(log).reports == old(log).reports, final(log).wanted == old(log).wanted + wants(old(self).env@, old(input)@) { unimplemented!() }
}
// ---- iterators ----
pub struct VToks<T> { pub s: Ghost<Seq<T>>, pub x: Vec<T> }
pub trait VIter { fn v_iter(&self) -> VToks<(Token, Span)>; }
impl VIter for Vec<(Token, Span)> { #[verifier::external_body] fn v_iter(&self) -> (r: VToks<(Token, Span)>) ensures r.s@ == self@ { unimplemented!() } }
impl<T> VToks<T> {
    pub fn v_cloned(self) -> (r: VToks<T>) ensures r == self { self }
    #[verifier::external_body] pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VToks<U>)
        requires forall|x: T| f.requires((x,)),
        ensures r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < r.s@.len() ==> f.ensures((self.s@[i],), #[trigger] r.s@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn v_collect(self) -> (r: VecDeque<T>) ensures r@ == self.s@ { unimplemented!() }
}
pub open spec fn from_file(f: FileId, s: Toks) -> Seq<Tok> { s.map_values(|x: (Token, Span)| (f, x.0, x.1)) }
pub open spec fn told(e: Seq<((FileId, Span), String)>) -> Seq<Report> { e.map_values(|x: ((FileId, Span), String)| Report { file: x.0.0, location: x.0.1, severity: Severity::Error, message: x.1 }) }
} // verus!
verus! {
/// `base`: the file that is preprocessed
//@fn a vx_to_id
//@ret r
//@subst? /\bfile_id\b/ => base
//@ensures
    r == id_of(path_in(base, path@)),
//@endfn
//@fn a vx_lexemes
//@ret r
//@opt desugar
//@ghostparam Tracked(log): Tracked<&mut Log>
//@ensures
    match r { Some(v) => fs.of().dom().contains(file_id) && v@ == lexed_of(file_id, fs.of()[file_id]), None => !fs.of().dom().contains(file_id) },
    final(log).reports == old(log).reports, final(log).wanted == old(log).wanted.push(Wanted { file: file_id, there: r is Some }),
//@endfn
//@fn a preprocess
//@ret r
//@ghostparam Tracked(log): Tracked<&mut Log>
//@subst? /&dyn (crate::)?Db/ => &Database
//@subst? /dbg!\([^;]*\);/ =>
//@closure 0 |vx_p0: (Token, Span)| -> (r: Tok) ensures r == (file_id, vx_p0.0, vx_p0.1)
//@ensures
    r is Some <==> fs.of().dom().contains(file_id),
    ({ let e = Env { base: file_id, files: fs.of() }; let t = from_file(file_id, lexed_of(file_id, fs.of()[file_id]));
       if r is Some { r->0@ == result_of(e, t) && final(log).reports == old(log).reports + told(errors_of(e, t)) && final(log).wanted == old(log).wanted + wants(e, t) } else { *final(log) == *old(log) } }),
//@loop 0 iter it
    invariant it.seq() == errs, log.wanted == w1, log.reports == r0 + told(errs.take(it.index())),
//@beforeloop 0
    let ghost errs = pp.errors@;
    let ghost pp0 = pp.errors@;
    let ghost r0 = log.reports;
    let ghost w1 = log.wanted;
    proof { assert(told(errs.take(0)) =~= Seq::<Report>::empty()); assert(r0 + told(errs.take(0)) =~= r0); }
//@loopend 0
    proof { let k = it.index(); assert(told(errs.take(k)).push(told(errs)[k]) =~= told(errs.take(k + 1))); }
//@afterloop 0
    proof { assert(errs.take(errs.len() as int) =~= errs); }
//@before /let result/
    proof { assert(input@ =~= from_file(file_id, lexed_of(file_id, fs.m@[file_id]))); }
//@endfn
}
fn main() {}
