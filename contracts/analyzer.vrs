#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@file a crates/analyzer-core/src/lib.rs
//@file b crates/analyzer-core/src/base_abstractions.rs
//@file f crates/analyzer-core/src/lsp_file.rs
//@method a as_str v_as_str
//@method a unwrap_or_default v_or_default
//@method a copied v_copied
//@method a into v_into
//@method a to_string v_str
//@method a keys v_keys
//@method a collect v_collect
//@path a Box::new v_box
//@path a Default::default v_none
//@path a lex::accumulated::<Diagnostics> lex_diagnostics
//@path a preprocess::accumulated::<Diagnostics> preprocess_diagnostics
//@path a preprocess::accumulated::<IncludedDependencies> included
//@path a Box<dynFn(&str,&str)->Result<String,String>+'static> Resolver
//@known lex
//@known preprocess
//@method a filter v_filter
//@method a iter v_iter
//@method a append v_append
//@method a as_ref v_as_ref
//@path a Box<dynFn(&str)->()+'static> Require
verus! {
pub trait VAsStr { fn v_as_str(&self) -> (r: &str); }
impl VAsStr for str { fn v_as_str(&self) -> (r: &str) ensures r@ == self@ { self } }
global size_of usize == 8;
//@include prelude_hmap.vrs
pub trait VStr { fn v_str(&self) -> String; }
impl VStr for str { #[verifier::external_body] fn v_str(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
// ---- the text of a file and its edits (C01) ----
//@item f struct Position [derive=Copy,Clone open]
//@item f struct Range [derive=Copy,Clone open]
//@item f struct ChangeEvent [open]
#[verifier::external_body] pub struct LspFile {}
/// the edit is not reversed and the text stays within the address space
pub uninterp spec fn applies(t: Seq<char>, e: ChangeEvent) -> bool;
/// the text with the addressed range replaced (C01)
pub uninterp spec fn edited(t: Seq<char>, e: ChangeEvent) -> Seq<char>;
pub open spec fn all_apply(t: Seq<char>, es: Seq<ChangeEvent>) -> bool decreases es.len()
{ if es.len() == 0 { true } else { all_apply(t, es.drop_last()) && applies(all_edited(t, es.drop_last()), es.last()) } }
pub open spec fn all_edited(t: Seq<char>, es: Seq<ChangeEvent>) -> Seq<char> decreases es.len()
{ if es.len() == 0 { t } else { edited(all_edited(t, es.drop_last()), es.last()) } }
pub proof fn lem_prefix(t: Seq<char>, es: Seq<ChangeEvent>, k: int) requires 0 <= k <= es.len(), all_apply(t, es), ensures all_apply(t, es.take(k)), k < es.len() ==> applies(all_edited(t, es.take(k)), es[k]) && all_edited(t, es.take(k + 1)) == edited(all_edited(t, es.take(k)), es[k]), decreases es.len() - k
{
    if k == es.len() { assert(es.take(k) =~= es); } else { lem_prefix(t, es, k + 1); assert(es.take(k + 1).drop_last() =~= es.take(k)); assert(es.take(k + 1).last() == es[k]); }
}
impl LspFile {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(t: &String) -> (r: LspFile) ensures r.text() == t@ { unimplemented!() }
    #[verifier::external_body] pub fn get_file_content(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn lazy_add(&mut self, e: &ChangeEvent) requires applies(old(self).text(), *e), ensures final(self).text() == edited(old(self).text(), *e) { unimplemented!() }
}
impl Clone for LspFile { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- salsa: inputs that are never set keep what they were made with; interned values are equal exactly if their fields are ----
pub struct Database { pub resolver_fn: Resolver }
impl Database { #[verifier::external_body] pub fn new<F: Fn(&str, &str) -> Result<String, String>>(f: F) -> Database { unimplemented!() } }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct FileId {}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Buffer {}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Fs {}
impl FileId {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(db: &Database, s: String) -> (r: FileId) ensures r == id_of(s@) { unimplemented!() }
    #[verifier::external_body] pub fn path(&self, db: &Database) -> (r: String) ensures r@ == self.name() { unimplemented!() }
}
pub uninterp spec fn id_of(s: Seq<char>) -> FileId;
pub broadcast axiom fn ax_interned(s: Seq<char>) ensures (#[trigger] id_of(s)).name() == s;
pub broadcast axiom fn ax_named(i: FileId) ensures id_of(#[trigger] i.name()) == i;
impl HKey for FileId { type A = FileId; open spec fn key(&self) -> FileId { *self } }
impl Buffer {
    pub uninterp spec fn of(&self) -> LspFile;
    #[verifier::external_body] pub fn new(db: &Database, f: LspFile) -> (r: Buffer) ensures r.of() == f { unimplemented!() }
    #[verifier::external_body] pub fn file<'a>(&self, db: &'a Database) -> (r: &'a LspFile) ensures *r == self.of() { unimplemented!() }
}
impl Fs {
    pub uninterp spec fn of(&self) -> Map<FileId, Buffer>;
    #[verifier::external_body] pub fn new(db: &Database, m: HashMap<FileId, Buffer>) -> (r: Fs) ensures r.of() == m@ { unimplemented!() }
    #[verifier::external_body] pub fn fs(&self, db: &Database) -> (r: HashMap<FileId, Buffer>) ensures r@ == self.of() { unimplemented!() }
}
// ---- std ----
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](x: Result<T, E>, f: F) -> (r: T)
    requires x matches Err(e) ==> f.requires((e,)),
    ensures x matches Ok(v) ==> r == v, x matches Err(e) ==> f.ensures((e,), r);
impl Fs { pub fn v_into(self) -> (r: Option<Fs>) ensures r == Some(self) { Some(self) } }
#[verifier::external_body] pub struct Require {}
pub trait VOrDefault<T> { fn v_or_default(self) -> T; }
impl VOrDefault<HashMap<FileId, Buffer>> for Option<HashMap<FileId, Buffer>> {
    #[verifier::external_body] fn v_or_default(self) -> (r: HashMap<FileId, Buffer>) ensures r@ == (match self { Some(m) => m@, None => Map::empty() }) { unimplemented!() }
}
pub trait VCopied<T> { fn v_copied(self) -> Option<T>; }
impl<'a> VCopied<Buffer> for Option<&'a Buffer> { #[verifier::external_body] fn v_copied(self) -> (r: Option<Buffer>) ensures r == (match self { Some(b) => Some(*b), None => None }) { unimplemented!() } }
//@item b struct IncludedDependency [open]
#[verifier::external_body] pub struct Diagnostic {}
#[verifier::external_body] pub struct Token {}
#[verifier::external_body] pub struct LexedBuffer {}
pub type Span = std::ops::Range<usize>;
// ---- the queries: what they give depends on the texts alone ----
pub uninterp spec fn lexed_of(i: FileId, b: Buffer) -> Seq<(Token, Span)>;
pub uninterp spec fn lex_errors(i: FileId, b: Buffer) -> Seq<Diagnostic>;
pub uninterp spec fn pre_of(m: Map<FileId, Buffer>, i: FileId) -> Seq<(FileId, Token, Span)>;
pub uninterp spec fn pre_errors(m: Map<FileId, Buffer>, i: FileId) -> Seq<Diagnostic>;
pub uninterp spec fn includes_of(m: Map<FileId, Buffer>, i: FileId) -> Seq<IncludedDependency>;
impl LexedBuffer { pub uninterp spec fn of(&self) -> Seq<(Token, Span)>; #[verifier::external_body] pub fn lexemes<'a>(&self, db: &'a Database) -> (r: &'a Vec<(Token, Span)>) ensures r@ == self.of() { unimplemented!() } }
#[verifier::external_body] pub fn lex(db: &Database, i: FileId, b: Buffer) -> (r: &LexedBuffer) ensures r.of() == lexed_of(i, b) { unimplemented!() }
#[verifier::external_body] pub fn preprocess(db: &Database, fs: Fs, i: FileId) -> (r: &Option<Vec<(FileId, Token, Span)>>)
    ensures match *r { Some(v) => fs.of().dom().contains(i) && v@ == pre_of(fs.of(), i), None => !fs.of().dom().contains(i) } { unimplemented!() }
#[verifier::external_body] pub fn lex_diagnostics(db: &Database, i: FileId, b: Buffer) -> (r: Vec<Diagnostic>) ensures r@ == lex_errors(i, b) { unimplemented!() }
#[verifier::external_body] pub fn preprocess_diagnostics(db: &Database, fs: Fs, i: FileId) -> (r: Vec<Diagnostic>) ensures r@ == pre_errors(fs.of(), i) { unimplemented!() }
#[verifier::external_body] pub fn included(db: &Database, fs: Fs, i: FileId) -> (r: Vec<IncludedDependency>) ensures r@ == includes_of(fs.of(), i) { unimplemented!() }
impl VOrDefault<Vec<IncludedDependency>> for Option<Vec<IncludedDependency>> {
    #[verifier::external_body] fn v_or_default(self) -> (r: Vec<IncludedDependency>) ensures r@ == (match self { Some(v) => v@, None => Seq::empty() }) { unimplemented!() }
}
pub trait VAsRef<T> { fn v_as_ref<'a>(&'a self) -> Option<&'a T>; }
impl<T> VAsRef<T> for Option<T> { #[verifier::external_body] fn v_as_ref<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(x) => *self == Some(*x), None => *self is None } { unimplemented!() } }
pub trait VAppend<T>: Sized { spec fn vv(&self) -> Seq<T>; fn v_append(&mut self, o: &mut Vec<T>) ensures final(self).vv() == old(self).vv() + old(o)@; }
impl<T> VAppend<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_append(&mut self, o: &mut Vec<T>) { unimplemented!() } }
/// what has been asked to be loaded
pub tracked struct World { pub ghost required: Set<Seq<char>> }
impl Require { #[verifier::external_body] pub fn call(&self, Tracked(w): Tracked<&mut World>, path: &String) ensures final(w).required == old(w).required.insert(path@) { unimplemented!() } }
#[verifier::external_body] pub struct Resolver {}
impl Resolver { #[verifier::external_body] pub fn call(&self, base: &String, p: &str) -> (r: Result<String, String>) ensures match r { Ok(x) => resolved(base@, p@) == Some(x@), Err(_) => resolved(base@, p@) is None } { unimplemented!() } }
#[verifier::external_body] pub fn v_box<F: Fn(&str) -> ()>(f: F) -> Require { unimplemented!() }
pub fn v_none() -> (r: Option<Fs>) ensures r is None { None }
pub uninterp spec fn resolved(base: Seq<char>, p: Seq<char>) -> Option<Seq<char>>;
/// the elements of a vector, by value, as Verus ends the life of a `for`'s temporaries before its body
pub trait VIter<T>: Sized { spec fn vs(&self) -> Seq<T>; fn v_iter(&self) -> (r: Vec<T>) ensures r@ == self.vs(); }
impl VIter<IncludedDependency> for Vec<IncludedDependency> { open spec fn vs(&self) -> Seq<IncludedDependency> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<IncludedDependency>) { unimplemented!() } }
/// the elements a closure accepts, in their order
pub trait VFilter<T>: Sized {
    spec fn els(&self) -> Seq<T>;
    fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|x: &T| f.requires((x,)),
        ensures forall|i: int| 0 <= i < r@.len() ==> self.els().contains(#[trigger] r@[i]) && f.ensures((&r@[i],), true),
            forall|x: T| self.els().contains(x) ==> #[trigger] r@.contains(x) || f.ensures((&x,), false);
}
impl<T> VFilter<T> for Vec<T> {
    open spec fn els(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() }
}
//@item a struct Analyzer [open]
impl Analyzer {
    /// the text of every file it knows
    pub open spec fn texts(&self) -> Map<FileId, Seq<char>> { match self.fs { Some(fs) => fs.of().map_values(|b: Buffer| b.of().text()), None => Map::empty() } }
}
} // verus!
verus! {
impl Buffer {
//@fn b Buffer::from_string
//@ret r
//@ensures
    r.of().text() == file@,
//@endfn
}
impl Database {
//@fn a <Database as Db>::resolve_path
//@ret r
//@opt novac
//@closure 0 |vx_p0: String| -> (r: String) ensures r@ == path@
//@subst /\(self\.resolver_fn\)\(/ => self.resolver_fn.call(
//@ensures
    // a path that cannot be resolved is kept
    r@ == (match resolved(file_id.name(), path@) { Some(p) => p, None => path@ }),
//@endfn
}
impl Analyzer {
//@fn a Analyzer::new
//@ret r
//@ensures
    r.texts() == Map::<FileId, Seq<char>>::empty(),
//@endfn
//@fn a Analyzer::filesystem
//@ret r
//@opt desugar
//@ensures
    r@ == (match self.fs { Some(fs) => fs.of(), None => Map::empty() }),
//@endfn
//@fn a Analyzer::file_change_event
//@requires
    old(self).texts().dom().contains(file_id), all_apply(old(self).texts()[file_id], event_vec@),
//@ensures
    final(self).texts() =~= old(self).texts().insert(file_id, all_edited(old(self).texts()[file_id], event_vec@)),
//@start
    let ghost t = self.texts()[file_id];
//@loop 0 iter it
    invariant
        it.seq() == event_vec@.map_values(|e: ChangeEvent| &e), all_apply(t, event_vec@), lsp_file.text() == all_edited(t, event_vec@.take(it.index())),
//@loopstart 0
    proof { lem_prefix(t, event_vec@, it.index()); }
//@afterloop 0
    proof { assert(event_vec@.take(event_vec@.len() as int) =~= event_vec@); }
//@endfn
//@fn a Analyzer::update
//@ensures
    final(self).texts() =~= old(self).texts().insert(file_id, input@),
//@endfn
//@fn a Analyzer::input
//@ret r
//@opt desugar
//@ensures
    match r { Some(t) => self.texts().dom().contains(file_id) && t@ == self.texts()[file_id], None => !self.texts().dom().contains(file_id) },
//@endfn
//@fn a Analyzer::buffer
//@ret r
//@ensures
    match r { Some(b) => self.texts().dom().contains(file_id) && b.of().text() == self.texts()[file_id], None => !self.texts().dom().contains(file_id) },
//@endfn
//@fn a Analyzer::delete
//@ret r
//@opt desugar
//@ensures
    final(self).texts() =~= old(self).texts().remove(id_of(uri@)), r is Some <==> old(self).texts().dom().contains(id_of(uri@)),
//@endfn
//@fn a Analyzer::file_id
//@ret r
//@ensures
    r == id_of(uri@),
//@endfn
//@fn a Analyzer::path
//@ret r
//@ensures
    r@ == id.name(),
//@endfn
//@fn a Analyzer::lexed
//@ret r
//@ensures
    match r { Some(v) => self.fs is Some && self.fs->0.of().dom().contains(file_id) && v@ == lexed_of(file_id, self.fs->0.of()[file_id]), None => !self.texts().dom().contains(file_id) },
//@endfn
//@fn a Analyzer::include_dependencies
//@ret r
//@opt desugar
//@ensures
    r@ == (match self.fs { Some(fs) => includes_of(fs.of(), id), None => Seq::empty() }),
//@endfn
//@fn a Analyzer::preprocessed
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@subst /\(self\.require_fn\)\(/ => self.require_fn.call(Tracked(w), 
//@closure 0 |vx_p0: &IncludedDependency| -> (b: bool) ensures b == !vx_p0.is_resolved
//@ensures
    match r { Some(v) => self.texts().dom().contains(file_id) && v@ == pre_of(self.fs->0.of(), file_id), None => !self.texts().dom().contains(file_id) },
    old(w).required.subset_of(final(w).required),
    // every include that has not been found is asked for
    self.fs matches Some(fs) ==> forall|i: int| 0 <= i < includes_of(fs.of(), file_id).len() ==> (#[trigger] includes_of(fs.of(), file_id)[i]).is_resolved || final(w).required.contains(includes_of(fs.of(), file_id)[i].file_id.name()),
//@loop 0 iter it
    invariant
        forall|k: int| 0 <= k < it.index() ==> w.required.contains((#[trigger] it.seq()[k]).file_id.name()), old(w).required.subset_of(w.required), self.fs is Some,
        forall|i: int| 0 <= i < includes_of(self.fs->0.of(), file_id).len() ==> (#[trigger] includes_of(self.fs->0.of(), file_id)[i]).is_resolved || it.seq().contains(includes_of(self.fs->0.of(), file_id)[i]),
//@endfn
//@fn a Analyzer::diagnostics
//@ret r
//@ensures
    r@ == (match self.fs { Some(fs) if fs.of().dom().contains(id) => lex_errors(id, fs.of()[id]) + pre_errors(fs.of(), id), _ => Seq::empty() }),
//@endfn
//@fn a Analyzer::get_file
//@ret r
//@requires
    self.texts().dom().contains(id),
//@ensures
    r.text() == self.texts()[id],
//@endfn
}
}
fn main() {}
