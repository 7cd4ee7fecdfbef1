#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::sync::Arc;
use std::task::Poll;
//@file w crates/analyzer-host/src/lsp/workspace.rs
//@file s crates/analyzer-host/src/lsp_impl/state.rs
//@file h crates/analyzer-host/src/lsp_impl/active_initialized.rs
//@file u crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
//@file st crates/analyzer-host/src/lsp_impl/state.rs
//@file wm crates/analyzer-host/src/lsp/workspace.rs
//@file f crates/analyzer-core/src/lsp_file.rs
//@asyncblock s State::process_background_analyze_requests 0 vx_load(file_url: Url, file_system: Arc<AnyEnumerableFileSystem>, workspace_manager: WorkspaceManager, analyzer: Arc<AnalyzerWrapper>) => vx_task(file_url, file_system, workspace_manager, analyzer)
//@path w error! ()
//@path w info! ()
//@path s info! ()
//@path h error! ()
//@path h info! ()
//@path w drop v_drop
//@path w format! v_shown()
//@path w RELATIVE_P4_SOURCEFILES_GLOBPATTERN v_pattern()
//@path s AsyncPool::spawn_work spawn_work
//@path st AsyncPool::spawn_work spawn_work
//@path st State::process_background_analyze_requests vx_loader
//@method st clone v_clone
//@method s contains v_contains
//@method st replace v_replace
//@ghostarg st AsyncPool::spawn_work Tracked(w)
//@method s file_contents v_contents
//@ghostarg w entry Tracked(w)
//@ghostarg w contains_key Tracked(w)
//@ghostarg w write_files Tracked(w)
//@ghostarg w index Tracked(w), Tracked(db)
//@path h core::Range cf::Range
//@path h core::Position cf::Position
//@path w Option<async_rwlock::RwLockWriteGuard<FileState>> Option<&mut FileState>
//@path w FutureCompletionSource::<Arc<RwLock<ParsedUnit>>,IndexError>::new FutureCompletionSource::new
//@method w into v_into
//@method w clone v_clone
//@method s clone v_clone
//@method h clone v_clone
//@method h get_parsed_unit.await -
//@method w .await v_await
//@method h .await v_await
//@method s .await v_await
//@method s unwrap v_unwrap
//@method h unwrap v_unwrap
//@method h unwrap_or_default v_or_default
//@method h to_string v_str
//@method h into_iter v_iter
//@method h map v_map
//@method h collect v_collect
//@method w starts_with v_starts_with
//@method w strip_prefix v_strip_prefix
//@method w trim_end_matches v_trim_end_matches
//@method w into_iter v_entries
//@method w find v_find
//@path s async_channel::unbounded::<Url> v_channel
//@ghostarg w AsyncRwLock::new Tracked(w)
//@ghostarg w RwLock::new Tracked(w)
//@ghostarg w FutureCompletionSource::new Tracked(w)
//@ghostarg w FutureCompletionSource::new_with_value Tracked(w)
//@ghostarg w File::new Tracked(w)
//@ghostarg w state Tracked(w)
//@ghostarg w set_value Tracked(w)
//@ghostarg w set_err Tracked(w)
//@ghostarg w write Tracked(w)
//@ghostarg w read Tracked(w)
//@ghostarg w try_read Tracked(w)
//@ghostarg w try_write Tracked(w)
//@ghostarg w drop Tracked(w)
//@ghostarg w v_await Tracked(w), Tracked(db)
//@ghostarg w insert Tracked(w)
//@ghostarg w load Tracked(w)
//@ghostarg w get_file Tracked(w)
//@ghostarg w set_parsed_unit Tracked(w)
//@ghostarg s unwrap Tracked(db)
//@ghostarg h unwrap Tracked(db)
//@ghostarg s v_await Tracked(w), Tracked(db)
//@ghostarg h v_await Tracked(w), Tracked(db)
//@ghostarg s get_file Tracked(w)
//@ghostarg h get_file Tracked(w)
//@ghostarg h is_open_in_ide Tracked(w)
//@ghostarg s is_open_in_ide Tracked(w)
//@ghostarg s set_parsed_unit Tracked(w)
//@ghostarg h set_parsed_unit Tracked(w)
//@ghostarg s set_index_error Tracked(w)
//@ghostarg h open_or_update Tracked(w)
//@ghostarg h close Tracked(w)
//@ghostarg h get_parsed_unit Tracked(w), Tracked(db)
//@ghostarg h created_file Tracked(w), Tracked(db), Ghost(c)
//@ghostarg h deleted_file Tracked(w), Tracked(db), Ghost(c)
//@ghostarg s analyze_source_text Tracked(db)
//@ghostarg s AsyncPool::spawn_work Tracked(w)
//@known process_diagnostics
//@known create_initialize_result
//@method wm clone v_clone
//@method wm map_or_else v_map_or_else
//@method wm into_iter v_iter
//@method wm map v_map
//@method wm collect v_folders
//@method wm to_string v_str
//@method u clone v_clone
//@method u .await v_await
//@ghostarg u v_await Tracked(w), Tracked(db)
//@ghostarg u initialize_client_dependant_state Tracked(w), Tracked(db)
//@ghostarg u set_workspaces Tracked(w)
verus! {
global size_of usize == 8;
#[verifier::external_type_specification] #[verifier::accept_recursive_types(T)] pub struct ExPoll<T>(Poll<T>);
pub trait HKey { type A; spec fn key(&self) -> Self::A; }
// ---- strings, clones ----
pub trait VPat { spec fn pv(&self) -> Seq<char>; }
impl VPat for &str { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
pub trait VStr { fn v_str(&self) -> String; spec fn sv(&self) -> Seq<char>;
    fn v_contains<P: VPat>(&self, p: P) -> bool;
    fn v_starts_with<P: VPat>(&self, p: P) -> (b: bool) ensures b == starts(self.sv(), p.pv());
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures match r { Some(x) => starts(self.sv(), p.pv()) && x@ == self.sv().skip(p.pv().len() as int), None => !starts(self.sv(), p.pv()) };
    fn v_trim_end_matches(&self, c: char) -> (r: &str) ensures r@ == trimmed(self.sv(), c); }
impl VStr for str { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_str(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() } }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
/// Clone of the types in this unit gives the same value (for FutureCompletionSource, Arc, channels: the same shared thing; for a HashMap: the same order too)
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VOrDefault<T> { fn v_or_default(self) -> T; }
impl VOrDefault<String> for Option<String> { #[verifier::external_body] fn v_or_default(self) -> (r: String) ensures r@ == (match self { Some(t) => t@, None => Seq::empty() }) { unimplemented!() } }
// ---- lsp_types ----
#[verifier::external_body] pub struct Url {}
#[verifier::external_body] #[derive(Debug)] pub struct ParseError {}
impl HKey for Url { type A = Seq<char>; open spec fn key(&self) -> Seq<char> { self.text() } }
impl Url {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &str) { unimplemented!() }
}
pub struct TextDocumentIdentifier { pub uri: Url }
pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
pub struct Position { pub line: u32, pub character: u32 }
pub struct Range { pub start: Position, pub end: Position }
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
pub struct DidSaveTextDocumentParams { pub text_document: TextDocumentIdentifier, pub text: Option<String> }
/// lsp_types has a number here, with three named values
pub enum FileChangeType { CREATED, CHANGED, DELETED, Other(i32) }
pub struct FileEvent { pub uri: Url, pub typ: FileChangeType }
pub struct DidChangeWatchedFilesParams { pub changes: Vec<FileEvent> }
pub struct WorkspaceFolder { pub uri: Url, pub name: String }
pub struct InitializeParams { pub workspace_folders: Option<Vec<WorkspaceFolder>>, pub capabilities: ClientCapabilities, pub trace: Option<TraceValue> }
pub struct ClientCapabilities { pub workspace: Option<WorkspaceClientCapabilities>, pub window: Option<WindowClientCapabilities> }
pub struct WorkspaceClientCapabilities { pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities> }
pub struct DidChangeWatchedFilesClientCapabilities { pub dynamic_registration: Option<bool> }
pub struct WindowClientCapabilities { pub work_done_progress: Option<bool> }
#[verifier::external_body] pub struct TraceValue {}
#[verifier::external_body] pub struct InitializeResult {}
#[verifier::external_body] pub fn create_initialize_result(f: bool) -> InitializeResult { unimplemented!() }
pub open spec fn watches(c: ClientCapabilities) -> bool { c.workspace matches Some(x) && x.did_change_watched_files is Some }
pub trait VMapOrElse<T>: Sized { spec fn vm(&self) -> Option<T>; fn v_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)
    requires match self.vm() { Some(x) => f.requires((x,)), None => d.requires(()) }, ensures match self.vm() { Some(x) => f.ensures((x,), r), None => d.ensures((), r) }; }
impl<T> VMapOrElse<T> for Option<T> { open spec fn vm(&self) -> Option<T> { *self } #[verifier::external_body] fn v_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) { unimplemented!() } }
#[derive(Clone, Copy)] pub struct LspServerState {}
#[verifier::external_body] pub struct HandlerError {}
impl HandlerError {
    #[verifier::external_body] pub fn new(m: &'static str) -> HandlerError { unimplemented!() }
    #[verifier::external_body] pub fn new_with_data<T>(m: &'static str, d: Option<T>) -> HandlerError { unimplemented!() }
}
pub type HandlerResult<T> = Result<T, HandlerError>;
// ---- the text of a file and its edits (C01) ----
pub mod cf { use super::*;
//@item f struct Position [derive=Copy,Clone open]
//@item f struct Range [derive=Copy,Clone open]
//@item f struct ChangeEvent [open]
}
pub use cf::ChangeEvent;
pub uninterp spec fn applies(t: Seq<char>, e: ChangeEvent) -> bool;
pub uninterp spec fn edited(t: Seq<char>, e: ChangeEvent) -> Seq<char>;
pub open spec fn all_apply(t: Seq<char>, es: Seq<ChangeEvent>) -> bool decreases es.len()
{ if es.len() == 0 { true } else { all_apply(t, es.drop_last()) && applies(all_edited(t, es.drop_last()), es.last()) } }
pub open spec fn all_edited(t: Seq<char>, es: Seq<ChangeEvent>) -> Seq<char> decreases es.len()
{ if es.len() == 0 { t } else { edited(all_edited(t, es.drop_last()), es.last()) } }
pub open spec fn meant_range(r: Range) -> cf::Range { cf::Range { start: cf::Position { line: r.start.line as usize, character: r.start.character as usize }, end: cf::Position { line: r.end.line as usize, character: r.end.character as usize } } }
/// what the editor's change is to the text: the same range (as numbers), the same replacement
pub open spec fn meant(e: TextDocumentContentChangeEvent) -> ChangeEvent {
    ChangeEvent { text: e.text, range: match e.range { None => None, Some(r) => Some(meant_range(r)) } }
}
pub open spec fn all_meant(es: Seq<TextDocumentContentChangeEvent>) -> Seq<ChangeEvent> { es.map_values(|e: TextDocumentContentChangeEvent| meant(e)) }
pub broadcast proof fn changes_meant(s: Seq<TextDocumentContentChangeEvent>, t: Seq<ChangeEvent>, x: Seq<char>)
    requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> t[i] == meant(#[trigger] s[i]) ensures #![trigger all_meant(s), all_apply(x, t)] #![trigger all_meant(s), all_edited(x, t)] all_meant(s) == t
{ assert(all_meant(s) =~= t); }
pub trait VVec<T>: Sized { spec fn vs(&self) -> Seq<T>; fn v_iter(self) -> (r: Vec<T>) ensures r@ == self.vs();
    fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) requires forall|x: T| f.requires((x,)), ensures r@.len() == self.vs().len(), forall|i: int| #![trigger self.vs()[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> f.ensures((self.vs()[i],), r@[i]);
    fn v_collect(self) -> (r: Vec<T>) ensures r@ == self.vs(); }
impl<T> VVec<T> for Vec<T> { open spec fn vs(&self) -> Seq<T> { self@ }
    fn v_iter(self) -> (r: Vec<T>) { self }
    #[verifier::external_body] fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    fn v_collect(self) -> (r: Vec<T>) { self } }
pub trait VOpt<T>: Sized { spec fn vo(&self) -> Option<T>;
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) requires self.vo() matches Some(x) ==> f.requires((x,)), ensures match self.vo() { Some(x) => r matches Some(y) && f.ensures((x,), y), None => r is None }; }
impl<T> VOpt<T> for Option<T> { open spec fn vo(&self) -> Option<T> { *self }
    #[verifier::external_body] fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() } }
// ---- analyzer-core (contracts/analyzer.vrs) ----
#[derive(Clone, Copy)] #[verifier::external_body] pub struct FileId {}
pub type ParsedUnit = FileId;
pub uninterp spec fn id_of(s: Seq<char>) -> FileId;
/// interned by their paths
pub broadcast axiom fn ax_interned(s: Seq<char>, t: Seq<char>) requires #[trigger] id_of(s) == #[trigger] id_of(t) ensures s == t;
#[verifier::external_body] pub struct LspFile {}
#[verifier::external_body] pub struct Tokens {}
#[verifier::external_body] pub struct Diagnostic {}
#[verifier::external_body] pub struct Analyzer {}
impl Analyzer {
    pub uninterp spec fn texts(&self) -> Map<FileId, Seq<char>>;
    /// the files whose text, as it is now, was searched for files it includes
    pub uninterp spec fn followed(&self) -> Set<FileId>;
    #[verifier::external_body] pub fn file_id(&self, s: &str) -> (r: FileId) ensures r == id_of(s@) { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, i: FileId, t: &String) ensures final(self).texts() == old(self).texts().insert(i, t@), final(self).followed() == old(self).followed().remove(i) { unimplemented!() }
    #[verifier::external_body] pub fn file_change_event(&mut self, i: FileId, es: &Vec<ChangeEvent>) requires old(self).texts().dom().contains(i), all_apply(old(self).texts()[i], es@), ensures final(self).texts() == old(self).texts().insert(i, all_edited(old(self).texts()[i], es@)), final(self).followed() == old(self).followed().remove(i) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&mut self, s: &str) -> (r: Option<()>) ensures final(self).texts() == old(self).texts().remove(id_of(s@)), final(self).followed() == old(self).followed().remove(id_of(s@)) { unimplemented!() }
    #[verifier::external_body] pub fn input(&self, i: FileId) -> (r: Option<&str>) ensures match r { Some(t) => self.texts().dom().contains(i) && t@ == self.texts()[i], None => !self.texts().dom().contains(i) } { unimplemented!() }
    #[verifier::external_body] pub fn get_file(&self, i: FileId) -> (r: &LspFile) requires self.texts().dom().contains(i) { unimplemented!() }
    #[verifier::external_body] pub fn preprocessed(&mut self, i: FileId) -> (r: Option<&Tokens>) ensures final(self).texts() == old(self).texts(), final(self).followed() == old(self).followed().insert(i) { unimplemented!() }
}
/// the diagnostics of a file the analyzer knows
#[verifier::external_body] pub fn process_diagnostics(a: &Analyzer, i: FileId, input: &str) -> Vec<Diagnostic> requires a.texts().dom().contains(i) { unimplemented!() }
/// what the one analyzer knows
pub tracked struct Texts { pub ghost texts: Map<FileId, Seq<char>>, pub ghost followed: Set<FileId> }
#[verifier::external_body] pub struct AnalyzerWrapper {}
pub trait VUnwrap { type O; fn v_unwrap(self, Tracked(db): Tracked<&mut Texts>) -> Self::O; }
impl AnalyzerWrapper {
    #[verifier::external_body] pub fn v_unwrap<'a>(&self, Tracked(db): Tracked<&'a mut Texts>) -> (r: &'a mut Analyzer) ensures r.texts() == old(db).texts, final(db).texts == final(r).texts(), r.followed() == old(db).followed, final(db).followed == final(r).followed() { unimplemented!() }
}
// ---- locks, completion sources ----
#[derive(Clone, Copy)]
//@item w enum IndexError [open]
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RwLock<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct AsyncRwLock<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(E)] pub struct FutureCompletionSource<T, E> { t: core::marker::PhantomData<(T, E)> }
pub type Unit = Arc<RwLock<ParsedUnit>>;
pub type Fcs = FutureCompletionSource<Unit, IndexError>;
//@item w struct FileState [open]
//@item w struct File [open]
pub struct Tables { pub m: int }
//@path w Arc<RwLock<HashMap<Url,Arc<File>>>> Arc<Table>
//@path w HashMap<Url,Arc<Workspace>> Folders
#[verifier::external_body] pub struct AnyEnumerableFileSystem {}
#[verifier::external_body] pub struct EnumFut {}
#[verifier::external_body] pub struct TextFut {}
#[verifier::external_body] pub struct BgTextFut {}
impl AnyEnumerableFileSystem {
    #[verifier::external_body] pub fn enumerate_folder(&self, u: Url, p: String) -> (r: EnumFut) ensures r.folder() == u.text() { unimplemented!() }
    #[verifier::external_body] pub fn file_contents(&self, u: Url) -> (r: TextFut) ensures r.url() == u.text() { unimplemented!() }
    #[verifier::external_body] pub fn v_contents(&self, u: Url) -> (r: BgTextFut) ensures r.url() == u.text() { unimplemented!() }
}
#[verifier::external_body] pub fn v_pattern() -> &'static str { unimplemented!() }
#[verifier::external_body] pub fn v_shown() -> String { unimplemented!() }
/// the urls of what was found
pub closed spec fn urls_of(r: Seq<TextDocumentIdentifier>) -> Set<Seq<char>> { r.map_values(|d: TextDocumentIdentifier| d.uri.text()).to_set() }
pub broadcast proof fn among(r: Seq<TextDocumentIdentifier>, u: Seq<char>) requires #[trigger] urls_of(r).contains(u) ensures exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).uri.text() == u {
    let m = r.map_values(|d: TextDocumentIdentifier| d.uri.text());
    let i = choose|i: int| 0 <= i < m.len() && m[i] == u;
    assert(r[i].uri.text() == u);
}
impl EnumFut { pub uninterp spec fn folder(&self) -> Seq<char>;
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: Vec<TextDocumentIdentifier>)
    requires old(w).ok(), ensures rely(*old(w), *old(db), *final(w), *final(db)), final(w).done.contains((self.folder(), urls_of(r@))) { unimplemented!() } }
impl TextFut { pub uninterp spec fn url(&self) -> Seq<char>;
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: Option<String>)
    requires old(w).ok(), ensures rely(*old(w), *old(db), *final(w), *final(db)), final(w).read == Some((self.url(), match r { Some(t) => Some(t@), None => None })) { unimplemented!() } }
/// for a task in the background: anything may happen to files meanwhile; what it did itself before has kept the open files
pub open spec fn rely_bg(o: World, f: World, fdb: Texts) -> bool {
    f.ok() && f.mark == snap(f, fdb) && f.state.workspace_manager == o.state.workspace_manager && (forall|g: int| #[trigger] o.cells.dom().contains(g) ==> f.cells.dom().contains(g))
}
impl BgTextFut { pub uninterp spec fn url(&self) -> Seq<char>;
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: Option<String>)
    requires old(w).ok(), kept(old(w).mark, snap(*old(w), *old(db))), ensures rely_bg(*old(w), *final(w), *final(db)), final(w).read == Some((self.url(), match r { Some(t) => Some(t@), None => None })) { unimplemented!() } }
/// the analyzer is what implements it
pub type AnyBackgroundLoad = AnalyzerWrapper;
impl AnalyzerWrapper { #[verifier::external_body] pub fn load(&self, u: Url, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { loads: old(w).loads.insert(u.text()), ..*old(w) }) { unimplemented!() } }
/// Arc<RwLock<HashMap<Url, Arc<File>>>>. A file is in it from when it is put there; only new files are put, for urls without one.
#[verifier::external_body] pub struct Table {}
pub struct TableW<'a> { pub t: &'a Table }
impl Table { pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn write(&self, Tracked(w): Tracked<&mut World>) -> (r: TableW<'_>) ensures r.t.id() == self.id(), *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body] pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (r: TableW<'_>) ensures r.t.id() == self.id(), *final(w) == *old(w) { unimplemented!() } }
pub open spec fn taken(w: World, t: int, u: Seq<char>) -> bool { w.cells.dom().contains(place(t, u)) && !w.made.contains(place(t, u)) }
pub struct TableG { pub t: Ghost<int> }
pub struct OccEntry { pub t: Ghost<int>, pub u: Ghost<Seq<char>> }
pub struct VacEntry { pub t: Ghost<int>, pub u: Ghost<Seq<char>> }
pub enum Entry { Occupied(OccEntry), Vacant(VacEntry) }
impl<'a> TableW<'a> { #[verifier::external_body] pub fn unwrap(self) -> (r: TableG) ensures r.t@ == self.t.id() { unimplemented!() } }
impl TableG {
    #[verifier::external_body] pub fn entry(&mut self, u: Url, Tracked(w): Tracked<&mut World>) -> (r: Entry) ensures *final(self) == *old(self), *final(w) == *old(w), taken(*old(w), old(self).t@, u.text()) <==> r is Occupied,
        r matches Entry::Occupied(e) ==> e.t@ == old(self).t@ && e.u@ == u.text(), r matches Entry::Vacant(e) ==> e.t@ == old(self).t@ && e.u@ == u.text() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, u: &Url, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures r == taken(*old(w), self.t@, u.text()), *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> usize { unimplemented!() }
    /// the file that was there, if any, would be lost
    #[verifier::external_body] pub fn insert(&mut self, u: Url, f: Arc<File>, Tracked(w): Tracked<&mut World>) requires !taken(*old(w), old(self).t@, u.text()), old(w).made.contains(f.fid()),
        ensures *final(self) == *old(self), f.fid() == place(old(self).t@, u.text()), *final(w) == (World { made: old(w).made.remove(f.fid()), ..*old(w) }) { unimplemented!() }
}
impl OccEntry { #[verifier::external_body] pub fn get(&self) -> (r: &Arc<File>) ensures r.fid() == place(self.t@, self.u@) { unimplemented!() } }
impl VacEntry { #[verifier::external_body] pub fn insert(self, f: Arc<File>, Tracked(w): Tracked<&mut World>) requires old(w).made.contains(f.fid()), ensures f.fid() == place(self.t@, self.u@), *final(w) == (World { made: old(w).made.remove(f.fid()), ..*old(w) }) { unimplemented!() } }
/// HashMap<Url, Arc<Workspace>>, never changed: its iterators go through it in one order
#[verifier::external_body] pub struct Folders {}
pub open spec fn has_folder(r: Folders, u: Seq<char>) -> bool { exists|k: int| 0 <= k < r.order().len() && (#[trigger] r.order()[k]).0.text() == u }
pub trait VFolders { spec fn vf(&self) -> Seq<(Url, Arc<Workspace>)>; fn v_folders(self) -> (r: Folders)
    ensures r.order().len() <= self.vf().len(), forall|i: int| 0 <= i < self.vf().len() ==> has_folder(r, (#[trigger] self.vf()[i]).0.text()), forall|k: int| 0 <= k < r.order().len() ==> exists|i: int| 0 <= i < self.vf().len() && #[trigger] self.vf()[i] == #[trigger] r.order()[k]; }
impl VFolders for Vec<(Url, Arc<Workspace>)> { open spec fn vf(&self) -> Seq<(Url, Arc<Workspace>)> { self@ } #[verifier::external_body] fn v_folders(self) -> (r: Folders) { unimplemented!() } }
impl Folders { pub uninterp spec fn order(&self) -> Seq<(Url, Arc<Workspace>)>;
    #[verifier::external_body] pub fn v_entries<'b>(&'b self) -> (r: VSeqIter<(&'b Url, &'b Arc<Workspace>)>) ensures r.items().len() == self.order().len(), forall|i: int| #![trigger r.items()[i]] #![trigger self.order()[i]] 0 <= i < r.items().len() ==> *r.items()[i].0 == self.order()[i].0 && *r.items()[i].1 == self.order()[i].1 { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VSeqIter<T> { v: Vec<T> }
impl<T> VSeqIter<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body] pub fn v_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|x: T| f.requires((&x,)),
        ensures r matches Some(x) ==> exists|i: int| #![trigger self.items()[i]] 0 <= i < self.items().len() && x == self.items()[i] && f.ensures((&x,), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.items()[j],), false),
            r is None ==> forall|j: int| 0 <= j < self.items().len() ==> f.ensures((&#[trigger] self.items()[j],), false) { unimplemented!() }
}
impl<T> Iterator for VSeqIter<T> { type Item = T; #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl<T> vstd::std_specs::iter::IteratorSpecImpl for VSeqIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic] open spec fn remaining(&self) -> Seq<T> { self.items() }
    #[verifier::prophetic] open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.items().len()) }
    open spec fn peek(&self, k: int) -> Option<T> { if 0 <= k < self.items().len() { Some(self.items()[k]) } else { None } }
}
pub trait VEntries { type X; fn v_entries<'b>(&'b self) -> (r: VSeqIter<&'b Self::X>) ensures self.all(r.items()); spec fn all(&self, s: Seq<&Self::X>) -> bool; }
impl<X> VEntries for Vec<X> { type X = X; open spec fn all(&self, s: Seq<&X>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i] } #[verifier::external_body] fn v_entries<'b>(&'b self) -> (r: VSeqIter<&'b X>) { unimplemented!() } }
impl VStrInto for str { #[verifier::external_body] fn v_into(&self) -> String { unimplemented!() } }
pub trait VStrInto { fn v_into(&self) -> String; }
//@item w struct Workspace [open]
//@item w struct WorkspaceManager [open]
#[verifier::external_body] pub struct TraceValueAccessor {}
#[verifier::external_body] pub struct RequestManager {}
#[verifier::external_body] pub struct ProgressManager {}
impl ProgressManager { #[verifier::external_body] pub fn new(r: RequestManager, b: bool) -> ProgressManager { unimplemented!() } }
impl TraceValueAccessor { #[verifier::external_body] pub fn set(&self, v: TraceValue) { unimplemented!() } }
#[verifier::external_body] pub struct Progress {}
#[verifier::external_body] pub struct LspProtocolError {}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RepFut<T> { t: core::marker::PhantomData<T> }
impl ProgressManager { #[verifier::external_body] pub fn begin(&self, t: &str) -> RepFut<Progress> { unimplemented!() } }
impl Progress { #[verifier::external_body] pub fn report(&self, t: &str) -> RepFut<()> { unimplemented!() }
    #[verifier::external_body] pub fn end(&self, t: Option<&str>) -> RepFut<()> { unimplemented!() } }
/// others run until the client has answered
impl<T> RepFut<T> { #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: Result<T, LspProtocolError>)
    requires old(w).ok(), ensures rely(*old(w), *old(db), *final(w), *final(db)) { unimplemented!() } }
/// work for the pool (contracts/pool.vrs)
pub trait Task: Sized { spec fn starts(&self, o: World, f: World) -> bool; }
#[verifier::external_body] pub fn spawn_work<T: Task>(t: T, Tracked(w): Tracked<&mut World>) ensures t.starts(*old(w), *final(w)) { unimplemented!() }
/// the background loader
#[verifier::external_body] pub struct Loader {}
impl Loader { pub uninterp spec fn mgr(&self) -> WorkspaceManager; }
impl Task for Loader { open spec fn starts(&self, o: World, f: World) -> bool { f == (World { loaders: o.loaders.push(self.mgr()), ..o }) } }
#[verifier::external_body] pub fn vx_loader(r: Receiver<Url>, fs: Arc<AnyEnumerableFileSystem>, m: WorkspaceManager, a: Arc<AnalyzerWrapper>) -> (t: Loader) ensures t.mgr() == m { unimplemented!() }
/// the load of one file (vx_load)
#[verifier::external_body] pub struct LoadTask {}
impl LoadTask { pub uninterp spec fn url(&self) -> Seq<char>; pub uninterp spec fn mgr(&self) -> WorkspaceManager; }
impl Task for LoadTask { open spec fn starts(&self, o: World, f: World) -> bool { f == (World { owed: if o.owed == Some((self.url(), self.mgr())) { None } else { o.owed }, ..o }) } }
#[verifier::external_body] pub fn vx_task(u: Url, fs: Arc<AnyEnumerableFileSystem>, m: WorkspaceManager, a: Arc<AnalyzerWrapper>) -> (t: LoadTask) ensures t.url() == u.text(), t.mgr() == m { unimplemented!() }
#[verifier::external_body] pub struct RecvError {}
#[verifier::external_body] pub struct RecvFut {}
impl Receiver<Url> { pub uninterp spec fn mgr(&self) -> WorkspaceManager;
    #[verifier::external_body] pub fn recv(&self) -> (r: RecvFut) ensures r.mgr() == self.mgr() { unimplemented!() } }
impl RecvFut { pub uninterp spec fn mgr(&self) -> WorkspaceManager;
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: Result<Url, RecvError>)
    requires old(w).ok(), old(w).owed is None, kept(old(w).mark, snap(*old(w), *old(db))), ensures rely_bg(*old(w), *final(w), *final(db)), match r { Ok(u) => final(w).owed == Some((u.text(), self.mgr())), Err(_) => final(w).owed is None } { unimplemented!() } }
pub trait VReplace<T> { fn v_replace(&mut self, t: T) -> Option<T>; }
impl<T> VReplace<T> for Option<T> { #[verifier::external_body] fn v_replace(&mut self, t: T) -> (r: Option<T>) ensures *final(self) == Some(t), r == *old(self) { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
//@item s struct State [open]
/// the files and texts at a moment: what is in the lock of each file, what the completion sources and the locks of parsed units hold, the texts the analyzer has
pub ghost struct Snap { pub cells: Map<int, FileState>, pub sources: Map<int, Poll<Result<Unit, IndexError>>>, pub units: Map<int, FileId>, pub texts: Map<FileId, Seq<char>>, pub mgr: Option<WorkspaceManager> }
/// held: file locks that are held; reading: a file lock held for reading; made: files not put into a workspace yet; loads: asked to be loaded;
/// done: the folders that were enumerated, and what was found; state: the server's state; read: what the disk said last; owed: a load taken from the queue and not started; loaders: the background loaders started;
/// mark: (for tasks in the background) the files and texts when the task last continued
pub tracked struct World {
    pub ghost cells: Map<int, FileState>, pub ghost sources: Map<int, Poll<Result<Unit, IndexError>>>, pub ghost units: Map<int, FileId>,
    pub ghost held: Set<int>, pub ghost reading: Option<int>, pub ghost made: Set<int>, pub ghost loads: Set<Seq<char>>, pub ghost state: State,
    pub ghost read: Option<(Seq<char>, Option<Seq<char>>)>, pub ghost owed: Option<(Seq<char>, WorkspaceManager)>, pub ghost done: Set<(Seq<char>, Set<Seq<char>>)>, pub ghost loaders: Seq<WorkspaceManager>, pub ghost mark: Snap,
}
pub open spec fn snap(w: World, db: Texts) -> Snap { Snap { cells: w.cells, sources: w.sources, units: w.units, texts: db.texts, mgr: w.state.workspace_manager } }
/// what a file says its parsed unit is (None: it is being loaded)
pub open spec fn unit_in(cells: Map<int, FileState>, sources: Map<int, Poll<Result<Unit, IndexError>>>, units: Map<int, FileId>, f: int) -> Option<Result<FileId, IndexError>> {
    match sources[cells[f].parsed_unit.id()] { Poll::Pending => None, Poll::Ready(Err(e)) => Some(Err(e)), Poll::Ready(Ok(a)) => Some(Ok(units[a.id()])) }
}
pub open spec fn unit_of(w: World, f: int) -> Option<Result<FileId, IndexError>> { unit_in(w.cells, w.sources, w.units, f) }
impl Snap {
    pub open spec fn open(&self, f: int) -> bool { self.cells.dom().contains(f) && self.cells[f].is_open_in_ide }
    pub open spec fn unit(&self, f: int) -> Option<Result<FileId, IndexError>> { unit_in(self.cells, self.sources, self.units, f) }
}
/// files that are open belong to the editor: from a to b nothing of them has changed, no file was opened or closed, and no file was taken away
pub open spec fn kept(a: Snap, b: Snap) -> bool {
    &&& forall|f: int| #[trigger] a.cells.dom().contains(f) ==> b.cells.dom().contains(f) && (a.open(f) <==> b.open(f)) && (a.open(f) ==> b.cells[f] == a.cells[f] && b.unit(f) == a.unit(f))
    &&& forall|f: int| #[trigger] b.cells.dom().contains(f) && !a.cells.dom().contains(f) ==> !b.open(f)
    &&& b.mgr == a.mgr
    &&& a.mgr matches Some(m) ==> forall|u: Seq<char>| a.open(#[trigger] home(m, u)) ==> (a.texts.dom().contains(id_of(u)) <==> b.texts.dom().contains(id_of(u))) && a.texts[id_of(u)] == b.texts[id_of(u)]
}
impl File { pub open spec fn fid(&self) -> int { self.state.id() } }
impl World {
    /// every file has its own completion source and parsed unit
    pub open spec fn apart(&self) -> bool {
        &&& forall|f: int| #[trigger] self.cells.dom().contains(f) ==> self.sources.dom().contains(self.cells[f].parsed_unit.id()) && (self.sources[self.cells[f].parsed_unit.id()] matches Poll::Ready(Ok(a)) ==> self.units.dom().contains(a.id()))
        &&& forall|f: int, g: int| f != g && #[trigger] self.cells.dom().contains(f) && #[trigger] self.cells.dom().contains(g) ==> self.cells[f].parsed_unit.id() != self.cells[g].parsed_unit.id()
            && (self.sources[self.cells[f].parsed_unit.id()] matches Poll::Ready(Ok(a)) ==> self.sources[self.cells[g].parsed_unit.id()] matches Poll::Ready(Ok(b)) ==> a.id() != b.id())
    }
    pub open spec fn ok(&self) -> bool { self.apart() && self.held == Set::<int>::empty() && self.reading is None && (forall|g: int| !self.made.contains(g)) }
    /// the other files are as they were
    pub open spec fn others(&self, o: World, f: int) -> bool {
        forall|g: int| #[trigger] o.cells.dom().contains(g) ==> self.cells.dom().contains(g) && (g != f ==> self.cells[g] == o.cells[g] && unit_of(*self, g) == unit_of(o, g))
    }
    /// nothing but the contents of files
    pub open spec fn contents(&self, o: World) -> bool { *self == (World { cells: self.cells, sources: self.sources, units: self.units, ..o }) && self.cells.dom() == o.cells.dom() }
    pub open spec fn open(&self, f: int) -> bool { self.cells.dom().contains(f) && self.cells[f].is_open_in_ide }
    /// with the file state v in the lock of f
    pub open spec fn with(&self, f: int, v: FileState) -> World { World { cells: self.cells.insert(f, v), ..*self } }
}
pub open spec fn rely(o: World, odb: Texts, f: World, fdb: Texts) -> bool { kept(snap(o, odb), snap(f, fdb)) && f.ok() && f.state == o.state && o.loads.subset_of(f.loads) && o.done.subset_of(f.done)
    && new_are_loaded(o, f) }
/// files that were not known before have been handed to the loader
pub open spec fn new_are_loaded(o: World, f: World) -> bool { forall|t: int, u: Seq<char>| f.cells.dom().contains(#[trigger] place(t, u)) && !o.cells.dom().contains(place(t, u)) ==> f.loads.contains(u) }
/// the folder of ws was enumerated, and ws has every file found
pub open spec fn indexed(w: World, ws: Workspace) -> bool {
    exists|s: Set<Seq<char>>| #[trigger] w.done.contains((ws.workspace_folder.uri.text(), s)) && forall|u: Seq<char>| s.contains(u) ==> w.cells.dom().contains(#[trigger] place(ws.files.id(), u))
}
/// the file that a table has for u (once it has one)
pub uninterp spec fn place(table: int, u: Seq<char>) -> int;
/// a file is put into one table, for one url
pub broadcast axiom fn ax_place(t: int, u: Seq<char>, t2: int, u2: Seq<char>) requires #[trigger] place(t, u) == #[trigger] place(t2, u2) ensures t == t2, u == u2;
/// `t` is below the folder `base` (whose url may or may not end with slashes)
pub open spec fn descends(base: Seq<char>, t: Seq<char>) -> bool { let f = trimmed(base, '/'); starts(t, f) && f.len() < t.len() && t[f.len() as int] == '/' }
pub open spec fn trimmed(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trimmed(s.drop_last(), c) } else { s } }
/// c: the documents the client has open, and their texts. The server has the same ones open, with the same texts.
pub open spec fn truth(w: World, db: Texts, c: Map<Seq<char>, Seq<char>>) -> bool {
    &&& w.ok() && w.state.workspace_manager is Some
    &&& forall|u: Seq<char>| #![trigger c.dom().contains(u)] #![trigger home(w.state.workspace_manager->0, u)] c.dom().contains(u) <==> w.open(home(w.state.workspace_manager->0, u))
    &&& forall|u: Seq<char>| #[trigger] c.dom().contains(u) ==> unit_of(w, home(w.state.workspace_manager->0, u)) == Some(Ok::<FileId, IndexError>(id_of(u))) && db.texts.dom().contains(id_of(u)) && db.texts[id_of(u)] == c[u]
}
/// the first folder with u below it
pub open spec fn first(s: Seq<(Url, Arc<Workspace>)>, u: Seq<char>) -> Option<Arc<Workspace>> decreases s.len()
{ if s.len() == 0 { None } else if descends(s[0].0.text(), u) { Some(s[0].1) } else { first(s.skip(1), u) } }
pub proof fn first_any(s: Seq<(Url, Arc<Workspace>)>, u: Seq<char>)
    ensures match first(s, u) {
        Some(w) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i].1 == w && descends(s[i].0.text(), u) && forall|j: int| 0 <= j < i ==> !descends(#[trigger] s[j].0.text(), u),
        None => forall|j: int| 0 <= j < s.len() ==> !descends(#[trigger] s[j].0.text(), u),
    },
    decreases s.len()
{
    if s.len() > 0 && !descends(s[0].0.text(), u) {
        first_any(s.skip(1), u);
        match first(s.skip(1), u) {
            Some(w) => {
                let i = choose|i: int| 0 <= i < s.len() - 1 && #[trigger] s.skip(1)[i].1 == w && descends(s.skip(1)[i].0.text(), u) && forall|j: int| 0 <= j < i ==> !descends(#[trigger] s.skip(1)[j].0.text(), u);
                assert(s[i + 1].1 == w);
                assert forall|j: int| 0 <= j < i + 1 implies !descends(#[trigger] s[j].0.text(), u) by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
            }
            None => { assert forall|j: int| 0 <= j < s.len() implies !descends(#[trigger] s[j].0.text(), u) by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } } }
        }
    }
}
/// every url has one file: in the first workspace folder it is below, or else in the workspace of all the others
pub open spec fn home(m: WorkspaceManager, u: Seq<char>) -> int {
    place(match first(m.workspaces.order(), u) { Some(w) => w.files.id(), None => m.catch_all.files.id() }, u)
}
/// files were added, and nothing else happened to files
pub open spec fn grown(o: World, f: World) -> bool {
    &&& f == (World { cells: f.cells, sources: f.sources, loads: f.loads, made: f.made, ..o }) && (forall|g: int| f.made.contains(g) <==> o.made.contains(g))
    &&& forall|g: int| #[trigger] o.cells.dom().contains(g) ==> f.cells.dom().contains(g) && f.cells[g] == o.cells[g] && unit_of(f, g) == unit_of(o, g)
    &&& forall|g: int| #[trigger] f.cells.dom().contains(g) && !o.cells.dom().contains(g) ==> !f.open(g)
    &&& o.loads.subset_of(f.loads)
}
impl RwLock<ParsedUnit> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new(t: ParsedUnit, Tracked(w): Tracked<&mut World>) -> (r: Self) ensures !old(w).units.dom().contains(r.id()), *final(w) == (World { units: old(w).units.insert(r.id(), t), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn v_into(self) -> (r: Arc<Self>) ensures *r == self { unimplemented!() }
    #[verifier::external_body] pub fn write(&self, Tracked(w): Tracked<&mut World>) -> (r: Writing<FileId>) ensures r.cur() == old(w).units[self.id()], *final(w) == (World { units: old(w).units.insert(self.id(), r.fin()), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (r: Reading<FileId>) ensures r.cur() == old(w).units[self.id()], *final(w) == *old(w) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Writing<T> { t: core::marker::PhantomData<T> }
impl<T> Writing<T> { pub uninterp spec fn cur(&self) -> T; pub uninterp spec fn fin(&self) -> T;
    #[verifier::external_body] pub fn unwrap<'a>(self) -> (r: &'a mut T) ensures *r == self.cur(), *final(r) == self.fin() { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Reading<T> { t: core::marker::PhantomData<T> }
impl<T> Reading<T> { pub uninterp spec fn cur(&self) -> T;
    #[verifier::external_body] pub fn unwrap<'a>(self) -> (r: &'a T) ensures *r == self.cur() { unimplemented!() } }
#[verifier::external_body] pub struct StateRead {}
#[verifier::external_body] pub struct StateWrite {}
/// handlers run one at a time, so there is nothing to wait for
impl AsyncRwLock<State> {
    #[verifier::external_body] pub fn read(&self) -> StateRead { unimplemented!() }
    #[verifier::external_body] pub fn write(&self) -> StateWrite { unimplemented!() }
}
impl StateRead { #[verifier::external_body] pub fn v_await<'a>(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: &'a State) ensures *r == old(w).state, *final(w) == *old(w), *final(db) == *old(db) { unimplemented!() } }
impl StateWrite { #[verifier::external_body] pub fn v_await<'a>(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: &'a mut State) ensures *r == old(w).state, *final(w) == (World { state: *final(r), ..*old(w) }), *final(db) == *old(db) { unimplemented!() } }
#[verifier::external_body] pub struct ReadFut {}
impl AsyncRwLock<FileState> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new(t: FileState, Tracked(w): Tracked<&mut World>) -> (r: Self) ensures !old(w).cells.dom().contains(r.id()), *final(w) == (World { cells: old(w).cells.insert(r.id(), t), made: old(w).made.insert(r.id()), ..*old(w) }) { unimplemented!() }
    /// a lock that is held is not taken again
    #[verifier::external_body] pub fn try_write(&self, Tracked(w): Tracked<&mut World>) -> (r: Writing<FileState>)
        requires !old(w).held.contains(self.id()), ensures r.cur() == old(w).cells[self.id()], *final(w) == (World { cells: old(w).cells.insert(self.id(), r.fin()), held: old(w).held.insert(self.id()), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn try_read(&self, Tracked(w): Tracked<&mut World>) -> (r: Reading<FileState>)
        requires !old(w).held.contains(self.id()), ensures r.cur() == old(w).cells[self.id()], *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body] pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (r: ReadFut) ensures r.id() == self.id(), *final(w) == *old(w) { unimplemented!() }
}
impl ReadFut { pub uninterp spec fn id(&self) -> int;
    /// nobody holds a file's lock while others run, so there is nothing to wait for
    #[verifier::external_body] pub fn v_await<'a>(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: &'a FileState)
        requires !old(w).held.contains(self.id()), old(w).reading is None, ensures *r == old(w).cells[self.id()], *final(w) == (World { reading: Some(self.id()), ..*old(w) }), *final(db) == *old(db) { unimplemented!() }
}
#[verifier::external_body] pub fn v_drop(r: &FileState, Tracked(w): Tracked<&mut World>) requires old(w).reading is Some, ensures *final(w) == (World { reading: None, ..*old(w) }) { unimplemented!() }
/// the end of the life of a guard of a file's lock
pub proof fn released(tracked w: &mut World, f: int) requires old(w).held.contains(f), ensures *final(w) == (World { held: old(w).held.remove(f), ..*old(w) }) { w.held = w.held.remove(f); }
#[verifier::external_body] pub struct UnitFut {}
pub struct FcsInvalid {}
impl core::fmt::Debug for FcsInvalid { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl FutureCompletionSource<Unit, IndexError> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new(Tracked(w): Tracked<&mut World>) -> (r: Self) ensures !old(w).sources.dom().contains(r.id()), *final(w) == (World { sources: old(w).sources.insert(r.id(), Poll::Pending), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn new_with_value(t: Unit, Tracked(w): Tracked<&mut World>) -> (r: Self) ensures !old(w).sources.dom().contains(r.id()), *final(w) == (World { sources: old(w).sources.insert(r.id(), Poll::Ready(Ok(t))), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn state(&self, Tracked(w): Tracked<&mut World>) -> (r: Poll<Result<Unit, IndexError>>) ensures r == old(w).sources[self.id()], *final(w) == *old(w) { unimplemented!() }
    #[verifier::external_body] pub fn set_value(&self, t: Unit, Tracked(w): Tracked<&mut World>) -> (r: Result<(), FcsInvalid>)
        ensures r is Ok <==> old(w).sources[self.id()] is Pending, *final(w) == (if r is Ok { World { sources: old(w).sources.insert(self.id(), Poll::Ready(Ok(t))), ..*old(w) } } else { *old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn set_err(&self, e: IndexError, Tracked(w): Tracked<&mut World>) -> (r: Result<(), FcsInvalid>)
        ensures r is Ok <==> old(w).sources[self.id()] is Pending, *final(w) == (if r is Ok { World { sources: old(w).sources.insert(self.id(), Poll::Ready(Err(e))), ..*old(w) } } else { *old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn future(&self) -> (r: UnitFut) ensures r.id() == self.id() { unimplemented!() }
}
impl UnitFut { pub uninterp spec fn id(&self) -> int;
    /// others run until the source is completed. They need the locks of files.
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>) -> (r: Result<Unit, IndexError>)
        requires old(w).ok(), ensures final(w).ok(), rely(*old(w), *old(db), *final(w), *final(db)), final(w).sources[self.id()] == Poll::Ready(r),
            old(w).sources[self.id()] is Ready ==> final(w).sources[self.id()] == old(w).sources[self.id()] { unimplemented!() }
}
} // verus!
verus! {
impl File {
//@fn w File::new
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).apart(),
//@ensures
    final(w).apart(), !old(w).cells.dom().contains(r.fid()), !final(w).cells[r.fid()].is_open_in_ide, unit_of(*final(w), r.fid()) is None,
    final(w).cells.dom() == old(w).cells.dom().insert(r.fid()), final(w).others(*old(w), r.fid()), r.document_identifier == document_identifier,
    grown(*old(w), World { made: old(w).made, ..*final(w) }),
    *final(w) == (World { cells: final(w).cells, sources: final(w).sources, made: old(w).made.insert(r.fid()), ..*old(w) }),
//@endfn
//@fn w File::is_open_in_ide
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    !old(w).held.contains(self.fid()),
//@ensures
    r == old(w).cells[self.fid()].is_open_in_ide, *final(w) == *old(w),
//@endfn
//@fn w File::get_parsed_unit
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>
//@subst? /let (\w+) = \{\s*let (\w+) = self\.state\.read\(Tracked\(w\)\)\.v_await\(Tracked\(w\), Tracked\(db\)\);\s*([^;{}]*)\};/ => let $2 = self.state.read(Tracked(w)).v_await(Tracked(w), Tracked(db)); let $1 = $3; v_drop($2, Tracked(w));
//@subst? /let (\w+) = self\.state\.read\(Tracked\(w\)\)\.v_await\(Tracked\(w\), Tracked\(db\)\)\.([^;{}]*);/ => let vx_g = self.state.read(Tracked(w)).v_await(Tracked(w), Tracked(db)); let $1 = vx_g.$2; v_drop(vx_g, Tracked(w));
//@requires
    old(w).ok(), old(w).cells.dom().contains(self.fid()),
//@ensures
    rely(*old(w), *old(db), *final(w), *final(db)),
    unit_of(*old(w), self.fid()) matches Some(Err(e)) ==> r == Err::<FileId, IndexError>(e),
    old(w).open(self.fid()) ==> (unit_of(*old(w), self.fid()) matches Some(u) ==> r == u),
//@endfn
//@fn w File::open_or_update
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).ok(), old(w).cells.dom().contains(self.fid()),
//@ensures
    final(w).ok(), final(w).open(self.fid()), unit_of(*final(w), self.fid()) == Some(Ok::<FileId, IndexError>(parsed_unit)),
    final(w).others(*old(w), self.fid()), final(w).contents(*old(w)),
//@start
    proof { assert(old(w).with(self.fid(), old(w).cells[self.fid()]).cells =~= old(w).cells); }
//@before /self.set_parsed_unit/
    proof { assert(w.held =~= set![self.fid()]); assert(w.cells.insert(self.fid(), *state).dom() =~= old(w).cells.dom()); assert(w.with(self.fid(), *state).apart()); }
//@end
    proof { assert(w.cells.dom() =~= old(w).cells.dom()); }
//@endfn
//@fn w File::close
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).ok(), old(w).cells.dom().contains(self.fid()),
//@ensures
    final(w).ok(), !final(w).open(self.fid()), unit_of(*final(w), self.fid()) == unit_of(*old(w), self.fid()),
    final(w).others(*old(w), self.fid()), final(w).contents(*old(w)),
//@end
    proof { released(w, self.fid()); assert(w.held =~= Set::<int>::empty()); assert(w.cells.dom() =~= old(w).cells.dom()); }
//@endfn
//@fn w File::set_parsed_unit
//@ghostparam Tracked(w): Tracked<&mut World>
//@opt desugar
//@requires
    old(w).cells.dom().contains(self.fid()), old(w).reading is None, forall|g: int| !old(w).made.contains(g),
    match state {
        Some(g) => old(w).held == set![self.fid()] && old(w).cells[self.fid()] == *final(g) && old(w).with(self.fid(), *g).apart(),
        None => old(w).ok(),
    },
//@ensures
    final(w).ok(), unit_of(*final(w), self.fid()) == Some(Ok::<FileId, IndexError>(parsed_unit)),
    final(w).others(*old(w), self.fid()), *final(w) == (World { cells: final(w).cells, sources: final(w).sources, units: final(w).units, held: Set::empty(), ..*old(w) }),
    final(w).cells.dom() == old(w).cells.dom(),
    final(w).cells[self.fid()].is_open_in_ide == (match state { Some(g) => g.is_open_in_ide, None => old(w).cells[self.fid()].is_open_in_ide }),
    // whoever waits is told
    final(w).sources[(match state { Some(g) => g.parsed_unit, None => old(w).cells[self.fid()].parsed_unit }).id()] is Ready,
//@start
    let ghost w1 = if state is Some { old(w).with(self.fid(), *state->Some_0) } else { *old(w) };
    proof { assert(w1.apart()); assert(w1.cells.dom() =~= old(w).cells.dom()); }
//@end
    proof { assert(forall|g: int| #[trigger] w.cells.dom().contains(g) ==> w1.cells.dom().contains(g)); assert(forall|g: int| #[trigger] w.cells.dom().contains(g) && g != self.fid() ==> w.cells[g] == w1.cells[g]); }
    proof { released(w, self.fid()); assert(w.held =~= Set::<int>::empty()); assert(w.cells.dom() =~= old(w).cells.dom()); }
//@endfn
//@fn w File::set_index_error
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).ok(), old(w).cells.dom().contains(self.fid()),
//@ensures
    final(w).ok(), unit_of(*final(w), self.fid()) == Some(Err::<FileId, IndexError>(error)), final(w).cells[self.fid()].is_open_in_ide == old(w).cells[self.fid()].is_open_in_ide,
    final(w).others(*old(w), self.fid()), final(w).contents(*old(w)),
    // whoever waits is told
    final(w).sources[old(w).cells[self.fid()].parsed_unit.id()] is Ready,
//@end
    proof { released(w, self.fid()); assert(w.held =~= Set::<int>::empty()); assert(w.cells.dom() =~= old(w).cells.dom()); }
//@endfn
}
impl Workspace {
//@fn w Workspace::get_file
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).ok(),
//@ensures
    final(w).ok(), grown(*old(w), *final(w)), r.fid() == place(self.files.id(), uri.text()), final(w).cells.dom().contains(r.fid()),
    // a file that is new is loaded
    !old(w).cells.dom().contains(r.fid()) ==> final(w).loads.contains(uri.text()),
//@start
    broadcast use ax_place;
//@endfn
//@fn w Workspace::index
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>
//@hoist write_files
//@requires
    old(w).ok(),
//@ensures
    rely(*old(w), *old(db), *final(w), *final(db)),
    // the workspace has every file of its folder
    indexed(*final(w), *self),
//@start
    broadcast use among;
//@endfn
}
//@fn w Workspace::index::write_files
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).ok(),
//@ensures
    final(w).ok(), grown(*old(w), *final(w)),
    forall|i: int| 0 <= i < document_identifiers@.len() ==> final(w).cells.dom().contains(place(workspace.files.id(), (#[trigger] document_identifiers@[i]).uri.text()))
        && (!old(w).cells.dom().contains(place(workspace.files.id(), document_identifiers@[i].uri.text())) ==> final(w).loads.contains(document_identifiers@[i].uri.text())),
    new_are_loaded(*old(w), *final(w)),
//@loop 0 iter it
    invariant
        files.t@ == workspace.files.id(), w.ok(), grown(*old(w), *w), it.seq().len() == document_identifiers@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == document_identifiers@[i],
        forall|i: int| 0 <= i < it.index() ==> w.cells.dom().contains(place(workspace.files.id(), (#[trigger] document_identifiers@[i]).uri.text())),
        new_are_loaded(*old(w), *w),
//@loopstart 0
    broadcast use ax_place;
//@endfn
impl WorkspaceManager {
//@fn w WorkspaceManager::has_workspaces
//@ret r
//@ensures
    r == self.has_workspaces,
//@endfn
//@fn w WorkspaceManager::get_file
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@hoist is_descendant_path
//@closure 0 |vx_p0: &(&Url, &Arc<Workspace>)| -> (b: bool) ensures b == descends(vx_p0.0.text(), uri.text())
//@requires
    old(w).ok(),
//@ensures
    final(w).ok(), grown(*old(w), *final(w)), r.fid() == home(*self, uri.text()), final(w).cells.dom().contains(r.fid()),
    !old(w).cells.dom().contains(r.fid()) ==> final(w).loads.contains(uri.text()),
//@start
    proof { first_any(self.workspaces.order(), uri.text()); }
//@endfn
//@fn w WorkspaceManager::index
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>
//@requires
    old(w).ok(),
//@ensures
    rely(*old(w), *old(db), *final(w), *final(db)),
    self.has_workspaces ==> forall|k: int| 0 <= k < self.workspaces.order().len() ==> indexed(*final(w), *(#[trigger] self.workspaces.order()[k]).1),
//@loop 0 iter it
    invariant
        rely(*old(w), *old(db), *w, *db),
        it.seq().len() == self.workspaces.order().len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).1 == self.workspaces.order()[i].1,
        forall|k: int| 0 <= k < it.index() ==> indexed(*w, *(#[trigger] self.workspaces.order()[k]).1),
//@endfn
}
//@fn w WorkspaceManager::get_file::is_descendant_path
//@ret r
//@opt desugar
//@ensures
    r == descends(base.text(), target.text()),
//@start
    proof {
        let f = trimmed(base.text(), '/');
        let t = target.text();
        let x = t.skip(f.len() as int);
        if starts(t, f) && x.len() > 0 {
            assert(x[0] == t[f.len() as int]);
            assert(x.take(1).len() == 1 && x.take(1)[0] == x[0]);
            assert(seq!['/'].len() == 1 && seq!['/'][0] == '/');
            if x[0] == '/' { assert(x.take(1) =~= seq!['/']); }
        }
    }
//@endfn
impl State {
//@fn st State::workspaces
//@ret r
//@requires
    self.workspace_manager is Some,
//@ensures
    *r == self.workspace_manager->0,
//@endfn
//@fn st State::has_workspaces
//@ret r
//@requires
    self.workspace_manager is Some,
//@ensures
    r == self.workspace_manager->0.has_workspaces,
//@endfn
//@fn st State::set_workspaces
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(self).workspace_manager is None,
//@ensures
    // one loader, which knows the same files
    *final(self) == (State { workspace_manager: Some(workspace_manager), ..*old(self) }), *final(w) == (World { loaders: old(w).loaders.push(workspace_manager), ..*old(w) }),
//@endfn
//@fn s State::process_background_analyze_requests
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>
//@hoist analyze_source_text
//@attr #[verifier::exec_allows_no_decreases_clause]
//@requires
    old(w).ok(), old(w).owed is None, old(w).mark == snap(*old(w), *old(db)), receiver.mgr() == workspace_manager,
//@ensures
    final(w).owed is None,
//@loop 0
    invariant
        w.ok(), w.owed is None, kept(w.mark, snap(*w, *db)), receiver.mgr() == workspace_manager,
//@endfn
}
//@fn s State::process_background_analyze_requests::analyze_source_text
//@ret r
//@ghostparam Tracked(db): Tracked<&mut Texts>
//@ensures
    r == id_of(uri@), final(db).texts == old(db).texts.insert(id_of(uri@), text@),
    // the files it includes are asked for
    final(db).followed.contains(r),
//@endfn
//@fn s vx_load
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>
//@requires
    old(w).ok(), old(w).mark == snap(*old(w), *old(db)), old(w).state.workspace_manager == Some(workspace_manager),
//@ensures
    final(w).ok(), final(w).state.workspace_manager == old(w).state.workspace_manager, final(w).cells.dom().contains(home(workspace_manager, file_url.text())),
    // since it last continued, the load has changed nothing of files that are open
    kept(final(w).mark, snap(*final(w), *final(db))),
    // the file is the editor's, or it is what the disk said
    final(w).open(home(workspace_manager, file_url.text())) || (final(w).read matches Some((u, t)) && u == file_url.text() && match t {
        Some(t) => unit_of(*final(w), home(workspace_manager, u)) == Some(Ok::<FileId, IndexError>(id_of(u))) && final(db).texts.dom().contains(id_of(u)) && final(db).texts[id_of(u)] == t && final(db).followed.contains(id_of(u)),
        None => unit_of(*final(w), home(workspace_manager, u)) == Some(Err::<FileId, IndexError>(IndexError::NotFound)),
    }),
//@start
    broadcast use ax_place, ax_interned;
//@endfn
//@fn h on_text_document_did_open
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>, Ghost(c): Ghost<Map<Seq<char>, Seq<char>>>
//@requires
    truth(*old(w), *old(db), c),
//@ensures
    truth(*final(w), *final(db), c.insert(params.text_document.uri.text(), params.text_document.text@)), r is Ok,
//@start
    broadcast use ax_place, ax_interned;
//@endfn
//@fn h on_text_document_did_change
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>, Ghost(c): Ghost<Map<Seq<char>, Seq<char>>>
//@opt optclosures
//@subst /use analyzer_[^;]*;/ =>
//@closure 0 |vx_p0: TextDocumentContentChangeEvent| -> (e: ChangeEvent) ensures e == meant(vx_p0)
//@closure 1 |vx_p0: Range| -> (e: cf::Range) ensures e == meant_range(vx_p0)
//@requires
    truth(*old(w), *old(db), c),
    // the ranges are in the text as the client has it
    c.dom().contains(params.text_document.uri.text()) ==> all_apply(c[params.text_document.uri.text()], all_meant(params.content_changes@)),
    // (a file that is not open is not changed)
    c.dom().contains(params.text_document.uri.text()),
//@ensures
    truth(*final(w), *final(db), c.insert(params.text_document.uri.text(), all_edited(c[params.text_document.uri.text()], all_meant(params.content_changes@)))), r is Ok,
//@start
    broadcast use ax_place, ax_interned, changes_meant;
//@endfn
//@fn h on_text_document_did_close
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>, Ghost(c): Ghost<Map<Seq<char>, Seq<char>>>
//@requires
    truth(*old(w), *old(db), c),
//@ensures
    truth(*final(w), *final(db), c.remove(params.text_document.uri.text())), r is Ok,
    !final(db).texts.dom().contains(id_of(params.text_document.uri.text())),
//@start
    broadcast use ax_place, ax_interned;
//@endfn
//@fn h on_text_document_did_save
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>, Ghost(c): Ghost<Map<Seq<char>, Seq<char>>>
//@requires
    truth(*old(w), *old(db), c),
//@ensures
    r is Ok,
    truth(*final(w), *final(db), match params.text { Some(t) => c.insert(params.text_document.uri.text(), t@), None => c }),
//@start
    broadcast use ax_place, ax_interned;
//@endfn
//@fn h created_file
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>, Ghost(c): Ghost<Map<Seq<char>, Seq<char>>>
//@requires
    truth(*old(w), *old(db), c),
//@ensures
    truth(*final(w), *final(db), c), final(w).state.workspace_manager == old(w).state.workspace_manager,
    // the document is the client's, or it is what the disk said
    c.dom().contains(uri.text()) || (final(w).read matches Some((u, t)) && u == uri.text() && unit_of(*final(w), home(final(w).state.workspace_manager->0, u)) == Some(Ok::<FileId, IndexError>(id_of(u)))
        && final(db).texts.dom().contains(id_of(u)) && final(db).texts[id_of(u)] == (match t { Some(t) => t, None => Seq::empty() })),
//@start
    broadcast use ax_place, ax_interned;
//@endfn
//@fn h deleted_file
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>, Ghost(c): Ghost<Map<Seq<char>, Seq<char>>>
//@requires
    truth(*old(w), *old(db), c),
//@ensures
    truth(*final(w), *final(db), c), final(w).state.workspace_manager == old(w).state.workspace_manager,
    c.dom().contains(uri.text()) || !final(db).texts.dom().contains(id_of(uri.text())),
//@start
    broadcast use ax_place, ax_interned;
//@endfn
//@fn h on_watched_file_change
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>, Ghost(c): Ghost<Map<Seq<char>, Seq<char>>>
//@requires
    truth(*old(w), *old(db), c),
//@ensures
    truth(*final(w), *final(db), c), r is Ok,
//@loop 0 iter it
    invariant
        truth(*w, *db, c),
//@endfn
impl Table { #[verifier::external_body] pub fn v_empty() -> Arc<Table> { unimplemented!() } }
//@fn wm WorkspaceManager::new::catch_all_folder
//@subst /Url::parse\("file:\/\/\/"\)\.unwrap\(\)/ => v_root()
//@endfn
#[verifier::external_body] pub fn v_root() -> Url { unimplemented!() }
//@fn wm WorkspaceManager::new::to_workspace
//@ret r
//@ensures
    r.0 == workspace_folder.uri, r.1.workspace_folder == workspace_folder, r.1.background_load == background_load, r.1.file_system == file_system,
//@endfn
impl Workspace {
//@fn wm Workspace::new
//@ret r
//@subst /Arc::new\(RwLock::new\(HashMap::new\(\)\)\)/ => Table::v_empty()
//@ensures
    r.workspace_folder == workspace_folder, r.background_load == background_load, r.file_system == file_system,
//@endfn
}
impl WorkspaceManager {
//@fn wm WorkspaceManager::new
//@ret r
//@hoist to_workspace
//@hoist catch_all_folder
//@closure 0 || -> (x: (bool, Vec<WorkspaceFolder>)) ensures !x.0
//@closure 1 |vx_p0: Vec<WorkspaceFolder>| -> (x: (bool, Vec<WorkspaceFolder>)) ensures x == (true, vx_p0)
//@closure 2 |vx_p0: WorkspaceFolder| -> (x: (Url, Arc<Workspace>)) ensures x.0 == vx_p0.uri, x.1.workspace_folder == vx_p0
//@ensures
    r.has_workspaces == (workspace_folders is Some),
    // every folder of the client is a workspace, and is known by its url
    workspace_folders matches Some(fs) ==> forall|i: int| 0 <= i < fs@.len() ==> has_folder(r.workspaces, (#[trigger] fs@[i]).uri.text()),
    forall|k: int| 0 <= k < r.workspaces.order().len() ==> (#[trigger] r.workspaces.order()[k]).0 == r.workspaces.order()[k].1.workspace_folder.uri,
//@endfn
}
impl State {
//@fn st State::set_progress
//@ensures
    *final(self) == (State { progress_manager: Some(progress_manager), ..*old(self) }),
//@endfn
//@fn st State::set_trace_value
//@endfn
}
//@fn u initialize_client_dependant_state
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>
//@opt desugar
//@requires
    old(w).state.workspace_manager is None,
//@ensures
    final(w).state.workspace_manager matches Some(m) && m.has_workspaces == (workspace_folders is Some) && final(w).loaders == old(w).loaders.push(m),
    final(w).state.progress_manager is Some,
    workspace_folders matches Some(fs) ==> forall|i: int| 0 <= i < fs@.len() ==> has_folder(final(w).state.workspace_manager->0.workspaces, (#[trigger] fs@[i]).uri.text()),
//@endfn
//@fn u on_initialize
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>, Tracked(db): Tracked<&mut Texts>
//@opt desugar
//@requires
    old(w).state.workspace_manager is None,
//@ensures
    // refused only if the client does not tell of changes in its folders, and then nothing is set up
    r is Err <==> params.workspace_folders is Some && !watches(params.capabilities),
    r is Err ==> *final(w) == *old(w),
    r is Ok ==> (final(w).state.workspace_manager matches Some(m) && m.has_workspaces == (params.workspace_folders is Some) && final(w).loaders == old(w).loaders.push(m)) && final(w).state.progress_manager is Some,
//@endfn
}
fn main() {}
