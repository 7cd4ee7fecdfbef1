#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::VecDeque;
//@file p crates/analyzer-core/src/preprocessor.rs
//@file lx crates/analyzer-core/src/lexer.rs
//@known PreprocessorState::interpret_condition
//@method p drain v_drain
//@method p format! -
//@method p iter v_iter
//@method p front v_front
//@method p reserve v_reserve
verus! {
global size_of usize == 8;
//@include prelude_hmap.vrs
//@item p enum PreprocessorQuotationStyle [open]
//@item p enum PreprocessorBinOp [open]
//@item p enum PreprocessorExpression [open]
//@item p enum PreprocessorDirective [open]
//@item p type PreprocessorValue
//@item lx struct Literal [open]
//@item lx enum Token [open]
//@item p type ResolvedToken
//@item p enum VertexState [open]
/// salsa's interned id of a path
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct FileId(pub u32);
impl HKey for FileId { type A = FileId; open spec fn key(&self) -> FileId { *self } }
pub type Span = std::ops::Range<usize>;
//@include prelude_pp.vrs
// ---- derived clones are equal to the original ----
impl Clone for Token { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PreprocessorDirective { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub assume_specification<Idx: Clone>[ <std::ops::Range<Idx> as Clone>::clone ](r: &std::ops::Range<Idx>) -> (o: std::ops::Range<Idx>)
    ensures cloned(r.start, o.start), cloned(r.end, o.end);
// ---- the two callbacks: the same answers throughout one run ----
pub ghost struct Env { pub ids: spec_fn(Seq<char>) -> FileId, pub files: Map<FileId, Seq<(Token, Span)>> }
#[verifier::external_body] pub struct Lex<'a> { t: core::marker::PhantomData<&'a ()> }
impl<'a> Lex<'a> {
    pub uninterp spec fn files(&self) -> Map<FileId, Seq<(Token, Span)>>;
    #[verifier::external_body] pub fn call(&mut self, f: FileId) -> (r: Option<&'a Vec<(Token, Span)>>)
        ensures final(self).files() == old(self).files(),
            r matches Some(v) ==> old(self).files().dom().contains(f) && v@ == old(self).files()[f], r is None ==> !old(self).files().dom().contains(f) { unimplemented!() }
}
#[verifier::external_body] pub struct ToId<'a> { t: core::marker::PhantomData<&'a ()> }
impl<'a> ToId<'a> {
    pub uninterp spec fn ids(&self) -> spec_fn(Seq<char>) -> FileId;
    #[verifier::external_body] pub fn call(&mut self, p: &str) -> (r: FileId) ensures final(self).ids() == old(self).ids(), r == (old(self).ids())(p@) { unimplemented!() }
}
pub struct PreprocessorState<'a> {
    pub definitions: HashMap<String, String>,
    pub errors: Vec<((FileId, Span), String)>,
    pub state: HashMap<FileId, VertexState>,
    pub conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
    pub lex: Lex<'a>,
    pub to_id: ToId<'a>,
}

// ---- what preprocessing means ----
pub type Tok = (FileId, Token, Span);
/// an open #if: where it stands, whether its last branch is an #else, whether a branch has been taken, whether the current one is
pub ghost struct Frame { pub open: (FileId, Span), pub last_else: bool, pub taken: bool, pub live: bool }
pub ghost struct M { pub defs: Map<Seq<char>, String>, pub seen: Set<FileId>, pub frames: Seq<Frame>, pub out: Seq<Tok>, pub errs: Seq<(FileId, Span)> }
pub open spec fn all_live(f: Seq<Frame>) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).live }
impl M {
    pub open spec fn err(self, t: Tok) -> M { M { errs: self.errs.push((t.0, t.2)), ..self } }
    pub open spec fn top(self, f: Frame) -> M { M { frames: self.frames.drop_last().push(f), ..self } }
    pub open spec fn emit(self, t: Tok) -> M { M { out: self.out.push(t), ..self } }
    pub open spec fn outer_live(self) -> bool { all_live(self.frames.drop_last()) }
}
pub open spec fn from_file(f: FileId, s: Seq<(Token, Span)>) -> Seq<Tok> { s.map_values(|x: (Token, Span)| (f, x.0, x.1)) }
/// white space that follows white space of the same file is one piece of white space
pub open spec fn emit_blank(m: M, t: Tok) -> M {
    if m.out.len() > 0 && m.out.last().0 == t.0 && m.out.last().1 is Whitespace {
        M { out: m.out.drop_last().push((t.0, Token::Whitespace, Span { start: m.out.last().2.start, end: t.2.end })), ..m }
    } else { m.emit(t) }
}
/// one token: the machine after it, and what it puts in front of the rest of the input
pub open spec fn step(e: Env, m: M, t: Tok) -> (M, Seq<Tok>) {
    match t.1 {
        Token::PreprocessorDirective(PreprocessorDirective::If(c)) => {
            let v = all_live(m.frames) && holds(m.defs, c);
            (M { frames: m.frames.push(Frame { open: (t.0, t.2), last_else: false, taken: v, live: v }), ..m }, seq![])
        }
        Token::PreprocessorDirective(PreprocessorDirective::ElseIf(c)) =>
            if m.frames.len() == 0 { (m.err(t), seq![]) } else if !m.outer_live() { (m, seq![]) } else {
                let f = m.frames.last();
                let v = !f.taken && holds(m.defs, c);
                (m.top(Frame { open: f.open, last_else: false, taken: f.taken || v, live: v }), seq![])
            },
        Token::PreprocessorDirective(PreprocessorDirective::Else) =>
            if m.frames.len() == 0 { (m.err(t), seq![]) } else if !m.outer_live() { (m, seq![]) } else {
                let f = m.frames.last();
                let m1 = if f.last_else { m.err(t) } else { m };
                (m1.top(Frame { open: f.open, last_else: true, taken: true, live: !f.taken }), seq![])
            },
        Token::PreprocessorDirective(PreprocessorDirective::EndIf) =>
            if m.frames.len() == 0 { (m.err(t), seq![]) } else { (M { frames: m.frames.drop_last(), ..m }, seq![]) },
        _ if !all_live(m.frames) => (m, seq![]),
        Token::PreprocessorDirective(PreprocessorDirective::Define(k, v)) => (M { defs: m.defs.insert(k@, v), ..m }, seq![]),
        Token::PreprocessorDirective(PreprocessorDirective::Undef(k)) => (M { defs: m.defs.remove(k@), ..m }, seq![]),
        Token::PreprocessorDirective(PreprocessorDirective::Pragma(_)) => (m, seq![]),
        Token::PreprocessorDirective(PreprocessorDirective::Other(_, _)) => (m.err(t), seq![]),
        Token::PreprocessorDirective(PreprocessorDirective::Include(_, p)) => {
            let f = (e.ids)(p@);
            if m.seen.contains(f) || !e.files.dom().contains(f) { (m.err(t), seq![]) }
            else { (M { seen: m.seen.insert(f), ..m }, from_file(f, e.files[f])) }
        }
        Token::Whitespace => (emit_blank(m, t), seq![]),
        _ => (m.emit(t), seq![]),
    }
}
/// at the end of the input every #if that decides what is skipped, and the innermost open one, lacks its #endif
pub open spec fn first_dead(f: Seq<Frame>) -> int decreases f.len() { if f.len() == 0 { 0 } else if !all_live(f.drop_last()) { first_dead(f.drop_last()) } else { f.len() - 1 } }
pub open spec fn finish(m: M) -> M {
    let k = first_dead(m.frames);
    if m.frames.len() == 0 { m }
    else if all_live(m.frames) || k == 0 { M { errs: m.errs.push(m.frames.last().open), frames: seq![], ..m } }
    else { M { errs: m.errs.push(m.frames.last().open).push(m.frames[k - 1].open), frames: seq![], ..m } }
}
pub open spec fn run(e: Env, m: M, input: Seq<Tok>) -> M
    decreases e.files.dom().difference(m.seen).len(), input.len() via run_terminates
{
    if input.len() == 0 { finish(m) } else { run(e, step(e, m, input[0]).0, step(e, m, input[0]).1 + input.drop_first()) }
}
#[via_fn]
proof fn run_terminates(e: Env, m: M, input: Seq<Tok>) { if input.len() > 0 { lem_step_measure(e, m, input[0]); } }
/// one step, for an input that starts with t and goes on with rest
pub proof fn lem_unfold(e: Env, m: M, t: Tok, rest: Seq<Tok>)
    ensures forall|s: Seq<Tok>| s.len() > 0 && s[0] == t && s.subrange(1, s.len() as int) == rest ==> #[trigger] run(e, m, s) == run(e, step(e, m, t).0, step(e, m, t).1 + rest),
        step(e, m, t).1.len() == 0 ==> step(e, m, t).1 + rest == rest,
{ if step(e, m, t).1.len() == 0 { assert(step(e, m, t).1 + rest =~= rest); } }
pub proof fn lem_step_measure(e: Env, m: M, t: Tok)
    ensures
        step(e, m, t).0.seen == m.seen && step(e, m, t).1.len() == 0 || e.files.dom().difference(step(e, m, t).0.seen).len() < e.files.dom().difference(m.seen).len(),
{
    match t.1 {
        Token::PreprocessorDirective(PreprocessorDirective::Include(_, p)) => {
            let f = (e.ids)(p@);
            if all_live(m.frames) && !m.seen.contains(f) && e.files.dom().contains(f) {
                let a = e.files.dom().difference(m.seen);
                assert(e.files.dom().difference(m.seen.insert(f)) =~= a.remove(f));
                assert(a.contains(f));
            }
        }
        _ => {}
    }
}
// ---- the state of the code, read as a state of the machine (all frames live) ----
pub open spec fn frame(x: (ResolvedToken, Vec<ResolvedToken>, bool)) -> Frame {
    Frame { open: (x.0.0, x.0.2), last_else: x.1@.len() > 0 && x.1@.last().1 is Else, taken: x.2, live: true }
}
pub type Entry = (ResolvedToken, Vec<ResolvedToken>, bool);
pub open spec fn fr(s: Seq<Entry>) -> Seq<Frame> { Seq::new(s.len(), |i: int| frame(s[i])) }
pub open spec fn epos(s: Seq<((FileId, Span), String)>) -> Seq<(FileId, Span)> { Seq::new(s.len(), |i: int| s[i].0) }
pub broadcast proof fn b_epos_push(s: Seq<((FileId, Span), String)>, x: ((FileId, Span), String)) ensures #[trigger] epos(s.push(x)) == epos(s).push(x.0) { assert(epos(s.push(x)) =~= epos(s).push(x.0)); }
pub broadcast proof fn b_fr_push(s: Seq<Entry>, x: Entry) ensures #[trigger] fr(s.push(x)) == fr(s).push(frame(x)) { assert(fr(s.push(x)) =~= fr(s).push(frame(x))); }
pub broadcast proof fn b_fr_pop(s: Seq<Entry>) ensures s.len() > 0 ==> #[trigger] fr(s.drop_last()) == fr(s).drop_last() { assert(s.len() > 0 ==> fr(s.drop_last()) =~= fr(s).drop_last()); }
pub broadcast proof fn b_fr_take(s: Seq<Entry>, n: int) ensures 0 <= n <= s.len() ==> #[trigger] fr(s.take(n)) == fr(s).take(n) { assert(0 <= n <= s.len() ==> fr(s.take(n)) =~= fr(s).take(n)); }
/// the first k frames live, the others not
pub open spec fn dead(s: Seq<Frame>, k: int) -> Seq<Frame> { Seq::new(s.len(), |i: int| Frame { live: i < k, ..s[i] }) }
pub open spec fn dead_m(m: M, k: int) -> M { M { frames: dead(m.frames, k), ..m } }
pub broadcast proof fn b_dead_push(s: Seq<Frame>, f: Frame, k: int) ensures k <= s.len() ==> #[trigger] dead(s.push(f), k) == dead(s, k).push(Frame { live: false, ..f }) { assert(k <= s.len() ==> dead(s.push(f), k) =~= dead(s, k).push(Frame { live: false, ..f })); }
pub broadcast proof fn b_dead_pop(s: Seq<Frame>, k: int) ensures s.len() > 0 ==> #[trigger] dead(s.drop_last(), k) == dead(s, k).drop_last() { assert(s.len() > 0 ==> dead(s.drop_last(), k) =~= dead(s, k).drop_last()); }
pub broadcast proof fn b_dead_live(s: Seq<Frame>, k: int) ensures 0 <= k < s.len() ==> !all_live(#[trigger] dead(s, k)) && (k < s.len() - 1 ==> !all_live(dead(s, k).drop_last())) && (k == s.len() - 1 ==> all_live(dead(s, k).drop_last()))
{ if 0 <= k < s.len() { assert(!dead(s, k)[k].live); if k < s.len() - 1 { assert(!dead(s, k).drop_last()[k].live); } } }
pub broadcast proof fn b_plus(s: Seq<Tok>) ensures #[trigger] (Seq::<Tok>::empty() + s) == s { assert(Seq::<Tok>::empty() + s =~= s); }
pub broadcast proof fn b_fr_live(s: Seq<Entry>) ensures all_live(#[trigger] fr(s)), s.len() > 0 ==> all_live(fr(s).drop_last()) {}
pub broadcast proof fn b_dead_top(s: Seq<Frame>, k: int) ensures all_live(s) && k == s.len() - 1 && s.len() > 0 ==> (#[trigger] dead(s, k)).drop_last() == s.drop_last() && dead(s, k).take(k) == s.take(k)
{ if all_live(s) && k == s.len() - 1 && s.len() > 0 { assert(dead(s, k).drop_last() =~= s.drop_last()); assert(dead(s, k).take(k) =~= s.take(k)); } }
pub broadcast proof fn b_dead_all(s: Seq<Frame>, k: int) ensures all_live(s) && k == s.len() ==> #[trigger] dead(s, k) == s { assert(all_live(s) && k == s.len() ==> dead(s, k) =~= s); }
pub broadcast proof fn b_fr_sub(s: Seq<Entry>, n: int) ensures s.len() > 0 && n == s.len() - 1 ==> #[trigger] fr(s.subrange(0, n)) == fr(s).drop_last() { b_fr_pop(s); }
pub broadcast proof fn b_first_dead(s: Seq<Frame>, k: int) ensures 0 <= k < s.len() ==> first_dead(#[trigger] dead(s, k)) == k decreases s.len()
{ if 0 <= k < s.len() { assert(dead(s, k).drop_last() =~= dead(s.drop_last(), k)); if k < s.len() - 1 { b_first_dead(s.drop_last(), k); assert(!dead(s.drop_last(), k)[k].live); } } }
pub broadcast proof fn b_cons(t: Tok, s: Seq<Tok>) ensures (#[trigger] (seq![t] + s)).drop_first() == s { assert((seq![t] + s).drop_first() =~= s); }
/// only files that have been seen
pub open spec fn all_seen(f: Set<FileId>, s: Seq<Tok>) -> bool { forall|i: int| 0 <= i < s.len() ==> f.contains((#[trigger] s[i]).0) }
pub broadcast group g_pp { b_fr_live, b_fr_sub, b_dead_all, b_dead_top, b_first_dead, b_cons, b_epos_push, b_fr_push, b_fr_pop, b_fr_take, b_dead_push, b_dead_pop, b_dead_live, b_plus }
impl<'a> PreprocessorState<'a> {
    pub open spec fn frames(&self) -> Seq<Frame> { fr(self.conditional_stack@) }
    pub open spec fn errs(&self) -> Seq<(FileId, Span)> { epos(self.errors@) }
    pub open spec fn m(&self, out: Seq<Tok>) -> M { M { defs: self.definitions@, seen: self.state@.dom(), frames: self.frames(), out, errs: self.errs() } }
    pub open spec fn env(&self) -> Env { Env { ids: self.to_id.ids(), files: self.lex.files() } }
    /// the machine before the first token: the file of the input has been seen
    pub open spec fn begin(&self, input: Seq<Tok>) -> M { if input.len() > 0 { M { seen: self.state@.dom().insert(input[0].0), ..self.m(seq![]) } } else { self.m(seq![]) } }
    /// the machine at the end: conditionals that are still open have been reported
    pub open spec fn done(&self, out: Seq<Tok>) -> M { M { frames: seq![], ..self.m(out) } }
    /// only #if's are on the stack
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.conditional_stack@.len() ==> (#[trigger] self.conditional_stack@[i]).0.1 is If }
}
/// the last frame is not live
pub open spec fn skipping(m: M) -> M { M { frames: m.frames.drop_last().push(Frame { live: false, ..m.frames.last() }), ..m } }
pub trait VDrain<T>: Sized { spec fn dv(&self) -> Seq<T>; fn v_drain(&mut self, r: std::ops::RangeFrom<usize>) requires r.start <= old(self).dv().len(), ensures final(self).dv() == old(self).dv().take(r.start as int); }
impl<T> VDrain<T> for Vec<T> { open spec fn dv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_drain(&mut self, r: std::ops::RangeFrom<usize>) { self.drain(r); } }
pub trait VDeque<T>: Sized { spec fn qv(&self) -> Seq<T>; fn v_front(&self) -> (r: Option<&T>) ensures r == (if self.qv().len() > 0 { Some(&self.qv()[0]) } else { None }); fn v_reserve(&mut self, n: usize) ensures final(self).qv() == old(self).qv(); }
impl<T> VDeque<T> for VecDeque<T> { open spec fn qv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_front(&self) -> (r: Option<&T>) { self.front() } #[verifier::external_body] fn v_reserve(&mut self, n: usize) { self.reserve(n); } }
// ---- iterators over the tokens of a file: the sequence of items they yield ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VSeqIter<T> { v: Vec<T> }
impl<T> VSeqIter<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r.items() == self.items().reverse() { unimplemented!() }
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VSeqIter<U>)
        requires forall|x: T| f.requires((x,)),
        ensures r.items().len() == self.items().len(), forall|i: int| 0 <= i < self.items().len() ==> f.ensures((self.items()[i],), #[trigger] r.items()[i]) { unimplemented!() }
}
impl<'b> VSeqIter<&'b (Token, Span)> {
    #[verifier::external_body] pub fn cloned(self) -> (r: VSeqIter<(Token, Span)>)
        ensures r.items().len() == self.items().len(), forall|i: int| 0 <= i < self.items().len() ==> *self.items()[i] == #[trigger] r.items()[i] { unimplemented!() }
}
impl<T> Iterator for VSeqIter<T> { type Item = T; #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl<T> vstd::std_specs::iter::IteratorSpecImpl for VSeqIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic] open spec fn remaining(&self) -> Seq<T> { self.items() }
    #[verifier::prophetic] open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.items().len()) }
    open spec fn peek(&self, k: int) -> Option<T> { if 0 <= k < self.items().len() { Some(self.items()[k]) } else { None } }
}
pub trait VIter { type X; fn v_iter<'b>(&'b self) -> (r: VSeqIter<&'b Self::X>) ensures self.all(r.items()); spec fn all(&self, s: Seq<&Self::X>) -> bool; }
impl<X> VIter for Vec<X> { type X = X; open spec fn all(&self, s: Seq<&X>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i] } #[verifier::external_body] fn v_iter<'b>(&'b self) -> (r: VSeqIter<&'b X>) { unimplemented!() } }
/// an item of such an iterator as a token of file f
pub trait AsTok { spec fn tok(&self, f: FileId) -> Tok; }
impl AsTok for Tok { open spec fn tok(&self, f: FileId) -> Tok { *self } }
impl AsTok for (Token, Span) { open spec fn tok(&self, f: FileId) -> Tok { (f, self.0, self.1) } }
impl<'b, X: AsTok> AsTok for &'b X { open spec fn tok(&self, f: FileId) -> Tok { (**self).tok(f) } }
pub open spec fn toks<X: AsTok>(s: Seq<X>, f: FileId) -> Seq<Tok> { Seq::new(s.len(), |i: int| s[i].tok(f)) }
pub open spec fn pushed<X: AsTok>(s: Seq<X>, i: int, f: FileId, rest: Seq<Tok>) -> Seq<Tok> { toks(s.take(i), f).reverse() + rest }
pub proof fn lem_pushed<X: AsTok>(s: Seq<X>, i: int, f: FileId, rest: Seq<Tok>)
    ensures 0 <= i < s.len() ==> pushed(s, i + 1, f, rest) == seq![s[i].tok(f)] + pushed(s, i, f, rest), pushed(s, 0, f, rest) == rest,
        i == s.len() ==> pushed(s, i, f, rest) == toks(s, f).reverse() + rest
{
    assert(pushed(s, 0, f, rest) =~= rest);
    if 0 <= i < s.len() { assert(pushed(s, i + 1, f, rest) =~= seq![s[i].tok(f)] + pushed(s, i, f, rest)); }
    if i == s.len() { assert(s.take(i) =~= s); }
}
/// std: no allocation is larger than isize::MAX bytes, and these elements are not zero-sized
#[verifier::external_body] pub broadcast proof fn ax_vec_len(v: Vec<(Token, Span)>) ensures (#[trigger] v@).len() <= isize::MAX {}
#[verifier::external_body] pub broadcast proof fn ax_deque_len(v: VecDeque<Tok>) ensures (#[trigger] v@).len() <= isize::MAX {}
pub broadcast group g_len { ax_vec_len, ax_deque_len }
pub broadcast proof fn b_seen_push(d: Set<FileId>, s: Seq<Tok>, f: FileId, t: Seq<(Token, Span)>)
    ensures all_seen(d, s) ==> #[trigger] all_seen(d.insert(f), from_file(f, t) + s) {}
pub broadcast proof fn b_pushed<X: AsTok>(s: Seq<X>, i: int, f: FileId, rest: Seq<Tok>)
    ensures i == s.len() ==> #[trigger] pushed(s, i, f, rest) == toks(s, f).reverse() + rest, i == 0 ==> pushed(s, i, f, rest) == rest { lem_pushed(s, i, f, rest); }
#[verifier::external_body] pub struct VxFmt {}
impl VxFmt {
    #[verifier::external_body] pub fn new() -> (r: VxFmt) { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: VxFmt) { unimplemented!() }
    #[verifier::external_body] pub fn disp<T>(self, x: &T) -> (r: VxFmt) { unimplemented!() }
    #[verifier::external_body] pub fn dbg<T>(self, x: &T) -> (r: VxFmt) { unimplemented!() }
    #[verifier::external_body] pub fn string(self) -> (r: String) { unimplemented!() }
}
} // verus!
verus! {
impl<'a> PreprocessorState<'a> {
    /// see C13
    #[verifier::external_body] fn interpret_condition(&self, cond: &PreprocessorExpression) -> (r: bool) ensures r == holds(self.definitions@, *cond) { unimplemented!() }
//@fn p PreprocessorState::error
//@ensures
    *final(self) == (PreprocessorState { errors: final(self).errors, ..*old(self) }),
    final(self).errs() == old(self).errs().push((file_id, location)),
//@start
    broadcast use g_pp;
//@endfn
//@fn p PreprocessorState::check_empty_cond_stack
//@requires
    old(self).wf(),
//@ensures
    *final(self) == (PreprocessorState { errors: final(self).errors, ..*old(self) }),
    final(self).errs() == (if old(self).frames().len() > 0 { old(self).errs().push(old(self).frames().last().open) } else { old(self).errs() }),
//@start
    broadcast use g_pp;
//@endfn
//@fn p PreprocessorState::skip_conditional_directive
//@requires
    old(self).wf(), old(self).conditional_stack@.len() > 0,
//@ensures
    final(self).wf(), final(input)@.len() <= old(input)@.len(),
    *final(self) == (PreprocessorState { errors: final(self).errors, conditional_stack: final(self).conditional_stack, ..*old(self) }),
    forall|e: Env, out: Seq<Tok>| #![trigger run(e, dead_m(old(self).m(out), old(self).conditional_stack@.len() - 1), old(input)@)] #![trigger run(e, final(self).m(out), final(input)@)]
        run(e, dead_m(old(self).m(out), old(self).conditional_stack@.len() - 1), old(input)@) == run(e, final(self).m(out), final(input)@),
    forall|f: Set<FileId>| #[trigger] all_seen(f, old(input)@) ==> all_seen(f, final(input)@),
//@loop 0
    invariant
        self.wf(), level > 0, level == old(self).conditional_stack@.len(), self.conditional_stack@.len() >= level, input@.len() <= old(input)@.len(),
        forall|f: Set<FileId>| #[trigger] all_seen(f, old(input)@) ==> all_seen(f, input@),
        self.conditional_stack@.take(level as int) == old(self).conditional_stack@,
        *self == (PreprocessorState { conditional_stack: self.conditional_stack, ..*old(self) }),
        forall|e: Env, out: Seq<Tok>| #[trigger] run(e, dead_m(old(self).m(out), level - 1), old(input)@) == run(e, dead_m(self.m(out), level - 1), input@),
    ensures
        input@.len() == 0,
    decreases input@.len()
//@loopstart 0
    broadcast use g_pp;
//@afterloop 0
    let ghost at_end = self.m(seq![]);
    let ghost rest = self.conditional_stack@;
//@end
    proof {
        let k = level - 1;
        assert(fr(rest).take(k) == self.frames());
        assert(dead(fr(rest), k).last().open == fr(rest).last().open);
        if k > 0 { assert(dead(fr(rest), k)[k - 1].open == self.frames().last().open); } else { assert(self.frames() =~= seq![]); }
        assert forall|out: Seq<Tok>| finish(#[trigger] dead_m(M { out, ..at_end }, k)) == finish(self.m(out)) by { }
        assert forall|e: Env, out: Seq<Tok>| #[trigger] run(e, dead_m(old(self).m(out), k), old(input)@) == run(e, self.m(out), input@) by {
            assert(dead_m(M { out, ..at_end }, k) == dead_m(M { out, ..at_end }, k));
        }
    }
//@start
    broadcast use g_pp;
//@endfn
//@fn p PreprocessorState::preprocess
//@opt foreach optclosures
//@subst? /\(self\.to_id\)\(/ => self.to_id.call(
//@subst? /\(self\.lex\)\(/ => self.lex.call(
//@subst? / as Option<&Vec<\(Token, Span\)>>/ =>
//@ret r
//@requires
    old(self).wf(), forall|i: int| 0 <= i < old(input)@.len() ==> (#[trigger] old(input)@[i]).0 == old(input)@[0].0,
//@ensures
    final(self).env() == old(self).env(),
    final(self).done(r@) == run(old(self).env(), old(self).begin(old(input)@), old(input)@),
//@closure 0 |vx_p0: (Token, Span)| -> (r: Tok) ensures r == (file_id, vx_p0.0, vx_p0.1)
//@loop 0
    invariant
        self.wf(), self.env() == old(self).env(), all_seen(self.state@.dom(), input@), (previous_file matches Some(f) ==> self.state@.dom().contains(f)),
        run(self.env(), self.m(result@), input@) == run(old(self).env(), old(self).begin(old(input)@), old(input)@),
    ensures
        input@.len() == 0,
    decreases self.env().files.dom().difference(self.state@.dom()).len(), input@.len()
//@loopstart 0
    broadcast use g_pp, g_len, b_pushed;
    let ghost m0 = self.m(result@);
    let ghost t0 = (id, tk, span);
    proof { lem_unfold(self.env(), m0, t0, input@); }
    proof { assert(all_seen(self.state@.dom(), input@)); if previous_file is Some { assert(self.state@.dom().insert(previous_file->0) =~= self.state@.dom()); } }
//@loopend 0
    proof { lem_step_measure(self.env(), m0, t0); }
//@afterloop 0
    proof { if self.frames().len() == 0 { assert(self.frames() =~= seq![]); } }
//@loop 1 iter it
    invariant
        it.seq().len() == tokens@.len(), toks(it.seq(), file_id).reverse() =~= from_file(file_id, tokens@),
        input@ == pushed(it.seq(), it.index(), file_id, in1),
//@beforeloop 1
    let ghost in1 = input@;
//@loopstart 1
    proof { lem_pushed(it.seq(), it.index(), file_id, in1); }
//@start
    broadcast use g_pp;
//@endfn
}
} // verus!
fn main() {}
