#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpec;
use std::rc::Rc;
//@file par crates/analyzer-core/src/parser.rs
//@method par splice v_splice
//@method par cloned v_cloned
//@path par std::iter::repeat v_repeat
//@path par anyhow! v_anyhow()
verus! {
global size_of usize == 8;
type RuleName = &'static str;
//@include prelude_map.vrs
//@item par enum Cst [open]
//@item par enum Rule [open]
//@item par struct ExistingMatch [open]
//@item par struct MemoTableEntry [open]
//@item par struct Column [open]
//@item par struct Parser [open]
//@item par struct Matcher [open]
//@include prelude_peg.vrs
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::reserve_exact ](v: &mut Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;
// ---- parking_lot::RwLock: the parser owns the lock, so reading/writing is a (mutable) borrow of the contents ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { t: T }
pub type RwLockReadGuard<'a, T> = &'a T;
impl<T> RwLock<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn read(&self) -> (r: &T) ensures *r == self@ { &self.t }
    #[verifier::external_body]
    pub fn write(&mut self) -> (r: &mut T) ensures *r == old(self)@, final(self)@ == *final(r) { &mut self.t }
}
// ---- derived Clone of the tree: shares the children ----
impl<Token: Clone> Clone for Cst<Token> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures cv(r) == cv(*self) { unimplemented!() }
}
impl<Token: Clone> Clone for ExistingMatch<Token> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<Token: Clone> Clone for Column<Token> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.memo@ == self.memo@, r.max_examined_length == self.max_examined_length { unimplemented!() }
}
/// a cloned Rc points to the same value
pub broadcast axiom fn axiom_rc_cloned<T>(a: Rc<T>, b: Rc<T>) ensures #[trigger] cloned(a, b) ==> a == b;
// ---- Vec::splice as a statement; iterators passed to it ----
pub trait VSeqArg<T> { spec fn yields(&self, s: Seq<T>) -> bool; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VCloned<'a, T> { s: std::slice::Iter<'a, T> }
impl<'a, T> VCloned<'a, T> { pub uninterp spec fn src(&self) -> Seq<&'a T>; }
impl<'a, T: Clone> VSeqArg<T> for VCloned<'a, T> {
    open spec fn yields(&self, s: Seq<T>) -> bool { s.len() == self.src().len() && forall|i: int| 0 <= i < s.len() ==> cloned(*self.src()[i], #[trigger] s[i]) }
}
pub trait VClonedExt<'a, T>: Sized { 
    #[verifier::prophetic]
    spec fn rem(&self) -> Seq<&'a T>;
    fn v_cloned(self) -> (r: VCloned<'a, T>) ensures r.src() == self.rem();
}
impl<'a, T> VClonedExt<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn rem(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn v_cloned(self) -> (r: VCloned<'a, T>) { VCloned { s: self } }
}
/// std::iter::repeat(x).take(n): n clones of x
pub struct VRepeat<T> { x: T }
pub struct VTake<T> { x: T, n: usize }
impl<T> VRepeat<T> { pub closed spec fn elem(&self) -> T { self.x } pub fn take(self, n: usize) -> (r: VTake<T>) ensures r.elem() == self.elem(), r.count() == n { VTake { x: self.x, n } } }
impl<T> VTake<T> { pub closed spec fn elem(&self) -> T { self.x } pub closed spec fn count(&self) -> int { self.n as int } }
impl<T: Clone> VSeqArg<T> for VTake<T> {
    open spec fn yields(&self, s: Seq<T>) -> bool { s.len() == self.count() && forall|i: int| 0 <= i < s.len() ==> cloned(self.elem(), #[trigger] s[i]) }
}
pub fn v_repeat<T>(x: T) -> (r: VRepeat<T>) ensures r.elem() == x { VRepeat { x } }
impl<T> VSeqArg<T> for Vec<T> { open spec fn yields(&self, s: Seq<T>) -> bool { s == self@ } }
pub trait VVecExt<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn v_splice<I: VSeqArg<T>>(&mut self, r: std::ops::Range<usize>, with: I)
        requires r.start <= r.end <= old(self).vv().len(),
        ensures exists|s: Seq<T>| #[trigger] with.yields(s) && final(self).vv() == old(self).vv().take(r.start as int) + s + old(self).vv().skip(r.end as int);
}
impl<T> VVecExt<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_splice<I: VSeqArg<T>>(&mut self, r: std::ops::Range<usize>, with: I) { unimplemented!() }
}

pub assume_specification<Idx: Clone>[ <std::ops::Range<Idx> as Clone>::clone ](r: &std::ops::Range<Idx>) -> (o: std::ops::Range<Idx>)
    ensures cloned(r.start, o.start), cloned(r.end, o.end);
// ---------------- validity of the memo table ----------------
pub open spec fn refs<T: Clone>(r: Rule<T>) -> Seq<&'static str> {
    match r { Rule::Terminal(_) => seq![], Rule::Choice(o) => o@, Rule::Sequence(p) => p@, Rule::Repetition(n) => seq![n], Rule::Not(n) => seq![n] }
}
/// 'start' and every referenced rule are defined
pub open spec fn complete<T: Clone>(g: Rules<T>) -> bool {
    &&& g.dom().contains("start"@)
    &&& forall|k: Seq<char>, i: int| #![trigger refs(g[k])[i]] g.dom().contains(k) && 0 <= i < refs(g[k]).len() ==> g.dom().contains(refs(g[k])[i]@)
}
pub open spec fn defined<T: Clone>(g: Rules<T>, r: Seq<&'static str>) -> bool { forall|j: int| 0 <= j < r.len() ==> g.dom().contains((#[trigger] r[j])@) }
pub proof fn lem_defined<T: Clone>(g: Rules<T>, r: Seq<&'static str>)
    ensures !defined(g, r) ==> exists|j: int| 0 <= j < r.len() && !g.dom().contains((#[trigger] r[j])@)
{}
pub proof fn lem_incomplete<T: Clone>(g: Rules<T>, k: Seq<char>)
    requires g.dom().contains(k),
    ensures forall|x: &'static str| #[trigger] refs(g[k]).contains(x) && !g.dom().contains(x@) ==> !complete(g),
{
    assert forall|x: &'static str| #[trigger] refs(g[k]).contains(x) && !g.dom().contains(x@) implies !complete(g) by {
        let i = choose|i: int| 0 <= i < refs(g[k]).len() && refs(g[k])[i] == x;
        assert(refs(g[k])[i] == x);
    }
}
/// the rules a rule refers to are defined
pub proof fn lem_refs<T: Clone>(g: Rules<T>, n: Seq<char>)
    requires complete(g), g.dom().contains(n),
    ensures
        g[n] matches Rule::Choice(o) ==> forall|i: int| 0 <= i < o@.len() ==> g.dom().contains(#[trigger] o@[i]@),
        g[n] matches Rule::Sequence(o) ==> forall|i: int| 0 <= i < o@.len() ==> g.dom().contains(#[trigger] o@[i]@),
        g[n] matches Rule::Repetition(r) ==> g.dom().contains(r@),
        g[n] matches Rule::Not(r) ==> g.dom().contains(r@),
{
    let r = refs(g[n]);
    assert forall|i: int| 0 <= i < r.len() implies g.dom().contains(#[trigger] r[i]@) by {}
    match g[n] { Rule::Repetition(x) => { assert(r[0] == x); } Rule::Not(x) => { assert(r[0] == x); } _ => {} }
}
pub open spec fn entry_out<T: Clone>(e: MemoTableEntry<T>) -> Out<T> {
    match e.existing_match { Some(m) => Out::Match(cv(*m.cst), m.match_length as int), None => Out::Fail }
}
/// column for the text s: every entry is the rule's result, and stays so while the tokens it examined stay the same
pub open spec fn col_ok<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, c: Column<T>) -> bool {
    &&& -1 <= c.max_examined_length <= s.len() + 1
    &&& forall|n: Seq<char>| #[trigger] c.memo@.dom().contains(n) ==> stable(g, s, n, entry_out(c.memo@[n]), c.memo@[n].examined_length as int)
            && c.memo@[n].examined_length <= c.max_examined_length
}
pub open spec fn memo_ok<T: Clone + PartialEq>(g: Rules<T>, buf: Seq<T>, t: Seq<Column<T>>) -> bool {
    &&& t.len() <= buf.len() + 1
    &&& forall|p: int| 0 <= p < t.len() ==> col_ok(g, buf.skip(p), #[trigger] t[p])
}
pub open spec fn ext(max: isize, p: usize) -> int { if max + 1 - p > 0 { max + 1 - p } else { 0 } }

// ---- edits ----
/// b1 is b0 with the tokens start..end replaced by k others
pub open spec fn edited<T>(b0: Seq<T>, b1: Seq<T>, start: int, end: int, k: int) -> bool {
    &&& 0 <= start <= end <= b0.len() && 0 <= k
    &&& b1.len() == b0.len() - (end - start) + k
    &&& forall|i: int| #![trigger b0[i]] #![trigger b1[i]] 0 <= i < start ==> b0[i] == b1[i]
    &&& forall|i: int| end <= i < b0.len() ==> #[trigger] b0[i] == b1[i - end + start + k]
}
pub proof fn lem_edit_seq<T>(b0: Seq<T>, b1: Seq<T>, start: int, end: int, k: int)
    requires 0 <= start <= end <= b0.len(), exists|n: Seq<T>| n.len() == k && b1 == #[trigger] (b0.take(start) + n) + b0.skip(end),
    ensures edited(b0, b1, start, end, k),
{ }
/// columns from the edit onwards describe the new text
pub open spec fn cols_ok<T: Clone + PartialEq>(g: Rules<T>, b: Seq<T>, t: Seq<Column<T>>, from: int, to: int) -> bool {
    forall|p: int| from <= p < to && p < t.len() ==> col_ok(g, b.skip(p), #[trigger] t[p])
}
pub open spec fn blank<T: Clone>(c: Column<T>) -> bool { c.memo@ == Map::<Seq<char>, MemoTableEntry<T>>::empty() && c.max_examined_length == -1 }
pub open spec fn spliced<T: Clone>(t0: Seq<Column<T>>, t1: Seq<Column<T>>, start: int, end: int, k: int) -> bool {
    let e = if end <= t0.len() { end } else { t0.len() as int };
    if start < t0.len() {
        exists|n: Seq<Column<T>>| n.len() == k && (forall|i: int| 0 <= i < k ==> blank(#[trigger] n[i])) && t1 == #[trigger] (t0.take(start) + n) + t0.skip(e)
    } else { t1 == t0 }
}
pub proof fn lem_edit_cols<T: Clone + PartialEq>(g: Rules<T>, b0: Seq<T>, b1: Seq<T>, t0: Seq<Column<T>>, t1: Seq<Column<T>>, start: int, end: int, k: int)
    requires edited(b0, b1, start, end, k), memo_ok(g, b0, t0), spliced(t0, t1, start, end, k),
    ensures
        t1.len() <= b1.len() + 1,
        forall|p: int| 0 <= p < start && p < t1.len() ==> col_ok(g, b0.skip(p), #[trigger] t1[p]),
        forall|p: int| start <= p < t1.len() ==> col_ok(g, b1.skip(p), #[trigger] t1[p]),
{
    if start < t0.len() {
        let e = if end <= t0.len() { end } else { t0.len() as int };
        let n = choose|n: Seq<Column<T>>| n.len() == k && (forall|i: int| 0 <= i < k ==> blank(#[trigger] n[i])) && t1 == #[trigger] (t0.take(start) + n) + t0.skip(e);
        assert forall|p: int| 0 <= p < start && p < t1.len() implies col_ok(g, b0.skip(p), #[trigger] t1[p]) by { assert(t1[p] == t0[p]); }
        assert forall|p: int| start <= p < t1.len() implies col_ok(g, b1.skip(p), #[trigger] t1[p]) by {
            if p < start + k { assert(t1[p] == n[p - start]); }
            else {
                let q = p - start - k + e;
                assert(t1[p] == t0[q]);
                assert(col_ok(g, b0.skip(q), t0[q]));
                assert(b1.skip(p) =~= b0.skip(q)) by {
                    assert forall|i: int| 0 <= i < b1.len() - p implies b1.skip(p)[i] == b0.skip(q)[i] by { assert(b0[q + i] == b1[p + i]); }
                }
            }
        }
    }
}
/// what is left of a column before the edit
pub open spec fn kept<T: Clone>(c: Column<T>, c1: Column<T>, p: int, start: int) -> bool {
    &&& -1 <= c1.max_examined_length && (c1.max_examined_length > 0 ==> p + c1.max_examined_length <= start)
    &&& forall|n: Seq<char>| #[trigger] c1.memo@.dom().contains(n) ==> c.memo@.dom().contains(n) && c1.memo@[n] == c.memo@[n]
            && p + c1.memo@[n].examined_length <= start && c1.memo@[n].examined_length <= c1.max_examined_length
}
/// a column before the edit that only keeps results that did not look at or past the edit describes the new text
pub proof fn lem_col_keep<T: Clone + PartialEq>(g: Rules<T>, b0: Seq<T>, b1: Seq<T>, start: int, end: int, k: int, p: int, c: Column<T>)
    requires edited(b0, b1, start, end, k), 0 <= p < start, col_ok(g, b0.skip(p), c),
    ensures
        forall|c1: Column<T>| #[trigger] kept(c, c1, p, start) ==> col_ok(g, b1.skip(p), c1),
        p + c.max_examined_length <= start ==> col_ok(g, b1.skip(p), c),
        p + c.max_examined_length <= b0.len() + 1,
        forall|n: Seq<char>| #[trigger] c.memo@.dom().contains(n) ==> p + c.memo@[n].examined_length <= b0.len() + 1,
{
    assert forall|c1: Column<T>| #[trigger] kept(c, c1, p, start) implies col_ok(g, b1.skip(p), c1) by {
        assert forall|n: Seq<char>| #[trigger] c1.memo@.dom().contains(n) implies stable(g, b1.skip(p), n, entry_out(c1.memo@[n]), c1.memo@[n].examined_length as int) by {
            assert(c.memo@.dom().contains(n));
            let m = c.memo@[n].examined_length as int;
            let a = b0.skip(p);
            let b = b1.skip(p);
            assert forall|i: int| 0 <= i < m implies a[i] == #[trigger] b[i] by { assert(b0[p + i] == b1[p + i]); }
            assert forall|i: int| 0 <= i < m implies #[trigger] a[i] == b[i] by { assert(b0[p + i] == b1[p + i]); }
            assert(agree(a, b, m));
            lem_stable_move(g, a, b, n, entry_out(c.memo@[n]), m);
        }
    }
    if p + c.max_examined_length <= start { assert(kept(c, c, p, start)); }
    assert forall|n: Seq<char>| #[trigger] c.memo@.dom().contains(n) implies p + c.memo@[n].examined_length <= b0.len() + 1 by { }
}
/// what matching a whole text must return
pub open spec fn parses<T: Clone + PartialEq>(g: Rules<T>, buf: Seq<T>, r: Option<Cst<T>>) -> bool {
    match r {
        Some(c) => holds(g, buf, "start"@, Out::Match(cv(c), buf.len() as int)),
        None => exists|o: Out<T>| #[trigger] holds(g, buf, "start"@, o) && !(o is Match && out_len(o) == buf.len()),
    }
}
pub proof fn lem_parses_unique<T: Clone + PartialEq>(g: Rules<T>, buf: Seq<T>, a: Option<Cst<T>>, b: Option<Cst<T>>)
    requires parses(g, buf, a), parses(g, buf, b),
    ensures (a is Some) == (b is Some), a is Some ==> cv(a->0) == cv(b->0),
{
    let oa = if a is Some { Out::Match(cv(a->0), buf.len() as int) } else { choose|o: Out<T>| #[trigger] holds(g, buf, "start"@, o) && !(o is Match && out_len(o) == buf.len()) };
    let ob = if b is Some { Out::Match(cv(b->0), buf.len() as int) } else { choose|o: Out<T>| #[trigger] holds(g, buf, "start"@, o) && !(o is Match && out_len(o) == buf.len()) };
    lem_unique(g, buf, "start"@, oa, ob);
}
impl<Token: Clone + PartialEq> Parser<Token> {
    pub open spec fn inv(&self) -> bool {
        &&& complete(self.rules@)
        &&& memo_ok(self.rules@, self.buffer@@, self.memo_table@)
        &&& self.buffer@@.len() < isize::MAX - 1
        &&& Token::obeys_eq_spec()
    }
}
impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
    pub open spec fn inv(&self) -> bool {
        &&& complete(self.rules@)
        &&& memo_ok(self.rules@, self.input@, self.memo_table@)
        &&& self.input@.len() < isize::MAX - 1
        &&& self.pos <= self.input@.len()
        &&& -1 <= self.max_examined_pos <= self.input@.len()
        &&& Token::obeys_eq_spec()
    }
    /// same rules, same input, same memo table reference
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool { self.rules == o.rules && self.input == o.input && *final(self.memo_table) == *final(o.memo_table) }
    /// self is the state after evaluating `name` in state o
    pub open spec fn evaluated(&self, o: &Self, name: Seq<char>, r: Option<Rc<Cst<Token>>>) -> bool {
        match r {
            Some(c) => stable(self.rules@, self.input@.skip(o.pos as int), name, Out::Match(cv(*c), self.pos - o.pos), ext(self.max_examined_pos, o.pos)),
            None => stable(self.rules@, self.input@.skip(o.pos as int), name, Out::Fail, ext(self.max_examined_pos, o.pos)),
        }
    }
}

impl<T: Clone> Default for Column<T> {
//@fn par <Column as Default>::default
//@opt novac
//@ret r
//@ensures
    r.memo@ == Map::<Seq<char>, MemoTableEntry<T>>::empty(), r.max_examined_length == -1,
//@endfn

}
impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
//@fn par Matcher::consume
//@ret r
//@requires
    old(self).inv(),
//@ensures
    final(self).inv(), final(self).same(old(self)), final(self).memo_table@ == old(self).memo_table@,
    r == (old(self).pos < old(self).input@.len() && old(self).input@[old(self).pos as int].eq_spec(tk)),
    final(self).pos == old(self).pos + (if r { 1int } else { 0 }),
    final(self).max_examined_pos >= old(self).max_examined_pos, final(self).max_examined_pos >= old(self).pos,
//@endfn

//@fn par Matcher::use_memoized_result
//@opt desugar
//@ret r
//@requires
    old(self).inv(),
//@ensures
    final(self).inv(), final(self).same(old(self)), final(self).memo_table@ == old(self).memo_table@,
    final(self).max_examined_pos >= old(self).max_examined_pos,
    r is Some ==> final(self).evaluated(old(self), rule_name@, r),
    r is None ==> final(self).pos == old(self).pos,
//@start
    proof {
        let gs = self.input@.skip(self.pos as int);
        if self.pos < self.memo_table@.len() && self.memo_table@[self.pos as int].memo@.dom().contains(rule_name@) {
            let gc = self.memo_table@[self.pos as int];
            assert(col_ok(self.rules@, gs, gc));
            let ge = gc.memo@[rule_name@];
            lem_stable_all(self.rules@, gs, rule_name@, entry_out(ge), ge.examined_length as int);
        }
    }
//@endfn

//@fn par Matcher::memoize_result
//@opt desugar
//@requires
    old(self).inv(), pos <= old(self).input@.len(), cst is Some ==> pos <= old(self).pos,
    cst matches Some(c) ==> stable(old(self).rules@, old(self).input@.skip(pos as int), rule_name@, Out::Match(cv(*c), old(self).pos - pos), ext(old(self).max_examined_pos, pos)),
    cst is None ==> stable(old(self).rules@, old(self).input@.skip(pos as int), rule_name@, Out::Fail, ext(old(self).max_examined_pos, pos)),
//@ensures
    final(self).inv(), final(self).same(old(self)), final(self).pos == old(self).pos, final(self).max_examined_pos == old(self).max_examined_pos,
//@loop 0
        invariant
            self.inv(), self.same(old(self)), self.pos == old(self).pos, self.max_examined_pos == old(self).max_examined_pos, pos <= self.input@.len(),
        ensures pos < self.memo_table@.len(),
        decreases pos + 1 - self.memo_table@.len(),
//@endfn

//@fn par Matcher::memoized_eval_rule
//@opt desugar
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@requires
    old(self).inv(), old(self).rules@.dom().contains(rule_name@),
//@ensures
    final(self).inv(), final(self).same(old(self)),
    final(self).max_examined_pos >= old(self).max_examined_pos,
    final(self).evaluated(old(self), rule_name@, r), r is Some ==> final(self).pos >= old(self).pos,
//@start
    broadcast use axiom_rc_cloned;
//@after /let cst = self\.eval_rule/
    let ghost go = out_of(&cst, self.pos - orig_pos);
    proof {
        let gs = self.input@.skip(orig_pos as int);
        lem_stable_all(self.rules@, gs, rule_name@, go, ext(self.max_examined_pos, orig_pos));
    }
//@endfn

//@fn par Matcher::eval_rule
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@requires
    old(self).inv(), old(self).rules@.dom().contains(rule_name@),
//@ensures
    final(self).inv(), final(self).same(old(self)),
    final(self).max_examined_pos >= old(self).max_examined_pos,
    final(self).evaluated(old(self), rule_name@, r), r is Some ==> final(self).pos >= old(self).pos,
//@start
    let ghost gg = self.rules@;
    let ghost gp = self.pos;
    let ghost gs = self.input@.skip(self.pos as int);
    let ghost gn = rule_name@;
    proof { lem_refs(gg, gn); if let Rule::Not(x) = gg[gn] { lem_not_all(gg, gs, gn, x@); } }
//@subst? /&rules\[(\w+)\]/ => rules.v_index($1)
//@subst? /\.into\(\)/ => .v_rc()
//@loop 0 iter it
        invariant
            self.inv(), self.same(old(self)), self.rules@ == gg, gn == rule_name@, old(self).pos == gp, gs == self.input@.skip(gp as int), gp <= self.input@.len(),
            gg[gn] == Rule::Terminal(*vec), it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *(#[trigger] it.seq()[i]) == vec@[i],
            self.pos == gp + it.index(), prefix(gs, vec@.take(it.index())),
            ext(self.max_examined_pos, gp) >= it.index(), self.max_examined_pos >= old(self).max_examined_pos,
//@before /return None/ #0
    proof {
        lem_terminal(gg, gs, gn, vec@, it.index(), false);
        lem_stable_all(gg, gs, gn, Out::Fail, it.index() + 1);
    }
//@afterloop 0
    proof {
        lem_terminal(gg, gs, gn, vec@, vec@.len() as int, true);
        lem_stable_all(gg, gs, gn, Out::Match(SCst::Terminal(vec@), vec@.len() as int), vec@.len() as int);
    }
//@loop 1 iter it
        invariant
            self.inv(), self.same(old(self)), self.rules@ == gg, gn == rule_name@, old(self).pos == gp, gs == self.input@.skip(gp as int), orig_pos == gp, gp <= self.input@.len(),
            gg[gn] == Rule::Choice(*options), it.seq().len() == options@.len(), forall|i: int| 0 <= i < options@.len() ==> *(#[trigger] it.seq()[i]) == options@[i],
            self.max_examined_pos >= old(self).max_examined_pos,
            choice_inv(gg, gs, options@, it.index(), ext(self.max_examined_pos, gp)),
            forall|i: int| 0 <= i < options@.len() ==> gg.dom().contains(#[trigger] options@[i]@),
//@loopstart 1
    let ghost gm = self.max_examined_pos;
//@before /return Some\(Cst::Choice/
    let ghost gc = cvr(&cst);
    proof { lem_choice_hit(gg, gs, gn, options@, it.index(), ext(gm, gp), gc, self.pos - gp, ext(self.max_examined_pos, gp)); }
//@loopend 1
    proof { lem_choice_step(gg, gs, options@, it.index(), ext(gm, gp), ext(self.max_examined_pos, gp)); }
//@afterloop 1
    proof { lem_choice_end(gg, gs, gn, options@, ext(self.max_examined_pos, gp)); }
//@loop 2 iter it
        invariant
            self.inv(), self.same(old(self)), self.rules@ == gg, gn == rule_name@, old(self).pos == gp, gs == self.input@.skip(gp as int), gp <= self.pos,
            gg[gn] == Rule::Sequence(*parts), it.seq().len() == parts@.len(), forall|i: int| 0 <= i < parts@.len() ==> *(#[trigger] it.seq()[i]) == parts@[i],
            self.max_examined_pos >= old(self).max_examined_pos,
            seq_inv(gg, gs, parts@, it.index(), cvs(matches@), self.pos - gp, ext(self.max_examined_pos, gp)),
            forall|i: int| 0 <= i < parts@.len() ==> gg.dom().contains(#[trigger] parts@[i]@),
//@loopstart 2
    let ghost gm = self.max_examined_pos;
    let ghost gq = self.pos;
    let ghost ga = cvs(matches@);
    proof { assert(self.input@.skip(gq as int) =~= gs.skip(gq - gp)); }
//@before /return None/ #1
    proof { lem_seq_fail(gg, gs, gn, parts@, it.index(), ga, gq - gp, ext(gm, gp), ext(self.max_examined_pos, gq), ext(self.max_examined_pos, gp)); }
//@loopend 2
    let ghost gc = cvr(&matches@.last());
    proof {
        assert(cvs(matches@) =~= ga.push(gc));
        lem_seq_step(gg, gs, parts@, it.index(), ga, gq - gp, ext(gm, gp), gc, self.pos - gq, ext(self.max_examined_pos, gq), ext(self.max_examined_pos, gp));
    }
//@beforeloop 2
    proof { assert(cvs(matches@) =~= Seq::empty()); }
//@afterloop 2
    proof { lem_seq_end(gg, gs, gn, parts@, cvs(matches@), self.pos - gp, ext(self.max_examined_pos, gp)); lem_cvs(matches); }
//@loop 3
        invariant
            self.inv(), self.same(old(self)), self.rules@ == gg, gn == rule_name@, old(self).pos == gp, gs == self.input@.skip(gp as int), gp <= self.pos,
            gg[gn] == Rule::Repetition(*rule), gg.dom().contains(rule@),
            self.max_examined_pos >= old(self).max_examined_pos,
            rep_inv(gg, gs, rule@, cvs(matches@), self.pos - gp, ext(self.max_examined_pos, gp)),
//@beforeloop 3
    proof { assert(cvs(matches@) =~= Seq::empty()); }
//@loopstart 3
    let ghost gm = self.max_examined_pos;
    let ghost gq = self.pos;
    let ghost ga = cvs(matches@);
    proof { assert(self.input@.skip(gq as int) =~= gs.skip(gq - gp)); }
//@after /matches\.push\(cst\);$/ #1
    let ghost gc = cvr(&matches@.last());
    proof {
        assert(cvs(matches@) =~= ga.push(gc));
        lem_rep_step(gg, gs, rule@, ga, gq - gp, ext(gm, gp), gc, self.pos - gq, ext(self.max_examined_pos, gq), ext(self.max_examined_pos, gp));
    }
//@before /break Some\(Cst::Repetition/
    proof {
        lem_rep_end(gg, gs, gn, rule@, ga, gq - gp, ext(gm, gp), ext(self.max_examined_pos, gq), ext(self.max_examined_pos, gp));
        lem_cvs(matches);
    }
//@endfn

}
impl<Token: Clone + PartialEq> Parser<Token> {
//@fn par Parser::from_rules
//@opt novac
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@requires
    Token::obeys_eq_spec(),
//@ensures
    r is Ok <==> complete(contents::<R, Token>(*rules)),
    r matches Ok(f) ==> forall|b: RwLock<Vec<Token>>| f.requires((b,)),
    r matches Ok(f) ==> forall|b: RwLock<Vec<Token>>, p: Parser<Token>| #[trigger] f.ensures((b,), p) ==>
        p.rules@ == contents::<R, Token>(*rules) && p.buffer == b && p.memo_table@.len() == 0 && (b@@.len() < isize::MAX - 1 ==> p.inv()),
//@subst? /rules\.clone\(\)\.into\(\)/ => v_into(rules)
//@subst? /\.into\(\)/ => .v_rc()
//@subst? / in (\w+: )?&?rules(\.iter\(\))?\s/ => in ${1}rules.v_entries() 
//@closure 0 |rule: &Rule<Token>| -> (n: Vec<RuleName>) requires true, ensures strs(n) =~= refs(*rule)
//@subst? /\.iter\(\)\s*\.(v_)?find\(/ => .v_iter_find(
//@closure 2 move |buffer: RwLock<Vec<Token>>| -> (p: Parser<Token>) requires true, ensures p.rules@ == gm, p.buffer == buffer, p.memo_table@.len() == 0
//@closure 1 |name: &&RuleName| -> (b: bool) ensures b == !gm.dom().contains((**name)@)
//@start
    let ghost gm = contents::<R, Token>(*rules);
//@loop 0 iter it
        invariant
            rules@ == gm, gm.dom().contains("start"@),
            forall|r: &Rule<Token>| neighbours.requires((r,)),
            forall|r: &Rule<Token>, n: Vec<RuleName>| neighbours.ensures((r,), n) ==> strs(n) == refs(*r),
            forall|i: int| 0 <= i < it.seq().len() ==> gm.dom().contains((*#[trigger] it.seq()[i].0)@) && *it.seq()[i].1 == gm[(*it.seq()[i].0)@],
            forall|k: Seq<char>| #[trigger] gm.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && (*#[trigger] it.seq()[i].0)@ == k,
            forall|i: int| 0 <= i < it.index() ==> defined(gm, refs(*(#[trigger] it.seq()[i]).1)),
//@loopend 0
    proof { assert(defined(gm, refs(grule))) by { 
    if !defined(gm, refs(grule)) { let j = choose|j: int| 0 <= j < refs(grule).len() && !gm.dom().contains((#[trigger] refs(grule)[j])@);
      assert(0 <= j < refs(grule).len());
       } } }
//@loopstart 0
    let ghost grule = *rule;
    proof {
        assert(gm.dom().contains((*it.seq()[it.index()].0)@) && *rule == gm[(*it.seq()[it.index()].0)@]);
        lem_incomplete(gm, (*it.seq()[it.index()].0)@);
        lem_defined(gm, refs(*rule));
    }
//@endfn

//@fn par Parser::apply_edit
//@hoist invalidate_entries_in_column
//@requires
    old(self).inv(), range.start <= range.end <= old(self).buffer@@.len(),
    old(self).buffer@@.len() - (range.end - range.start) + r@.len() < isize::MAX - 1,
//@ensures
    final(self).inv(), final(self).rules == old(self).rules,
    exists|n: Seq<Token>| n.len() == r@.len() && (forall|i: int| 0 <= i < n.len() ==> cloned(r@[i], #[trigger] n[i])) &&
        final(self).buffer@@ == old(self).buffer@@.take(range.start as int) + n + old(self).buffer@@.skip(range.end as int),
//@start
    let ghost gg = self.rules@;
    let ghost b0 = self.buffer@@;
    let ghost t0 = self.memo_table@;
    let ghost start = range.start as int;
    let ghost end = range.end as int;
    let ghost k = r@.len() as int;
//@beforeloop 0
    let ghost b1 = self.buffer@@;
    let ghost t1 = self.memo_table@;
    proof {
        lem_edit_seq(b0, b1, start, end, k);
        lem_edit_cols(gg, b0, b1, t0, t1, start, end, k);
    }
//@loop 0 iter it
        invariant
            self.rules == old(self).rules, self.buffer@@ == b1, gg == self.rules@, start == range.start, complete(gg), Token::obeys_eq_spec(),
            b1.len() < isize::MAX - 1, b0.len() < isize::MAX - 1, edited(b0, b1, start, end, k),
            self.memo_table@.len() == t1.len(), t1.len() <= b1.len() + 1, it.index() == pos,
            forall|p: int| 0 <= p < start && p < t1.len() ==> col_ok(gg, b0.skip(p), #[trigger] t1[p]),
            forall|p: int| start <= p < t1.len() ==> col_ok(gg, b1.skip(p), #[trigger] t1[p]),
            forall|p: int| 0 <= p < it.index() && p < t1.len() ==> col_ok(gg, b1.skip(p), #[trigger] self.memo_table@[p]),
            forall|p: int| it.index() <= p < t1.len() ==> #[trigger] self.memo_table@[p] == t1[p],
//@loopstart 0
    let ghost tp = self.memo_table@;
    proof { if pos < t1.len() { lem_col_keep(gg, b0, b1, start, end, k, pos as int, t1[pos as int]); } }
//@endfn

//@fn par Parser::_match
//@opt desugar
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@requires
    old(self).inv(),
//@ensures
    final(self).inv(), final(self).rules == old(self).rules, final(self).buffer == old(self).buffer,
    parses(old(self).rules@, old(self).buffer@@, r),
//@start
    proof { lem_stable_holds(self.rules@, self.buffer@@, "start"@); }
//@endfn
}
pub open spec fn strs(v: Vec<&'static str>) -> Seq<&'static str> { v@ }
pub open spec fn has_name(s: Seq<&'static str>, n: Seq<char>) -> bool { exists|m: int| 0 <= m < s.len() && #[trigger] s[m]@ == n }
pub proof fn lem_has_name_push(s: Seq<&'static str>, k: &'static str)
    ensures forall|n: Seq<char>| #[trigger] has_name(s.push(k), n) <==> has_name(s, n) || n == k@,
{
    assert forall|n: Seq<char>| #[trigger] has_name(s.push(k), n) <==> has_name(s, n) || n == k@ by {
        if has_name(s, n) { let m = choose|m: int| 0 <= m < s.len() && #[trigger] s[m]@ == n; assert(s.push(k)[m] == s[m]); }
        if n == k@ { assert(s.push(k)[s.len() as int] == k); }
    }
}
//@fn par Parser::apply_edit::invalidate_entries_in_column
//@requires
    pos <= isize::MAX,
    forall|n: Seq<char>| #[trigger] old(col).memo@.dom().contains(n) ==> pos + old(col).memo@[n].examined_length <= isize::MAX,
//@ensures
    kept(*old(col), *final(col), pos as int, start_pos as int),
//@subst? / in (\w+: )?&(\w+\.memo)\b/ => in ${1}$2.v_entries()
//@loop 0 iter it
        invariant
            *col == *old(col), pos <= isize::MAX,
            forall|i: int| 0 <= i < it.seq().len() ==> col.memo@.dom().contains((*#[trigger] it.seq()[i].0)@) && *it.seq()[i].1 == col.memo@[(*it.seq()[i].0)@],
            forall|k: Seq<char>| #[trigger] col.memo@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && (*#[trigger] it.seq()[i].0)@ == k,
            forall|n: Seq<char>| #[trigger] col.memo@.dom().contains(n) ==> pos + col.memo@[n].examined_length <= isize::MAX,
            new_max > 0 ==> pos + new_max <= start_pos, new_max <= isize::MAX,
            forall|i: int| 0 <= i < it.index() ==> has_name(strs(to_remove), (*(#[trigger] it.seq()[i]).0)@)
                || (pos + it.seq()[i].1.examined_length <= start_pos && it.seq()[i].1.examined_length <= new_max),
//@loopstart 0
    let ghost tr0 = strs(to_remove);
//@loopend 0
    proof {
        let tr1 = strs(to_remove);
        lem_has_name_push(tr0, *rule_name);
        assert(tr1 == tr0 || tr1 == tr0.push(*rule_name));
    }
//@loop 1 iter it
        invariant
            forall|n: Seq<char>| #[trigger] col.memo@.dom().contains(n) ==> old(col).memo@.dom().contains(n) && col.memo@[n] == old(col).memo@[n]
                && !has_name(it.seq().take(it.index()), n),
//@beforeloop 1
    let ghost tr = strs(to_remove);
//@loopend 1
    proof {
        assert(it.seq().take(it.index() + 1) =~= it.seq().take(it.index()).push(k));
        lem_has_name_push(it.seq().take(it.index()), k);
    }
//@afterloop 1
    proof { assert(tr.take(tr.len() as int) =~= tr); }
//@endfn
pub uninterp spec fn contents<R, T: Clone>(r: R) -> Rules<T>;
/// rules.clone().into()
#[verifier::external_body]
pub fn v_into<R: Into<HashMap<RuleName, Rule<T>>> + Clone, T: Clone>(r: &R) -> (m: HashMap<RuleName, Rule<T>>) ensures m@ == contents::<R, T>(*r) { unimplemented!() }
pub struct Error {}
pub fn v_anyhow() -> Error { Error {} }
pub type Result<T> = core::result::Result<T, Error>;
/// v.iter().find(p)
pub trait VFind<T>: Sized {
    spec fn elems(&self) -> Seq<T>;
    fn v_iter_find<P: Fn(&&T) -> bool>(&self, p: P) -> (r: Option<&T>)
        requires forall|i: int| 0 <= i < self.elems().len() ==> p.requires((&&#[trigger] self.elems()[i],)),
        ensures
            r matches Some(x) ==> self.elems().contains(*x) && p.ensures((&x,), true),
            r is None ==> none_of(self.elems(), p);
}
pub open spec fn none_of<T, P: Fn(&&T) -> bool>(s: Seq<T>, p: P) -> bool { forall|i: int| 0 <= i < s.len() ==> p.ensures((&&#[trigger] s[i],), false) }
impl<T> VFind<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter_find<P: Fn(&&T) -> bool>(&self, p: P) -> (r: Option<&T>) { unimplemented!() }
}
pub trait VRc: Sized { fn v_rc(self) -> (r: Rc<Self>) ensures *r == self; }
impl<T> VRc for T { fn v_rc(self) -> (r: Rc<T>) { Rc::new(self) } }
}
fn main() {}
