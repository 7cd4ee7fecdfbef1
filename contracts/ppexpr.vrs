#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@file p crates/analyzer-core/src/preprocessor.rs
//@method p contains v_contains
verus! {
global size_of usize == 8;
//@include prelude_hmap.vrs
//@item p enum PreprocessorBinOp [open]
//@item p enum PreprocessorExpression [open]
//@item p type PreprocessorValue
pub struct PreprocessorState<'a> { pub definitions: HashMap<String, String>, pub t: core::marker::PhantomData<&'a ()> }
pub struct NomError {}
#[verifier::external_body]
pub fn expression<'a>(t: &'a String) -> (r: Result<(&'a str, PreprocessorExpression), NomError>)
    ensures (r matches Ok(x) ==> parsed(t@) == Some(x.1)), r is Err ==> parsed(t@) is None { unimplemented!() }
//@include prelude_pp.vrs
pub assume_specification[ i64::checked_shl ](l: i64, n: u32) -> (r: Option<i64>) ensures r == (if n < 64 { Some(shl(l, n)) } else { None });
pub assume_specification[ i64::checked_shr ](l: i64, n: u32) -> (r: Option<i64>) ensures r == (if n < 64 { Some(shr(l, n)) } else { None });
pub trait VContains<T> { spec fn has(&self, x: T) -> bool; fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.has(*x); }
impl VContains<String> for Vec<String> {
    open spec fn has(&self, x: String) -> bool { names(*self).contains(x@) }
    #[verifier::external_body] fn v_contains(&self, x: &String) -> (r: bool) { unimplemented!() }
}
pub open spec fn list(v: Vec<String>) -> Seq<Seq<char>> { v@.map_values(|s: String| s@) }
pub open spec fn names(v: Vec<String>) -> Set<Seq<char>> { list(v).to_set() }
pub open spec fn f_empty() -> bool { forall|v: Vec<String>| v@.len() == 0 ==> #[trigger] names(v) == Set::<Seq<char>>::empty() }
pub open spec fn f_push() -> bool { forall|v: Vec<String>, w: Vec<String>, x: String| v@ == #[trigger] w@.push(x) ==> #[trigger] list(v) == list(w).push(x@) }
pub open spec fn f_pop() -> bool { forall|v: Vec<String>, w: Vec<String>| v@.len() > 0 && w@ == v@.drop_last() ==> #[trigger] list(w) == (#[trigger] list(v)).drop_last() }
pub open spec fn f_insert() -> bool { forall|s: Seq<Seq<char>>, x: Seq<char>| #[trigger] s.push(x).to_set() == s.to_set().insert(x) }
pub open spec fn f_more(d: Map<Seq<char>, String>) -> bool { forall|x: Set<Seq<char>>, n: Seq<char>| !x.contains(n) && d.dom().contains(n) ==> d.dom().difference(#[trigger] x.insert(n)).len() < d.dom().difference(x).len() }
pub proof fn lem_lists(d: Map<Seq<char>, String>) ensures f_empty(), f_push(), f_pop(), f_insert(), f_more(d)
{
    assert forall|v: Vec<String>| v@.len() == 0 implies #[trigger] names(v) == Set::<Seq<char>>::empty() by { assert(names(v) =~= Set::<Seq<char>>::empty()); }
    assert forall|v: Vec<String>, w: Vec<String>, x: String| v@ == #[trigger] w@.push(x) implies #[trigger] list(v) == list(w).push(x@) by { assert(list(v) =~= list(w).push(x@)); }
    assert forall|v: Vec<String>, w: Vec<String>| v@.len() > 0 && w@ == v@.drop_last() implies #[trigger] list(w) == (#[trigger] list(v)).drop_last() by { assert(list(w) =~= list(v).drop_last()); }
    assert forall|s: Seq<Seq<char>>, x: Seq<char>| #[trigger] s.push(x).to_set() == s.to_set().insert(x) by {
        assert forall|y: Seq<char>| s.push(x).to_set().contains(y) == s.to_set().insert(x).contains(y) by {
            if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
            if y == x { assert(s.push(x)[s.len() as int] == y); }
            if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
        }
        assert(s.push(x).to_set() =~= s.to_set().insert(x));
    }
    assert forall|x: Set<Seq<char>>, n: Seq<char>| !x.contains(n) && d.dom().contains(n) implies d.dom().difference(#[trigger] x.insert(n)).len() < d.dom().difference(x).len() by { lem_more(d, x, n); }
}
} // verus!
verus! {
impl<'a> PreprocessorState<'a> {
//@fn p PreprocessorState::interpret_expansion
//@ret r
//@requires
    true,
//@ensures
    r == ev(self.definitions@, names(*old(expanding)), *cond),
    list(*final(expanding)) == list(*old(expanding)),
//@decreases self.definitions@.dom().difference(names(*old(expanding))).len(), cond
//@start
    proof { lem_lists(self.definitions@); }
//@endfn
//@fn p PreprocessorState::interpret_pp_expr
//@ret r
//@requires
    true,
//@ensures
    r == ev(self.definitions@, set![], *cond),
//@start
    proof { lem_lists(self.definitions@); }
//@endfn
//@fn p PreprocessorState::interpret_condition
//@ret r
//@requires
    true,
//@ensures
    r == holds(self.definitions@, *cond),
//@endfn
}
} // verus!
fn main() {}
