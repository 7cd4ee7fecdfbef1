// ---- iterator wrappers: `.enumerate()` and `.skip()` on iter_mut get wrapper types/contracts ----
pub struct VEnumerate<I> { inner: I, n: usize }
impl<I: Iterator> Iterator for VEnumerate<I> {
    type Item = (usize, I::Item);
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, I::Item)>) {
        match self.inner.next() { None => None, Some(x) => { let k = self.n; self.n += 1; Some((k, x)) } }
    }
}
impl<I: Iterator> VEnumerate<I> {
    pub closed spec fn v_inner(&self) -> I { self.inner }
    pub closed spec fn v_n(&self) -> int { self.n as int }
}
impl<I: Iterator> vstd::std_specs::iter::IteratorSpecImpl for VEnumerate<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.v_inner().obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<(usize, I::Item)> {
        Seq::new(self.v_inner().remaining().len(), |i: int| ((self.v_n() + i) as usize, self.v_inner().remaining()[i]))
    }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.v_inner().will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { self.v_inner().decrease() }
    open spec fn peek(&self, k: int) -> Option<(usize, I::Item)> {
        match self.v_inner().peek(k) { Some(x) => Some(((self.v_n() + k) as usize, x)), None => None }
    }
}
pub trait VIterExt: Iterator + Sized {
    fn v_enumerate(self) -> (r: VEnumerate<Self>) ensures r.v_inner() == self, r.v_n() == 0;
}
impl<I: Iterator> VIterExt for I {
    fn v_enumerate(self) -> (r: VEnumerate<Self>) { VEnumerate { inner: self, n: 0 } }
}
