// ---- std::collections::HashMap (trusted model: a finite map keyed by the value of the key) ----
pub trait HKey { type A; spec fn key(&self) -> Self::A; }
impl HKey for str { type A = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl HKey for String { type A = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl<'a, T: HKey + ?Sized> HKey for &'a T { type A = T::A; open spec fn key(&self) -> T::A { (**self).key() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K: HKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::A, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::A, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: HKey<A = K::A> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: HKey<A = K::A> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k.key()) { Some(&self@[k.key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: HKey<A = K::A> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.key()), r == (if old(self)@.dom().contains(k.key()) { Some(old(self)@[k.key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.key(), v), r == (if old(self)@.dom().contains(k.key()) { Some(old(self)@[k.key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<K: HKey, V> Default for HashMap<K, V> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K::A, V>::empty() { unimplemented!() }
}
