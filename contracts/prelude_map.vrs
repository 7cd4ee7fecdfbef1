// ---- std::collections::HashMap keyed by string contents (trusted model: a finite map) ----
pub trait StrKey { spec fn key(&self) -> Seq<char>; }
impl StrKey for str { open spec fn key(&self) -> Seq<char> { self@ } }
impl StrKey for &'static str { open spec fn key(&self) -> Seq<char> { (*self)@ } }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<V> HashMap<&'static str, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn contains_key<Q: StrKey + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: StrKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k.key()) { Some(&self@[k.key()]) } else { None }) { unimplemented!() }
    /// map[key]
    #[verifier::external_body]
    pub fn v_index<Q: StrKey + ?Sized>(&self, k: &Q) -> (r: &V)
        requires self@.dom().contains(k.key()), ensures *r == self@[k.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: StrKey + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'static str, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    /// the entries in some order, each once
    #[verifier::external_body]
    pub fn v_entries<'a>(&'a self) -> (r: Vec<(&'a &'static str, &'a V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((*#[trigger] r@[i].0)@) && *r@[i].1 == self@[(*r@[i].0)@],
            forall|k: Seq<char>| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (*#[trigger] r@[i].0)@ == k,
    { unimplemented!() }
}
impl<V> Default for HashMap<&'static str, V> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
}
