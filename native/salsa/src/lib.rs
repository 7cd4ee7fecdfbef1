//! A stand-in for salsa (which is not available offline), for the native search only: queries are recomputed instead of
//! remembered, values are leaked. It is not part of any proof.
pub use salsa_2022_macros::*;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::marker::PhantomData;
pub struct Storage<D>(PhantomData<D>);
impl<D> Default for Storage<D> { fn default() -> Self { Storage(PhantomData) } }
pub trait Database {}
pub trait DbWithJar<J> {}
impl<T: Database, J> DbWithJar<J> for T {}
thread_local! { static ACC: RefCell<Vec<(TypeId, Box<dyn Any>)>> = RefCell::new(vec![]); }
pub fn push<K: 'static, V: 'static>(v: V) { ACC.with(|a| a.borrow_mut().push((TypeId::of::<K>(), Box::new(v)))) }
pub trait Accumulator: 'static { type Data: Clone + 'static; }
pub fn collect<A: Accumulator>(f: impl FnOnce()) -> Vec<A::Data> {
    let old = ACC.with(|a| std::mem::take(&mut *a.borrow_mut()));
    f();
    let got = ACC.with(|a| std::mem::replace(&mut *a.borrow_mut(), old));
    got.into_iter().filter(|(t, _)| *t == TypeId::of::<A>()).map(|(_, v)| *v.downcast::<A::Data>().unwrap()).collect()
}
/// interned values: equal contents give the same address
pub fn intern<T: Clone + Eq + std::hash::Hash + Send + Sync + 'static>(x: T) -> &'static T {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static TAB: Mutex<Option<HashMap<TypeId, Box<dyn Any + Send>>>> = Mutex::new(None);
    let mut g = TAB.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new).entry(TypeId::of::<T>()).or_insert_with(|| Box::new(HashMap::<T, &'static T>::new()));
    let m = m.downcast_mut::<HashMap<T, &'static T>>().unwrap();
    if let Some(r) = m.get(&x) { return r }
    let r: &'static T = Box::leak(Box::new(x.clone()));
    m.insert(x, r);
    r
}
