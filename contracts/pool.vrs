#![feature(allocator_api)]
use vstd::prelude::*;
use std::task::Poll;
use std::sync::Arc;
//@file p crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
//@method p .await v_await
//@path p WORK_CHANNEL vx_work_channel()
//@path p Box::pin v_box_pin
//@path p std::mem::forget vx_forget
//@path p mem::forget vx_forget
//@path p core::mem::forget vx_forget
//@ghostarg p std::mem::forget Tracked(w)
//@ghostarg p mem::forget Tracked(w)
//@ghostarg p is_canceled Tracked(w)
//@ghostarg p recv Tracked(w)
//@ghostarg p try_recv Tracked(w)
//@ghostarg p v_await Tracked(w)
//@ghostarg p lock Tracked(w)
//@ghostarg p poll Tracked(w)
//@ghostarg p is_closed Tracked(w)
//@ghostarg p close Tracked(w)
//@ghostarg p send_blocking Tracked(w)
//@ghostarg p try_send Tracked(w)
//@ghostarg p wake_by_ref Tracked(w)

verus! {
global size_of usize == 8;

// ---- model: a future by its identity, std::sync::Mutex, async_channel, cancellation, wakers ----
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct BoxFuture<'a, T> { t: core::marker::PhantomData<&'a T> }
pub type BoxFut = BoxFuture<'static, ()>;
impl BoxFut {
    /// which future this is, and which piece of work (by its mutex) it belongs to
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn home(&self) -> int;
    #[verifier::external_body] pub fn as_mut(&mut self) -> (r: &mut BoxFut) ensures *r == *old(self), *final(r) == *final(self) { unimplemented!() }
    /// a future is not polled again after it has completed, and its waker is the one of the work it belongs to
    #[verifier::external_body] pub fn poll(&mut self, cx: &mut Context, Tracked(w): Tracked<&mut World>) -> (r: Poll<()>)
        requires !old(w).done.contains(old(self).id()), old(cx).work() == old(self).home(),
        ensures final(self).id() == old(self).id(), final(self).home() == old(self).home(), final(cx).work() == old(cx).work(),
            final(w).slots == old(w).slots, final(w).stays(*old(w)),
            final(w).owed == (if old(w).owed == Some(old(self).home()) { None } else { old(w).owed }),
            r is Pending ==> final(w).waiting == old(w).waiting.insert(old(self).id()) && final(w).done == old(w).done,
            r is Ready ==> final(w).waiting == old(w).waiting.remove(old(self).id()) && final(w).done == old(w).done.insert(old(self).id()),
    { unimplemented!() }
}
pub trait Future: Sized { type Output; spec fn fid(&self) -> int; }
impl Future for BoxFut { type Output = (); open spec fn fid(&self) -> int { self.id() } }
#[verifier::external_body] pub fn v_box_pin<T: Future>(f: T) -> (r: BoxFut) ensures r.id() == f.fid() { unimplemented!() }

/// what has happened: slots of the pieces of work, futures that wait to be woken, futures that completed,
/// work taken from the queue and not polled yet, work put into the queue, work that is never dropped, and whether the queue was closed, used up, the token cancelled
pub tracked struct World {
    pub ghost slots: Map<int, Option<BoxFut>>, pub ghost waiting: Set<int>, pub ghost done: Set<int>, pub ghost owed: Option<int>,
    pub ghost sent: Seq<Arc<AsyncWork>>, pub ghost held: Set<Arc<AsyncWork>>, pub ghost closed: bool, pub ghost drained: bool, pub ghost canceled: bool,
}
impl World {
    pub open spec fn stays(&self, o: World) -> bool { (o.closed ==> self.closed) && (o.canceled ==> self.canceled) }
    pub open spec fn same(&self, o: World) -> bool { self.stays(o) && self.sent == o.sent && self.slots == o.slots && self.waiting == o.waiting && self.done == o.done && self.owed == o.owed && (o.drained ==> self.drained) }
    /// a future that waits is in the slot of its work; a future in a slot has not completed
    pub open spec fn kept(&self) -> bool {
        &&& forall|m: int| (#[trigger] self.slots[m]) matches Some(f) ==> f.home() == m && !self.done.contains(f.id()) && home_of(f.id()) == m
        &&& forall|i: int| #[trigger] self.waiting.contains(i) ==> self.slots[home_of(i)] is Some && self.slots[home_of(i)]->0.id() == i
    }
}
pub uninterp spec fn home_of(i: int) -> int;
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Mutex<T> { t: core::marker::PhantomData<T> }
impl Mutex<Option<BoxFut>> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn init(&self) -> Option<BoxFut>;
    #[verifier::external_body] pub fn new(v: Option<BoxFut>) -> (r: Self) ensures r.init() == v, v matches Some(f) ==> f.home() == r.id() && home_of(f.id()) == r.id() { unimplemented!() }
    /// the slot holds, from now on, what the holder of the lock leaves in it
    #[verifier::external_body] pub fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: Locked)
        ensures r.cur() == old(w).slots[self.id()], final(w).slots == old(w).slots.insert(self.id(), r.fin()),
            final(w).waiting == old(w).waiting, final(w).done == old(w).done, final(w).stays(*old(w)),
            final(w).owed == (if old(w).owed == Some(self.id()) && r.cur() is None { None } else { old(w).owed }),
    { unimplemented!() }
}
#[verifier::external_body] pub struct Locked {}
impl Locked {
    pub uninterp spec fn cur(&self) -> Option<BoxFut>;
    pub uninterp spec fn fin(&self) -> Option<BoxFut>;
    // poisoned only when a piece of work panicked
    #[verifier::external_body] pub fn unwrap<'a>(self) -> (r: &'a mut Option<BoxFut>) ensures *r == self.cur(), *final(r) == self.fin() { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Recv<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct RecvError {}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct SendError<T> { t: core::marker::PhantomData<T> }
impl<T> SendError<T> {
    pub uninterp spec fn value(&self) -> T;
    #[verifier::external_body] pub fn into_inner(self) -> (r: T) ensures r == self.value() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_forget(x: Arc<AsyncWork>, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { held: old(w).held.insert(x), ..*old(w) }) { unimplemented!() }
impl<T> core::fmt::Debug for SendError<T> { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
/// the queue of the pool of this thread
pub uninterp spec fn pool() -> int;
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.chan() == self.chan() { unimplemented!() } }
impl<T> Sender<T> {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (b: bool)
        ensures final(w).same(*old(w)), b && self.chan() == pool() ==> final(w).closed { unimplemented!() }
    #[verifier::external_body] pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (b: bool)
        ensures final(w).sent == old(w).sent, final(w).stays(*old(w)), self.chan() == pool() ==> final(w).closed, final(w).slots == old(w).slots { unimplemented!() }
}
impl Sender<Arc<AsyncWork>> {
    /// sending fails when the queue is closed, which other threads may do at any time
    #[verifier::external_body] pub fn send_blocking(&self, x: Arc<AsyncWork>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendError<Arc<AsyncWork>>>)
        ensures final(w).stays(*old(w)), r is Ok && self.chan() == pool() ==> final(w).sent == old(w).sent.push(x), final(w).held == old(w).held, r matches Err(e) ==> e.value() == x && final(w).sent == old(w).sent && (self.chan() == pool() ==> final(w).closed) { unimplemented!() }
    #[verifier::external_body] pub fn try_send(&self, x: Arc<AsyncWork>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendError<Arc<AsyncWork>>>)
        ensures final(w).stays(*old(w)), r is Ok && self.chan() == pool() ==> final(w).sent == old(w).sent.push(x), final(w).held == old(w).held, r matches Err(e) ==> e.value() == x && final(w).sent == old(w).sent && (self.chan() == pool() ==> final(w).closed) { unimplemented!() }
}
impl Receiver<Arc<AsyncWork>> {
    #[verifier::external_body] pub fn recv(&self, Tracked(w): Tracked<&mut World>) -> (r: Recv<Arc<AsyncWork>>) ensures *final(w) == *old(w) { unimplemented!() }
}
impl<T> Receiver<T> {
    #[verifier::external_body] pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures final(w).same(*old(w)), b ==> final(w).closed { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (b: usize) { unimplemented!() }
}
impl<T> Sender<T> {
    #[verifier::external_body] pub fn is_empty(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (b: usize) { unimplemented!() }
}
impl Recv<Arc<AsyncWork>> {
    /// waiting for the next piece of work is allowed only when the last one has been polled (or had completed) and the token was not cancelled.
    /// Meanwhile others may spawn and wake, but nobody else takes a future out of its slot or polls it.
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Arc<AsyncWork>, RecvError>)
        requires old(w).owed is None, old(w).kept(), !old(w).canceled,
        ensures final(w).kept(), final(w).waiting == old(w).waiting, final(w).done == old(w).done, final(w).stays(*old(w)),
            r matches Ok(x) ==> final(w).owed == Some(x.future.id()) && x.sender.chan() == pool(),
            r is Err ==> final(w).owed is None && final(w).closed && final(w).drained,
    { unimplemented!() }
}
#[verifier::external_body] pub struct CancellationToken {}
pub struct OperationCanceled;
impl CancellationToken {
    #[verifier::external_body] pub fn is_canceled(&self, Tracked(w): Tracked<&mut World>) -> (b: bool)
        ensures b == final(w).canceled, final(w).same(*old(w)) { unimplemented!() }
}
#[verifier::external_body] pub struct Waker {}
impl Waker { pub uninterp spec fn work(&self) -> int; }
/// the waker that calls AsyncWork::wake_by_ref
#[verifier::external_body] pub fn waker_ref<'a>(x: &'a Arc<AsyncWork>) -> (r: &'a Waker) ensures r.work() == x.future.id() { unimplemented!() }
#[verifier::external_body] pub struct Context {}
impl Context {
    pub uninterp spec fn work(&self) -> int;
    #[verifier::external_body] pub fn from_waker(x: &Waker) -> (r: Context) ensures r.work() == x.work() { unimplemented!() }
}
#[verifier::external_type_specification] #[verifier::accept_recursive_types(T)] pub struct ExPoll<T>(Poll<T>);
pub assume_specification<T>[ Poll::<T>::is_pending ](x: &Poll<T>) -> (r: bool) ensures r == (x is Pending);
pub assume_specification<T>[ Poll::<T>::is_ready ](x: &Poll<T>) -> (r: bool) ensures r == (x is Ready);
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ Arc::<T, A>::strong_count ](x: &Arc<T, A>) -> (r: usize);
#[verifier::external_body] pub fn vx_work_channel() -> (r: (Sender<Arc<AsyncWork>>, Receiver<Arc<AsyncWork>>)) ensures r.0.chan() == pool() { unimplemented!() }
pub type WorkChannel = (Sender<Arc<AsyncWork>>, Receiver<Arc<AsyncWork>>);
pub struct AsyncPool;

// ---- extracted items ----
//@item p struct AsyncWork [open]
} // verus!
verus! {
impl AsyncWork {
//@fn p AsyncWork::new
//@ret r
//@requires
    true,
//@ensures
    r.sender == sender, r.future.init() matches Some(f) && f.id() == future.fid() && f.home() == r.future.id(),
//@endfn
}
impl AsyncWork {
//@fn p <AsyncWork as ArcWake>::wake_by_ref
//@rename wake_by_ref
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    arc_self.sender.chan() == pool(),
//@ensures
    // woken work is in the queue again, unless the pool has been stopped; in neither case the work is dropped by whom wakes it
    final(w).sent == old(w).sent.push(*arc_self) || (final(w).closed && final(w).sent == old(w).sent && final(w).held.contains(*arc_self)),
//@endfn
}
impl AsyncPool {
//@fn p AsyncPool::start
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@subst? /\.with\(\|(?:\w+)\| (?:\w+)\.borrow\(\)\.clone\(\)\)/ => 
//@requires
    old(w).kept(), old(w).owed is None,
//@ensures
    final(w).kept(), final(w).owed is None,
    r is Err <==> final(w).canceled,
    r is Ok ==> final(w).closed && final(w).drained,
//@loop 0
    invariant_except_break
        w.kept(), w.owed is None,
    ensures
        w.kept(), w.owed is None, w.canceled || (w.closed && w.drained),
//@endfn
//@fn p AsyncPool::stop
//@ghostparam Tracked(w): Tracked<&mut World>
//@subst? /\.with\(\|(?:\w+)\| (?:\w+)\.borrow\(\)\.clone\(\)\)/ => 
//@requires
    true,
//@ensures
    final(w).closed, final(w).sent == old(w).sent,
//@endfn
//@fn p AsyncPool::spawn_work
//@ghostparam Tracked(w): Tracked<&mut World>
//@subst? /\.with\(\|(?:\w+)\| (?:\w+)\.borrow\(\)\.clone\(\)\)/ => 
//@requires
    true,
//@ensures
    (final(w).closed && final(w).sent == old(w).sent)
        || (final(w).sent.len() == old(w).sent.len() + 1 && final(w).sent.drop_last() == old(w).sent && spawned(final(w).sent.last(), future.fid())),
//@endfn
}
/// a piece of work that holds the future, and whose wake-ups go to the pool
pub open spec fn spawned(x: Arc<AsyncWork>, fid: int) -> bool {
    x.sender.chan() == pool() && (x.future.init() matches Some(f) && f.id() == fid && f.home() == x.future.id())
}
} // verus!
fn main() {}
