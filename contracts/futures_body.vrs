// Contracts of futures_extensions.rs. ONCE() / WAKE() select the obligations of the two properties.
//@file f crates/analyzer-abstractions/src/futures_extensions.rs
//@method f .await v_await
//@ghostarg f load Tracked(w)
//@ghostarg f store Tracked(w)
//@ghostarg f swap Tracked(w)
//@ghostarg f compare_exchange Tracked(w)
//@ghostarg f listen Tracked(w)
//@ghostarg f notify Tracked(w)
//@ghostarg f notify_additional Tracked(w)
//@ghostarg f notify_relaxed Tracked(w)
//@ghostarg f notify_additional_relaxed Tracked(w)
//@ghostarg f v_await Tracked(w)
//@ghostarg f read Tracked(w)
//@ghostarg f write Tracked(w)
//@ghostarg f replace Tracked(w)
//@ghostarg f insert Tracked(w)
//@ghostarg f get_or_insert Tracked(w)
//@ghostarg f take Tracked(w)
//@ghostarg f state Tracked(w)
//@ghostarg f set_inner_value Tracked(w)

verus! {
global size_of usize == 8;

// ---- the world: a clock that ticks with every operation on shared state, and the identity of the running call ----
pub tracked struct World { pub ghost now: nat, pub ghost call: int, pub ghost owed: bool }
/// one completion source: the cell with its result
#[verifier::external_body] pub ghost struct Cell {}
/// what the cell is ever set to, and by which call (a prophecy: a cell is set at most once)
pub uninterp spec fn result_of<R>(c: Cell) -> Option<R>;
pub uninterp spec fn setter_of(c: Cell) -> int;
/// facts that stay true: the cell has been set / the flag has been raised / every listener registered until then has been notified, at time t or before
pub uninterp spec fn set_at(c: Cell, t: nat) -> bool;
pub uninterp spec fn up_at(c: Cell, t: nat) -> bool;
pub uninterp spec fn notified_at(c: Cell, t: nat) -> bool;
pub broadcast axiom fn axiom_set_stays(c: Cell, t: nat, u: nat) requires t <= u, #[trigger] set_at(c, t) ensures #[trigger] set_at(c, u);
pub broadcast axiom fn axiom_up_stays(c: Cell, t: nat, u: nat) requires t <= u, #[trigger] up_at(c, t) ensures #[trigger] up_at(c, u);
/// rely: the flag is raised only where `store(true)` is allowed, when the cell is set
pub broadcast axiom fn axiom_up_set(c: Cell, t: nat) requires #[trigger] up_at(c, t) ensures set_at(c, t);
/// the cell was not completed at some time from t on
pub open spec fn open_since(c: Cell, t: nat, now: nat) -> bool { exists|u: nat| t <= u <= now && !#[trigger] up_at(c, u) }

// ---- model of the shared state: std::sync::{RwLock, atomic::AtomicBool}, event_listener::Event ----
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body] pub struct AtomicBool {}
impl AtomicBool {
    pub uninterp spec fn cell(&self) -> Cell;
    pub uninterp spec fn init(&self) -> bool;
    #[verifier::external_body] pub fn new(b: bool) -> (r: AtomicBool) ensures r.init() == b { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World>) -> (b: bool)
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed == old(w).owed,
            b ==> up_at(self.cell(), final(w).now), !b ==> !up_at(self.cell(), old(w).now),
    { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, b: bool, o: Ordering, Tracked(w): Tracked<&mut World>)
        requires b, set_at(self.cell(), old(w).now),
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed, up_at(self.cell(), final(w).now),
    { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, b: bool, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires b, set_at(self.cell(), old(w).now),
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed, up_at(self.cell(), final(w).now),
            r ==> up_at(self.cell(), final(w).now), !r ==> !up_at(self.cell(), old(w).now),
    { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RwLock<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct WGuard<R> { t: core::marker::PhantomData<R> }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct RGuard<R> { t: core::marker::PhantomData<R> }
#[verifier::external_body] #[verifier::reject_recursive_types(G)] pub struct Locked<G> { g: G }
impl<G> Locked<G> {
    pub uninterp spec fn guard(&self) -> G;
    // a lock is poisoned by a panic while it is held; nothing panics there
    #[verifier::external_body] pub fn unwrap(self) -> (g: G) ensures g == self.guard() { unimplemented!() }
    #[verifier::external_body] pub fn expect(self, m: &str) -> (g: G) ensures g == self.guard() { unimplemented!() }
}
impl<R> RwLock<Option<R>> {
    pub uninterp spec fn cell(&self) -> Cell;
    pub uninterp spec fn init(&self) -> Option<R>;
    #[verifier::external_body] pub fn new(v: Option<R>) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body] pub fn write(&self, Tracked(w): Tracked<&mut World>) -> (g: Locked<WGuard<R>>)
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed == old(w).owed,
            g.guard().cell() == self.cell(),
            g.guard()@ is Some <==> set_at(self.cell(), final(w).now),
            g.guard()@ is Some ==> g.guard()@ == result_of::<R>(self.cell()),
    { unimplemented!() }
    #[verifier::external_body] pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (g: Locked<RGuard<R>>)
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed == old(w).owed,
            g.guard()@ is Some <==> set_at(self.cell(), final(w).now),
            g.guard()@ is Some ==> g.guard()@ == result_of::<R>(self.cell()),
    { unimplemented!() }
}
impl<R> RGuard<R> {
    pub uninterp spec fn view(&self) -> Option<R>;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: Option<&R>) ensures match self@ { Some(x) => r == Some(&x), None => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_some(&self) -> (r: bool) ensures r == (self@ is Some) { unimplemented!() }
    #[verifier::external_body] pub fn is_none(&self) -> (r: bool) ensures r == (self@ is None) { unimplemented!() }
}
/// what a holder of the write lock may do to the cell: set it when it is not set
impl<R> WGuard<R> {
    pub uninterp spec fn view(&self) -> Option<R>;
    pub uninterp spec fn cell(&self) -> Cell;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: Option<&R>) ensures match self@ { Some(x) => r == Some(&x), None => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_some(&self) -> (r: bool) ensures r == (self@ is Some) { unimplemented!() }
    #[verifier::external_body] pub fn is_none(&self) -> (r: bool) ensures r == (self@ is None) { unimplemented!() }
    #[verifier::external_body] pub fn replace(&mut self, v: R, Tracked(w): Tracked<&mut World>) -> (r: Option<R>)
        requires ONCE() ==> old(self)@ is None,
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed == old(w).owed, final(self).cell() == old(self).cell(),
            final(self)@ == Some(v), set_at(final(self).cell(), final(w).now), r == old(self)@,
            old(self)@ is None ==> result_of::<R>(final(self).cell()) == Some(v) && setter_of(final(self).cell()) == old(w).call,
    { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: R, Tracked(w): Tracked<&mut World>) -> (r: &mut R)
        requires ONCE() ==> old(self)@ is None,
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed == old(w).owed, final(self).cell() == old(self).cell(),
            final(self)@ == Some(*final(r)), *r == v, set_at(final(self).cell(), final(w).now),
            old(self)@ is None ==> result_of::<R>(final(self).cell()) == Some(v) && setter_of(final(self).cell()) == old(w).call,
    { unimplemented!() }
}
#[verifier::external_body] pub struct Event {}
#[verifier::external_body] pub struct EventListener {}
impl Event {
    pub uninterp spec fn cell(&self) -> Cell;
    #[verifier::external_body] pub fn new() -> (r: Event) { unimplemented!() }
    #[verifier::external_body] pub fn listen(&self, Tracked(w): Tracked<&mut World>) -> (l: EventListener)
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call, final(w).owed == old(w).owed, l.since() == final(w).now, l.cell() == self.cell(),
    { unimplemented!() }
    // whoever is woken finds the flag raised
    #[verifier::external_body] pub fn notify(&self, n: usize, Tracked(w): Tracked<&mut World>)
        requires WAKE() ==> up_at(self.cell(), old(w).now),
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call,
            n == usize::MAX ==> !final(w).owed && notified_at(self.cell(), final(w).now), n != usize::MAX ==> final(w).owed == old(w).owed,
    { unimplemented!() }
    #[verifier::external_body] pub fn notify_additional(&self, n: usize, Tracked(w): Tracked<&mut World>)
        requires WAKE() ==> up_at(self.cell(), old(w).now),
        ensures final(w).now == old(w).now + 1, final(w).call == old(w).call,
            n == usize::MAX ==> !final(w).owed && notified_at(self.cell(), final(w).now), n != usize::MAX ==> final(w).owed == old(w).owed,
    { unimplemented!() }
}
impl EventListener {
    pub uninterp spec fn since(&self) -> nat;
    pub uninterp spec fn cell(&self) -> Cell;
    /// sleeping is allowed only if the source was not completed at a time when this listener was registered:
    /// then the completion, and the notification that follows every completion, come after the registration
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>)
        requires WAKE() ==> open_since(self.cell(), self.since(), old(w).now),
        ensures final(w).now > old(w).now, final(w).call == old(w).call, final(w).owed == old(w).owed, up_at(self.cell(), final(w).now),
    { unimplemented!() }
}

#[verifier::external_type_specification] #[verifier::accept_recursive_types(T)] pub struct ExPoll<T>(Poll<T>);
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ Arc::<T, A>::strong_count ](x: &Arc<T, A>) -> (r: usize);
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ Arc::<T, A>::weak_count ](x: &Arc<T, A>) -> (r: usize);
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ Arc::<T, A>::ptr_eq ](x: &Arc<T, A>, y: &Arc<T, A>) -> (r: bool);
// ---- extracted items ----
//@item f enum FutureCompletionSourceError
//@item f struct FutureCompletionSource [open]
//@item f struct State [open]
//@item f type FutureCompletionSourceResult

impl<T, TError> State<T, TError> {
    /// built from a fresh flag, event and cell; a flag that is up at the start goes with a cell that is set at the start
    pub open spec fn wf(&self) -> bool { self.completed.init() ==> self.value.init() is Some }
}
/// flag, event and cell of one State belong together for its life
pub broadcast axiom fn axiom_state<T, TError>(s: &State<T, TError>)
    ensures #[trigger] s.wf() ==> s.completed.cell() == s.value.cell() && s.on_completed.cell() == s.value.cell()
        && (s.value.init() is Some ==> set_at(s.value.cell(), 0) && result_of::<Result<T, TError>>(s.value.cell()) == s.value.init())
        && (s.completed.init() ==> up_at(s.value.cell(), 0));

impl<T: Clone, TError> FutureCompletionSource<T, TError> {
    pub open spec fn cell(&self) -> Cell { self.state.value.cell() }
    /// what r observes is (a clone of) the one result
    pub open spec fn is_result(&self, r: Result<T, TError>) -> bool {
        match (result_of::<Result<T, TError>>(self.cell()), r) {
            (Some(Ok(v)), Ok(x)) => cloned(v, x),
            (Some(Err(e)), Err(x)) => e == x,
            _ => false,
        }
    }
    pub open spec fn set_ok(&self, o: World, r: FutureCompletionSourceResult<()>, v: Result<T, TError>, w: World) -> bool {
        &&& !w.owed && w.now >= o.now && w.call == o.call
        &&& r is Ok ==> up_at(self.cell(), w.now) && (ONCE() ==> result_of::<Result<T, TError>>(self.cell()) == Some(v) && setter_of(self.cell()) == o.call)
            && (WAKE() ==> exists|t: nat| o.now < t <= w.now && up_at(self.cell(), (t - 1) as nat) && #[trigger] notified_at(self.cell(), t))
        // an error only if it is complete already
        &&& r is Err ==> set_at(self.cell(), w.now)
        &&& up_at(self.cell(), o.now) ==> r is Err
    }
}
} // verus!
verus! {
pub broadcast group group_fcs { axiom_set_stays, axiom_up_stays, axiom_up_set, axiom_state }

impl<T, TError> FutureCompletionSource<T, TError> where T: Clone + Debug, TError: Copy + Debug {
//@fn f FutureCompletionSource::new
//@ret r
//@ensures
    r.state.wf(), !r.state.completed.init(), r.state.value.init() is None,
//@start
    broadcast use group_fcs;
//@endfn

//@fn f FutureCompletionSource::new_with_value
//@ret r
//@ensures
    r.state.wf(), r.state.completed.init(), r.state.value.init() == Some(Ok::<T, TError>(value)),
//@start
    broadcast use group_fcs;
//@endfn

//@fn f FutureCompletionSource::state
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.state.wf(),
//@ensures
    final(w).now > old(w).now, final(w).call == old(w).call, final(w).owed == old(w).owed,
    r matches Poll::Ready(x) ==> self.is_result(x) && up_at(self.cell(), final(w).now),
    r is Pending ==> !up_at(self.cell(), old(w).now),
//@start
    broadcast use group_fcs;
//@endfn

//@fn f FutureCompletionSource::set_inner_value
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.state.wf(), !old(w).owed,
//@ensures
    self.set_ok(*old(w), r, result, *final(w)),
//@start
    broadcast use group_fcs;
//@endfn

//@fn f FutureCompletionSource::set_value
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.state.wf(), !old(w).owed,
//@ensures
    self.set_ok(*old(w), r, Ok(value), *final(w)),
//@start
    broadcast use group_fcs;
//@endfn

//@fn f FutureCompletionSource::set_err
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.state.wf(), !old(w).owed,
//@ensures
    self.set_ok(*old(w), r, Err(err), *final(w)),
//@start
    broadcast use group_fcs;
//@endfn

//@fn f FutureCompletionSource::future
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.state.wf(), !old(w).owed,
//@ensures
    self.is_result(r), up_at(self.cell(), final(w).now), !final(w).owed,
//@start
    broadcast use group_fcs;
//@endfn
}
} // verus!
fn main() {}
