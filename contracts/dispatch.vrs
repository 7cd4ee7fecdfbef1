#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::sync::Arc;
//@file t crates/analyzer-host/src/lsp/dispatch_target.rs
//@file d crates/analyzer-host/src/lsp/dispatch.rs
//@file s crates/analyzer-host/src/lsp/state.rs
//@file l crates/analyzer-host/src/lsp.rs
//@file u crates/analyzer-host/src/lsp/fluent/state.rs
//@file r crates/analyzer-host/src/json_rpc.rs
//@file m crates/analyzer-host/src/json_rpc/message.rs
//@file f crates/analyzer-host/src/fsm.rs
//@file a crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
//@file i crates/analyzer-host/src/lsp_impl/initializing.rs
//@file n crates/analyzer-host/src/lsp_impl/active_initialized.rs
//@file g crates/analyzer-host/src/lsp_impl/shutting_down.rs
//@file o crates/analyzer-host/src/lsp_impl/stopped.rs
//@path t error! ()
//@path t Box<dyn(AsyncRequestHandlerFn<TState,TParams,TResult>)+Send+Sync> AnyAsyncRequestHandlerFn<TState,TParams,TResult>
//@path t Box<dyn(AsyncRequestHandlerFn<TState,TParams,()>)+Send+Sync> AnyAsyncRequestHandlerFn<TState,TParams,()>
//@path d info! ()
//@path f info! ()
//@path t serde_json::Value Value
//@path m serde_json::Value Value
//@method t .await v_await
//@method d process_message.await -
//@method f dispatch.await -
//@ghostarg t v_await Tracked(w)
//@ghostarg d process_message Tracked(w)
//@ghostarg d read Tracked(w)
//@ghostarg d get_handler Tracked(w)
//@ghostarg f dispatch Tracked(w)
//@ghostarg f get_dispatcher Tracked(w)
//@known LspProtocolMachine::default_dispatcher
//@ghostarg f LspProtocolMachine::create_dispatchers Tracked(w)
//@ghostarg f or_insert_with Tracked(w)
//@ghostarg f write Tracked(w)
//@ghostarg f RwLock::new Tracked(w)
//@ghostarg l RwLock::new Tracked(w)
//@ghostarg l insert Tracked(w)
//@path l Clone Copyable
//@path l Request LspRequest
//@path l Notification LspNotification
//@path l T::METHOD vx_method::<T>()
//@path l String::from vx_string_from
//@path l RwLock::new vx_rwlock_new
//@path l HashMap::new vx_hashmap_new
//@path l Box::new vx_box
//@path f RwLock::new vx_rwlock_new
//@path f Box::new vx_box
//@method f into v_into
//@uses f /^crate::lsp_impl::(\w+)::(create_dispatcher)$/ => ${1}__$2 @@ Tracked(w)
//@path a Box::new vx_box
//@path a on_exit active_uninitialized__on_exit
//@path i on_exit initializing__on_exit
//@path n on_exit active_initialized__on_exit
//@path g on_exit shutting_down__on_exit
//@path o on_exit stopped__on_exit
//@ghostarg a DispatchBuilder::new Tracked(w)
//@ghostarg a for_request Tracked(w)
//@ghostarg a for_request_with_options Tracked(w)
//@ghostarg a for_notification Tracked(w)
//@ghostarg a for_notification_with_options Tracked(w)
//@path i Box::new vx_box
//@ghostarg i DispatchBuilder::new Tracked(w)
//@ghostarg i for_request Tracked(w)
//@ghostarg i for_request_with_options Tracked(w)
//@ghostarg i for_notification Tracked(w)
//@ghostarg i for_notification_with_options Tracked(w)
//@path n Box::new vx_box
//@ghostarg n DispatchBuilder::new Tracked(w)
//@ghostarg n for_request Tracked(w)
//@ghostarg n for_request_with_options Tracked(w)
//@ghostarg n for_notification Tracked(w)
//@ghostarg n for_notification_with_options Tracked(w)
//@path g Box::new vx_box
//@ghostarg g DispatchBuilder::new Tracked(w)
//@ghostarg g for_request Tracked(w)
//@ghostarg g for_request_with_options Tracked(w)
//@ghostarg g for_notification Tracked(w)
//@ghostarg g for_notification_with_options Tracked(w)
//@path o Box::new vx_box
//@ghostarg o DispatchBuilder::new Tracked(w)
//@ghostarg o for_request Tracked(w)
//@ghostarg o for_request_with_options Tracked(w)
//@ghostarg o for_notification Tracked(w)
//@ghostarg o for_notification_with_options Tracked(w)
verus! {
global size_of usize == 8;
// ---- serde_json ----
#[verifier::external_body] pub struct Value {}
#[verifier::external_body] pub struct Any {}
pub trait Serialize { spec fn fails(&self) -> bool; spec fn json(&self) -> Value; }
impl<T> Serialize for T { uninterp spec fn fails(&self) -> bool; uninterp spec fn json(&self) -> Value; }
pub trait DeserializeOwned: Sized { spec fn of_json(v: Value) -> Option<Self>; }
impl<T> DeserializeOwned for T { uninterp spec fn of_json(v: Value) -> Option<Self>; }
/// `Clone` as a bound on parameters and results
pub trait Copyable {}
impl<T> Copyable for T {}
pub trait Debug {}
impl<T> Debug for T {}
/// a value of any type, a type, and what a JSON value is as a value of that type
pub uninterp spec fn any_of<T>(x: T) -> Any;
pub uninterp spec fn ty<T>() -> int;
pub uninterp spec fn decode(t: int, v: Value) -> Option<Any>;
pub broadcast axiom fn ax_decode<T: DeserializeOwned>(v: Value)
    ensures #![trigger T::of_json(v)] decode(ty::<T>(), v) == match T::of_json(v) { Some(x) => Some(any_of(x)), None => None };
#[derive(Clone, Copy)] pub struct DeserializeError;
#[verifier::external_body] pub fn from_json<T: DeserializeOwned>(v: &Value) -> (r: Result<T, DeserializeError>)
    ensures match r { Ok(x) => T::of_json(*v) == Some(x), Err(_) => T::of_json(*v) is None } { unimplemented!() }
// ---- extracted items ----
//@item r enum IdRepr [open]
//@item r struct RequestId [open]
//@item r enum ErrorCode [derive=Copy,Clone open]
//@item m struct Request [open]
//@item m struct ResponseError [open]
//@item m struct Response [open]
//@item m struct Notification [open]
//@item m enum Message [open]
//@item l enum LspProtocolError [open]
//@item s enum LspServerState [derive=Copy,Clone,PartialEq,Eq,Structural open]
//@item s enum LspTransitionTarget [derive=Copy,Clone open]
//@item t struct HandlerError [open]
//@item t type HandlerResult
impl vstd::std_specs::convert::FromSpecImpl<DeserializeError> for LspProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DeserializeError) -> LspProtocolError { LspProtocolError::BadRequest(e) }
}
impl From<DeserializeError> for LspProtocolError { #[verifier::external_body] fn from(e: DeserializeError) -> (r: LspProtocolError) { unimplemented!() } }
pub broadcast axiom fn ax_question(e: DeserializeError, f: LspProtocolError) requires #[trigger] vstd::std_specs::control_flow::spec_from::<LspProtocolError, DeserializeError>(e, f) ensures f == LspProtocolError::BadRequest(e);
impl Clone for RequestId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the constructors' contracts (proved in unit json_rpc)
impl Response {
    #[verifier::external_body] pub fn new<T: Serialize>(id: RequestId, data: T) -> (r: Response) requires !data.fails() ensures r == (Response { id, result: Some(data.json()), error: None }) { unimplemented!() }
    #[verifier::external_body] pub fn new_error(id: RequestId, code: i32, message: &str) -> (r: Response)
        ensures is_error(Message::Response(r), id, code as int), r.error->0.message@ == message@ { unimplemented!() }
}
/// an error response
pub open spec fn is_error(m: Message, id: RequestId, code: int) -> bool { m matches Message::Response(r) && r.id == id && r.result is None && (r.error matches Some(e) && e.code == code && e.data is None) }
// ---- what has happened ----
#[verifier::ext_equal] pub struct Call { pub handler: int, pub cur: LspServerState, pub arg: Any, pub out: Result<Value, Seq<char>> }
/// what handles a message: its kind, the handler, the type of its parameters, where it leads
pub struct Meaning { pub request: bool, pub handler: int, pub sure: bool, pub params: int, pub to: LspTransitionTarget }
pub struct Disp { pub state: LspServerState, pub requests: Map<Seq<char>, Meaning>, pub notifications: Map<Seq<char>, Meaning>, pub missing: Option<(ErrorCode, Seq<char>)> }
pub tracked struct World { pub ghost calls: Seq<Call>, pub ghost tables: Map<int, Map<Seq<char>, Meaning>>, pub ghost dispatchers: Map<int, Map<LspServerState, DRef>> }
pub open spec fn next(to: LspTransitionTarget, cur: LspServerState) -> LspServerState { match to { LspTransitionTarget::Next(s) => s, LspTransitionTarget::Current => cur } }
pub open spec fn one_call(m: Meaning, cur: LspServerState, arg: Any, o: World, f: World) -> bool {
    f == (World { calls: o.calls.push(f.calls.last()), ..o }) && f.calls.last().handler == m.handler && f.calls.last().cur == cur && f.calls.last().arg == arg && (m.sure ==> f.calls.last().out is Ok)
}
pub type Outcome = Result<(Option<Message>, LspServerState), LspProtocolError>;
/// what a handler's registration makes of a message
pub open spec fn answered(m: Meaning, cur: LspServerState, msg: Message, o: World, f: World, r: Outcome) -> bool {
    match msg {
        Message::Request(q) => if m.request { match decode(m.params, q.params) {
            None => f == o && (r matches Ok(p) && p.1 == cur && (p.0 matches Some(e) && is_error(e, q.id, -32602))),
            Some(a) => one_call(m, cur, a, o, f) && (r matches Ok(p) && match f.calls.last().out {
                Ok(v) => p.1 == next(m.to, cur) && (p.0 matches Some(Message::Response(x)) && x.id == q.id && x.result == Some(v) && x.error is None),
                Err(t) => p.1 == cur && (p.0 matches Some(e) && is_error(e, q.id, -32603) && e->Response_0.error->0.message@ == t) }),
        } } else { f == o && (r matches Err(e) && e is UnexpectedRequest) },
        Message::Notification(n) => if !m.request { match decode(m.params, n.params) {
            None => f == o && (r matches Err(e) && e is BadRequest),
            Some(a) => one_call(m, cur, a, o, f) && (r matches Ok(p) && p.0 is None && p.1 == if f.calls.last().out is Ok { next(m.to, cur) } else { cur }),
        } } else { f == o && (r matches Err(e) && e is UnexpectedRequest) },
        Message::Response(_) => f == o && (r matches Err(e) && e is UnexpectedRequest),
    }
}
/// what a state's dispatcher makes of a message
pub open spec fn dispatched(d: Disp, msg: Message, o: World, f: World, r: Outcome) -> bool {
    match msg {
        Message::Request(q) => if d.requests.dom().contains(q.method@) { answered(d.requests[q.method@], d.state, msg, o, f, r) } else {
            f == o && (r matches Ok(p) && p.1 == d.state && (p.0 matches Some(e) && is_error(e, q.id, match d.missing { Some(c) => c.0 as int, None => -32603 })
                && (d.missing matches Some(c) ==> e->Response_0.error->0.message@ == c.1))) },
        Message::Notification(n) => if d.notifications.dom().contains(n.method@) { answered(d.notifications[n.method@], d.state, msg, o, f, r) } else { f == o && (r matches Err(e) && e is UnexpectedRequest) },
        Message::Response(_) => f == o && (r matches Err(e) && e is UnexpectedRequest),
    }
}
// ---- handlers ----
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct AsyncRwLock<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(S)] #[verifier::accept_recursive_types(P)] #[verifier::accept_recursive_types(R)]
pub struct AnyAsyncRequestHandlerFn<S, P, R> { t: core::marker::PhantomData<(S, P, R)> }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct HandlerFut<R> { t: core::marker::PhantomData<R> }
impl<R> HandlerFut<R> { pub uninterp spec fn sure(&self) -> bool; pub uninterp spec fn handler(&self) -> int; pub uninterp spec fn cur(&self) -> LspServerState; pub uninterp spec fn arg(&self) -> Any; }
impl<S, P, R> AnyAsyncRequestHandlerFn<S, P, R> {
    pub uninterp spec fn id(&self) -> int;
    /// the handler never fails
    pub uninterp spec fn sure(&self) -> bool;
    #[verifier::external_body] pub fn call(&self, current_state: LspServerState, params: P, state: Arc<AsyncRwLock<S>>) -> (r: HandlerFut<R>)
        ensures r.handler() == self.id(), r.sure() == self.sure(), r.cur() == current_state, r.arg() == any_of(params) { unimplemented!() }
}
impl<R: Serialize> HandlerFut<R> {
    /// the handler runs; what it returns can be serialized
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: HandlerResult<R>)
        ensures *final(w) == (World { calls: old(w).calls.push(final(w).calls.last()), ..*old(w) }), final(w).calls.last().handler == self.handler(), final(w).calls.last().cur == self.cur(), final(w).calls.last().arg == self.arg(),
            self.sure() ==> r is Ok, match r { Ok(x) => !x.fails() && final(w).calls.last().out == Ok::<Value, Seq<char>>(x.json()), Err(e) => final(w).calls.last().out == Err::<Value, Seq<char>>(e.message@) } { unimplemented!() }
}
//@item t struct RequestDispatchTarget [open]
//@item t struct NotificationDispatchTarget [open]
/// `trait DispatchTarget`: what both implementations are proved against
pub trait DispatchTarget<TState: Send + Sync> {
    spec fn meaning(&self) -> Meaning;
    fn process_message(&self, current_state: LspServerState, message: Arc<Message>, state: Arc<AsyncRwLock<TState>>, Tracked(w): Tracked<&mut World>) -> (r: Result<(Option<Message>, LspServerState), LspProtocolError>)
        ensures answered(self.meaning(), current_state, *message, *old(w), *final(w), r);
    fn set_transition_target(&mut self, target: LspTransitionTarget)
        ensures final(self).meaning() == (Meaning { to: target, ..old(self).meaning() });
}
/// any registered target (a trait object in the code): its meaning
#[verifier::external_body] #[verifier::accept_recursive_types(S)] pub struct AnyDispatchTarget<S> { t: core::marker::PhantomData<S> }
impl<S> AnyDispatchTarget<S> {
    pub uninterp spec fn meaning(&self) -> Meaning;
    /// the trait's contract
    #[verifier::external_body] pub fn process_message(&self, current_state: LspServerState, message: Arc<Message>, state: Arc<AsyncRwLock<S>>, Tracked(w): Tracked<&mut World>) -> (r: Outcome)
        ensures answered(self.meaning(), current_state, *message, *old(w), *final(w), r) { unimplemented!() }
}
impl<S> Clone for AnyDispatchTarget<S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.meaning() == self.meaning() { unimplemented!() } }
// ---- tables behind locks ----
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { t: core::marker::PhantomData<(K, V)> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RwLock<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct Poisoned {}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct ReadGuard<'a, T> { t: core::marker::PhantomData<&'a T> }
pub struct LockResult<G> { pub g: G }
impl<G> LockResult<G> { pub fn unwrap(self) -> (r: G) ensures r == self.g { self.g } }
impl<T> RwLock<T> { pub uninterp spec fn id(&self) -> int; }
impl<S> RwLock<HashMap<String, AnyDispatchTarget<S>>> {
    #[verifier::external_body] pub fn read<'a>(&'a self, Tracked(w): Tracked<&World>) -> (r: LockResult<ReadGuard<'a, HashMap<String, AnyDispatchTarget<S>>>>) ensures r.g@ == w.tables[self.id()] { unimplemented!() }
}
impl<'a, S> ReadGuard<'a, HashMap<String, AnyDispatchTarget<S>>> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Meaning>;
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&AnyDispatchTarget<S>>)
        ensures match r { Some(t) => self@.dom().contains(k@) && t.meaning() == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
}
//@item d struct DefaultDispatch [open]
pub struct DRef { pub state: LspServerState, pub requests: int, pub notifications: int, pub missing: Option<(ErrorCode, Seq<char>)> }
impl<T: Send + Sync> DefaultDispatch<T> {
    pub open spec fn d(&self) -> DRef { DRef { state: self.state, requests: self.request_handlers.id(), notifications: self.notification_handlers.id(), missing: match self.missing_handler_error { Some(x) => Some((x.0, x.1@)), None => None } } }
}
pub open spec fn disp(d: DRef, w: World) -> Disp { Disp { state: d.state, requests: w.tables[d.requests], notifications: w.tables[d.notifications], missing: d.missing } }
} // verus!
verus! {
impl<TState, TParams, TResult> RequestDispatchTarget<TState, TParams, TResult>
where
	TState: Clone + Send + Sync,
	TParams: DeserializeOwned + Send + Debug,
	TResult: Serialize + Send,
{
    pub open spec fn m(&self) -> Meaning { Meaning { request: true, handler: self.handler_fn.id(), sure: self.handler_fn.sure(), params: ty::<TParams>(), to: self.transition_target } }
//@fn t RequestDispatchTarget::next_state
//@ret r
//@ensures
    r == next(self.transition_target, current_state),
//@endfn
}
impl<TState, TParams, TResult> DispatchTarget<TState> for RequestDispatchTarget<TState, TParams, TResult>
where
	TState: Clone + Send + Sync,
	TParams: DeserializeOwned + Send + Debug,
	TResult: Serialize + Send,
{
    open spec fn meaning(&self) -> Meaning { self.m() }
//@fn t <RequestDispatchTarget as DispatchTarget<TState>>::process_message
//@opt novac
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@start
    broadcast use ax_decode, ax_question;
//@endfn
//@fn t <RequestDispatchTarget as DispatchTarget<TState>>::set_transition_target
//@opt novac
//@endfn
}
impl<TState, TParams> NotificationDispatchTarget<TState, TParams>
where
	TState: Send + Sync,
	TParams: DeserializeOwned + Send + Debug,
{
    pub open spec fn m(&self) -> Meaning { Meaning { request: false, handler: self.handler_fn.id(), sure: self.handler_fn.sure(), params: ty::<TParams>(), to: self.transition_target } }
//@fn t NotificationDispatchTarget::next_state
//@ret r
//@ensures
    r == next(self.transition_target, current_state),
//@endfn
}
impl<TState, TParams> DispatchTarget<TState> for NotificationDispatchTarget<TState, TParams>
where
	TState: Send + Sync,
	TParams: DeserializeOwned + Send + Debug,
{
    open spec fn meaning(&self) -> Meaning { self.m() }
//@fn t <NotificationDispatchTarget as DispatchTarget<TState>>::process_message
//@opt novac
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@start
    broadcast use ax_decode, ax_question;
//@endfn
//@fn t <NotificationDispatchTarget as DispatchTarget<TState>>::set_transition_target
//@opt novac
//@endfn
}
impl<TState: Send + Sync> DefaultDispatch<TState> {
//@fn d DefaultDispatch::get_handler
//@ret r
//@ghostparam Tracked(w): Tracked<&World>
//@ensures
    match *message {
        Message::Request(q) => match r { Some(h) => w.tables[self.d().requests].dom().contains(q.method@) && h.meaning() == w.tables[self.d().requests][q.method@], None => !w.tables[self.d().requests].dom().contains(q.method@) },
        Message::Notification(q) => match r { Some(h) => w.tables[self.d().notifications].dom().contains(q.method@) && h.meaning() == w.tables[self.d().notifications][q.method@], None => !w.tables[self.d().notifications].dom().contains(q.method@) },
        Message::Response(_) => r is None,
    },
//@endfn
//@fn d <DefaultDispatch as Dispatch<TState>>::dispatch
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@ensures
    dispatched(disp(self.d(), *old(w)), *message, *old(w), *final(w), r),
//@endfn
}
} // verus!
verus! {
// ================= registration =================
impl<TState> Clone for DefaultDispatch<TState> where TState: Send + Sync { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.d() == self.d() { unimplemented!() } }
/// `fn_item as Box<dyn AsyncRequestHandlerFn>`: a handler is any function of this shape
pub trait AsyncRequestHandlerFn<TState, TParams, TResult> { spec fn sure(&self) -> bool; }
impl<TState, TParams, TResult, F: Fn(LspServerState, TParams, Arc<AsyncRwLock<TState>>) -> HandlerResult<TResult>> AsyncRequestHandlerFn<TState, TParams, TResult> for F {
    open spec fn sure(&self) -> bool { forall|s: LspServerState, p: TParams, t: Arc<AsyncRwLock<TState>>, r: HandlerResult<TResult>| #[trigger] call_ensures(*self, (s, p, t), r) ==> r is Ok }
}
/// `Dispatch` implementations are known by the locks of their tables
pub trait Dispatch<TState> { spec fn dref(&self) -> DRef; }
impl<TState: Send + Sync> Dispatch<TState> for DefaultDispatch<TState> { open spec fn dref(&self) -> DRef { self.d() } }
/// the server's state (nothing is said about it here)
#[verifier::external_body] pub struct State {}
impl Clone for State { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct LspServerStateDispatcher {}
impl LspServerStateDispatcher {
    pub uninterp spec fn dref(&self) -> DRef;
    /// the contract of <DefaultDispatch as Dispatch>::dispatch (proved above)
    #[verifier::external_body] pub fn dispatch(&self, message: Arc<Message>, state: Arc<AsyncRwLock<State>>, Tracked(w): Tracked<&mut World>) -> (r: Outcome)
        ensures dispatched(disp(self.dref(), *old(w)), *message, *old(w), *final(w), r) { unimplemented!() }
}
impl Clone for LspServerStateDispatcher { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.dref() == self.dref() { unimplemented!() } }
/// Box::new where a trait object is expected: the object behaves as what is boxed
pub trait Boxable<U> { spec fn boxed(&self, u: U) -> bool; }
impl<S, P, R, H: AsyncRequestHandlerFn<S, P, R>> Boxable<AnyAsyncRequestHandlerFn<S, P, R>> for H { open spec fn boxed(&self, u: AnyAsyncRequestHandlerFn<S, P, R>) -> bool { u.sure() == self.sure() } }
impl<S: Send + Sync, T: DispatchTarget<S>> Boxable<AnyDispatchTarget<S>> for T { open spec fn boxed(&self, u: AnyDispatchTarget<S>) -> bool { u.meaning() == self.meaning() } }
impl<D: Dispatch<State>> Boxable<LspServerStateDispatcher> for D { open spec fn boxed(&self, u: LspServerStateDispatcher) -> bool { u.dref() == self.dref() } }
#[verifier::external_body] pub fn vx_box<T: Boxable<U>, U>(x: T) -> (r: U) ensures x.boxed(r) { unimplemented!() }
// ---- the tables' cells ----
pub trait Content { spec fn put(self, id: int, w: World) -> World; }
impl<S> Content for HashMap<String, AnyDispatchTarget<S>> { open spec fn put(self, id: int, w: World) -> World { World { tables: w.tables.insert(id, self@), ..w } } }
impl Content for HashMap<LspServerState, LspServerStateDispatcher> { open spec fn put(self, id: int, w: World) -> World { World { dispatchers: w.dispatchers.insert(id, self@), ..w } } }
impl<S> HashMap<String, AnyDispatchTarget<S>> { pub uninterp spec fn view(&self) -> Map<Seq<char>, Meaning>; }
impl HashMap<LspServerState, LspServerStateDispatcher> { pub uninterp spec fn view(&self) -> Map<LspServerState, DRef>; }
#[verifier::external_body] pub fn vx_hashmap_new<S>() -> (r: HashMap<String, AnyDispatchTarget<S>>) ensures r@ == Map::<Seq<char>, Meaning>::empty() { unimplemented!() }
pub open spec fn fresh(id: int, w: World) -> bool { !w.tables.dom().contains(id) && !w.dispatchers.dom().contains(id) }
#[verifier::external_body] pub fn vx_rwlock_new<T: Content>(v: T, Tracked(w): Tracked<&mut World>) -> (r: RwLock<T>) ensures fresh(r.id(), *old(w)), *final(w) == v.put(r.id(), *old(w)) { unimplemented!() }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct WriteGuard<'a, T> { t: core::marker::PhantomData<&'a T> }
impl<'a, T> WriteGuard<'a, T> { pub uninterp spec fn id(&self) -> int; }
impl<S> RwLock<HashMap<String, AnyDispatchTarget<S>>> {
    #[verifier::external_body] pub fn write<'a>(&'a self) -> (r: LockResult<WriteGuard<'a, HashMap<String, AnyDispatchTarget<S>>>>) ensures r.g.id() == self.id() { unimplemented!() }
}
impl<'a, S> WriteGuard<'a, HashMap<String, AnyDispatchTarget<S>>> {
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: AnyDispatchTarget<S>, Tracked(w): Tracked<&mut World>) -> (r: Option<AnyDispatchTarget<S>>)
        ensures final(self).id() == old(self).id(), *final(w) == (World { tables: old(w).tables.insert(old(self).id(), old(w).tables[old(self).id()].insert(k@, v.meaning())), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// ---- lsp_types: a message's name, parameters and result ----
pub trait HasMethod { spec fn method() -> Seq<char>; }
pub trait LspRequest: HasMethod { type Params; type Result; }
pub trait LspNotification: HasMethod { type Params; }
#[verifier::external_body] pub fn vx_method<T: HasMethod>() -> (r: &'static str) ensures r@ == T::method() { unimplemented!() }
#[verifier::reject_recursive_types(TState)]
//@item u struct TransitionBuilder [open]
/// `&mut target` where `&mut dyn DispatchTarget` is expected
#[verifier::external_body] pub fn vx_dyn_mut<'a, TState: Send + Sync, T: DispatchTarget<TState>>(t: &'a mut T) -> (r: &'a mut dyn DispatchTarget<TState>)
    ensures r.meaning() == old(t).meaning(), final(t).meaning() == final(r).meaning() { unimplemented!() }
//@item l struct DispatchBuilder [open]
impl<TState> DispatchBuilder<TState> where TState: Send + Sync {
    pub open spec fn d(&self) -> DRef { DRef { state: self.state, requests: self.request_handlers.id(), notifications: self.notification_handlers.id(), missing: match self.missing_handler_error { Some(x) => Some((x.0, x.1@)), None => None } } }
}
pub open spec fn meaning(request: bool, params: int, to: LspTransitionTarget, sure: bool, m: Meaning) -> bool { m == (Meaning { request, handler: m.handler, sure, params, to }) }
/// a message has been registered
pub open spec fn put(table: int, method: Seq<char>, request: bool, params: int, to: LspTransitionTarget, sure: bool, o: World, f: World) -> bool {
    meaning(request, params, to, sure, f.tables[table][method]) && f == (World { tables: o.tables.insert(table, o.tables[table].insert(method, f.tables[table][method])), ..o })
}
impl<'target, TState> TransitionBuilder<'target, TState>
where
	TState: Send + Sync,
{
//@fn u TransitionBuilder::new
//@ret r
//@ensures
    r.target.meaning() == old(target).meaning(), final(r.target).meaning() == final(target).meaning(),
//@endfn
//@fn u TransitionBuilder::transition_to
//@ensures
    final(final(self).target).meaning() == final(old(self).target).meaning(),
    final(self).target.meaning() == (Meaning { to: LspTransitionTarget::Next(target_state), ..old(self).target.meaning() }),
//@endfn
}
impl<TState, TParams, TResult> RequestDispatchTarget<TState, TParams, TResult>
where
	TState: Clone + Send + Sync,
	TParams: DeserializeOwned + Send + Debug,
	TResult: Serialize + Send,
{
//@fn t RequestDispatchTarget::new
//@ret r
//@ensures
    r.m() == (Meaning { request: true, handler: handler_fn.id(), sure: handler_fn.sure(), params: ty::<TParams>(), to: LspTransitionTarget::Current }),
//@endfn
}
impl<TState, TParams> NotificationDispatchTarget<TState, TParams>
where
	TState: Send + Sync,
	TParams: DeserializeOwned + Send + Debug,
{
//@fn t NotificationDispatchTarget::new
//@ret r
//@ensures
    r.m() == (Meaning { request: false, handler: handler_fn.id(), sure: handler_fn.sure(), params: ty::<TParams>(), to: LspTransitionTarget::Current }),
//@endfn
}
impl<TState: Send + Sync> DefaultDispatch<TState> {
//@fn d DefaultDispatch::new
//@ret r
//@ensures
    r.d() == (DRef { state, requests: request_handlers.id(), notifications: notification_handlers.id(), missing: match missing_handler_error { Some(x) => Some((x.0, x.1@)), None => None } }),
//@endfn
}
impl<TState> DispatchBuilder<TState>
where
	TState: Clone + Send + Sync + 'static,
{
//@fn l DispatchBuilder::new
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@ensures
    r.d() == (DRef { state, requests: r.d().requests, notifications: r.d().notifications, missing: None }),
    fresh(r.d().requests, *old(w)), fresh(r.d().notifications, *old(w)), r.d().requests != r.d().notifications,
    *final(w) == (World { tables: old(w).tables.insert(r.d().requests, Map::empty()).insert(r.d().notifications, Map::empty()), ..*old(w) }),
//@endfn
//@fn l DispatchBuilder::for_request
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@ensures
    *r == *old(self), *final(self) == *final(r),
    put(old(self).d().requests, T::method(), true, ty::<T::Params>(), LspTransitionTarget::Current, handler.sure(), *old(w), *final(w)),
//@endfn
//@fn l DispatchBuilder::for_notification_with_options
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@subst? /fn\(TransitionBuilder<TState>\) -> \(\)/ => impl FnOnce(TransitionBuilder<TState>) -> ()
//@subst? /&mut target\b/ => vx_dyn_mut(&mut target)
//@requires
    forall|b: TransitionBuilder<TState>| request_builder.requires((b,)),
//@ensures
    *r == *old(self), *final(self) == *final(r),
    exists|b: TransitionBuilder<TState>| #[trigger] request_builder.ensures((b,), ()) && meaning(false, ty::<T::Params>(), LspTransitionTarget::Current, handler.sure(), b.target.meaning())
        && *final(w) == (World { tables: old(w).tables.insert(old(self).d().notifications, old(w).tables[old(self).d().notifications].insert(T::method(), final(b.target).meaning())), ..*old(w) }),
//@endfn
//@fn l DispatchBuilder::for_request_with_options
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@subst? /fn\(TransitionBuilder<TState>\) -> \(\)/ => impl FnOnce(TransitionBuilder<TState>) -> ()
//@subst? /&mut target\b/ => vx_dyn_mut(&mut target)
//@requires
    forall|b: TransitionBuilder<TState>| request_builder.requires((b,)),
//@ensures
    *r == *old(self), *final(self) == *final(r),
    exists|b: TransitionBuilder<TState>| #[trigger] request_builder.ensures((b,), ()) && meaning(true, ty::<T::Params>(), LspTransitionTarget::Current, handler.sure(), b.target.meaning())
        && *final(w) == (World { tables: old(w).tables.insert(old(self).d().requests, old(w).tables[old(self).d().requests].insert(T::method(), final(b.target).meaning())), ..*old(w) }),
//@endfn
//@fn l DispatchBuilder::for_notification
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@ensures
    *r == *old(self), *final(self) == *final(r),
    put(old(self).d().notifications, T::method(), false, ty::<T::Params>(), LspTransitionTarget::Current, handler.sure(), *old(w), *final(w)),
//@endfn
//@fn l DispatchBuilder::for_unhandled_requests
//@ret r
//@ensures
    r.d() == (DRef { missing: Some((error.0, error.1@)), ..old(self).d() }), *final(self) == *final(r),
//@endfn
//@fn l DispatchBuilder::build
//@opt novac
//@ret r
//@ensures
    r.dref() == self.d(),
//@endfn
}
// ---- lsp_types: the messages that are registered (names and parameters as lsp_types declares them) ----
#[verifier::external_body] pub struct CompletionParams {} impl Clone for CompletionParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct DidChangeTextDocumentParams {} impl Clone for DidChangeTextDocumentParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct DidChangeWatchedFilesParams {} impl Clone for DidChangeWatchedFilesParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct DidCloseTextDocumentParams {} impl Clone for DidCloseTextDocumentParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct DidOpenTextDocumentParams {} impl Clone for DidOpenTextDocumentParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct DidSaveTextDocumentParams {} impl Clone for DidSaveTextDocumentParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct HoverParams {} impl Clone for HoverParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct InitializeParams {} impl Clone for InitializeParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct InitializeResult {} impl Clone for InitializeResult { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct InitializedParams {} impl Clone for InitializedParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct CompletionResponse {} impl Clone for CompletionResponse { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct Hover {} impl Clone for Hover { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct SetTraceParams {} impl Clone for SetTraceParams { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub struct Initialize; impl HasMethod for Initialize { open spec fn method() -> Seq<char> { "initialize"@ } } impl LspRequest for Initialize { type Params = InitializeParams; type Result = InitializeResult; }
pub struct Shutdown; impl HasMethod for Shutdown { open spec fn method() -> Seq<char> { "shutdown"@ } } impl LspRequest for Shutdown { type Params = (); type Result = (); }
pub struct HoverRequest; impl HasMethod for HoverRequest { open spec fn method() -> Seq<char> { "textDocument/hover"@ } } impl LspRequest for HoverRequest { type Params = HoverParams; type Result = Option<Hover>; }
pub struct Completion; impl HasMethod for Completion { open spec fn method() -> Seq<char> { "textDocument/completion"@ } } impl LspRequest for Completion { type Params = CompletionParams; type Result = Option<CompletionResponse>; }
pub struct Exit; impl HasMethod for Exit { open spec fn method() -> Seq<char> { "exit"@ } } impl LspNotification for Exit { type Params = (); }
pub struct Initialized; impl HasMethod for Initialized { open spec fn method() -> Seq<char> { "initialized"@ } } impl LspNotification for Initialized { type Params = InitializedParams; }
pub struct DidChangeTextDocument; impl HasMethod for DidChangeTextDocument { open spec fn method() -> Seq<char> { "textDocument/didChange"@ } } impl LspNotification for DidChangeTextDocument { type Params = DidChangeTextDocumentParams; }
pub struct DidCloseTextDocument; impl HasMethod for DidCloseTextDocument { open spec fn method() -> Seq<char> { "textDocument/didClose"@ } } impl LspNotification for DidCloseTextDocument { type Params = DidCloseTextDocumentParams; }
pub struct DidOpenTextDocument; impl HasMethod for DidOpenTextDocument { open spec fn method() -> Seq<char> { "textDocument/didOpen"@ } } impl LspNotification for DidOpenTextDocument { type Params = DidOpenTextDocumentParams; }
pub struct DidSaveTextDocument; impl HasMethod for DidSaveTextDocument { open spec fn method() -> Seq<char> { "textDocument/didSave"@ } } impl LspNotification for DidSaveTextDocument { type Params = DidSaveTextDocumentParams; }
pub struct SetTrace; impl HasMethod for SetTrace { open spec fn method() -> Seq<char> { "$/setTrace"@ } } impl LspNotification for SetTrace { type Params = SetTraceParams; }
pub struct DidChangeWatchedFiles; impl HasMethod for DidChangeWatchedFiles { open spec fn method() -> Seq<char> { "workspace/didChangeWatchedFiles"@ } } impl LspNotification for DidChangeWatchedFiles { type Params = DidChangeWatchedFilesParams; }
/// these names differ from one another
pub uninterp spec fn code_of(s: Seq<char>) -> int;
pub axiom fn ax_names() ensures code_of("initialize"@) == 0, code_of("shutdown"@) == 1, code_of("textDocument/hover"@) == 2, code_of("textDocument/completion"@) == 3, code_of("exit"@) == 4, code_of("initialized"@) == 5, code_of("textDocument/didChange"@) == 6, code_of("textDocument/didClose"@) == 7, code_of("textDocument/didOpen"@) == 8, code_of("textDocument/didSave"@) == 9, code_of("$/setTrace"@) == 10, code_of("workspace/didChangeWatchedFiles"@) == 11;
// ---- the life cycle ----
/// what the protocol lets a client do in a state: the parameters' type, where success leads, whether the handler cannot fail
pub struct Entry { pub params: int, pub to: LspTransitionTarget, pub sure: bool }
pub open spec fn entry(params: int, to: Option<LspServerState>, sure: bool) -> Entry { Entry { params, to: match to { Some(s) => LspTransitionTarget::Next(s), None => LspTransitionTarget::Current }, sure } }
pub open spec fn requests_of(s: LspServerState) -> Map<Seq<char>, Entry> {
    match s {
        LspServerState::ActiveUninitialized => map!["initialize"@ => entry(ty::<InitializeParams>(), Some(LspServerState::Initializing), false)],
        LspServerState::ActiveInitialized => map![
            "shutdown"@ => entry(ty::<()>(), Some(LspServerState::ShuttingDown), true),
            "textDocument/hover"@ => entry(ty::<HoverParams>(), None, false),
            "textDocument/completion"@ => entry(ty::<CompletionParams>(), None, false)],
        _ => Map::empty(),
    }
}
pub open spec fn notifications_of(s: LspServerState) -> Map<Seq<char>, Entry> {
    let exit = entry(ty::<()>(), Some(LspServerState::Stopped), true);
    match s {
        LspServerState::ActiveUninitialized => map!["exit"@ => exit],
        LspServerState::Initializing => map!["initialized"@ => entry(ty::<InitializedParams>(), Some(LspServerState::ActiveInitialized), false), "exit"@ => exit],
        LspServerState::ActiveInitialized => map![
            "textDocument/didChange"@ => entry(ty::<DidChangeTextDocumentParams>(), None, false),
            "textDocument/didClose"@ => entry(ty::<DidCloseTextDocumentParams>(), None, false),
            "textDocument/didOpen"@ => entry(ty::<DidOpenTextDocumentParams>(), None, false),
            "textDocument/didSave"@ => entry(ty::<DidSaveTextDocumentParams>(), None, false),
            "$/setTrace"@ => entry(ty::<SetTraceParams>(), None, false),
            "workspace/didChangeWatchedFiles"@ => entry(ty::<DidChangeWatchedFilesParams>(), None, false),
            "exit"@ => exit],
        LspServerState::ShuttingDown => map!["exit"@ => exit],
        LspServerState::Stopped => Map::empty(),
    }
}
/// the error for a request a state does not know
pub open spec fn missing_of(s: LspServerState) -> int {
    match s { LspServerState::ActiveUninitialized | LspServerState::Initializing => -32002, LspServerState::ActiveInitialized => -32603, _ => -32600 }
}
pub open spec fn fits(request: bool, e: Entry, m: Meaning) -> bool { meaning(request, e.params, e.to, m.sure, m) && (e.sure ==> m.sure) }
pub open spec fn table_is(t: Map<Seq<char>, Meaning>, request: bool, e: Map<Seq<char>, Entry>) -> bool {
    t.dom() =~= e.dom() && forall|m: Seq<char>| e.dom().contains(m) ==> #[trigger] fits(request, e[m], t[m])
}
pub open spec fn missing(d: Disp) -> int { match d.missing { Some(c) => c.0 as int, None => -32603 } }
pub open spec fn is_life(d: Disp, s: LspServerState) -> bool {
    d.state == s && table_is(d.requests, true, requests_of(s)) && table_is(d.notifications, false, notifications_of(s)) && missing(d) == missing_of(s)
}
/// locks that were there keep their contents
pub open spec fn extends(o: World, f: World) -> bool {
    f.calls == o.calls && o.tables.dom().subset_of(f.tables.dom()) && (forall|i: int| #[trigger] o.tables.dom().contains(i) ==> f.tables[i] == o.tables[i])
        && o.dispatchers.dom().subset_of(f.dispatchers.dom()) && (forall|i: int| #[trigger] o.dispatchers.dom().contains(i) ==> f.dispatchers[i] == o.dispatchers[i])
}
pub open spec fn known(d: DRef, w: World) -> bool { w.tables.dom().contains(d.requests) && w.tables.dom().contains(d.notifications) }
// ---- the handlers ----
#[verifier::external_body] fn on_initialize(s: LspServerState, params: InitializeParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<InitializeResult> { unimplemented!() }
#[verifier::external_body] fn on_client_initialized(s: LspServerState, params: InitializedParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { unimplemented!() }
#[verifier::external_body] fn on_text_document_hover(s: LspServerState, params: HoverParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<Option<Hover>> { unimplemented!() }
#[verifier::external_body] fn on_text_document_completion(s: LspServerState, params: CompletionParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<Option<CompletionResponse>> { unimplemented!() }
#[verifier::external_body] fn on_text_document_did_change(s: LspServerState, params: DidChangeTextDocumentParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { unimplemented!() }
#[verifier::external_body] fn on_text_document_did_close(s: LspServerState, params: DidCloseTextDocumentParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { unimplemented!() }
#[verifier::external_body] fn on_text_document_did_open(s: LspServerState, params: DidOpenTextDocumentParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { unimplemented!() }
#[verifier::external_body] fn on_text_document_did_save(s: LspServerState, params: DidSaveTextDocumentParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { unimplemented!() }
#[verifier::external_body] fn on_set_trace(s: LspServerState, params: SetTraceParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { unimplemented!() }
#[verifier::external_body] fn on_watched_file_change(s: LspServerState, params: DidChangeWatchedFilesParams, state: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { unimplemented!() }
//@fn a on_exit
//@rename active_uninitialized__on_exit
//@ret r
//@ensures
    r is Ok,
//@endfn
//@fn a create_dispatcher
//@rename active_uninitialized__create_dispatcher
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@closures /^\|(?:mut )?(\w+)\|[\s\S]*transition_to\(([\w:]+)\)/ => |mut $1: TransitionBuilder<State>| ensures final($1.target).meaning() == (Meaning { to: LspTransitionTarget::Next($2), ..old($1.target).meaning() })
//@ensures
    extends(*old(w), *final(w)), known(r.dref(), *final(w)), is_life(disp(r.dref(), *final(w)), LspServerState::ActiveUninitialized),
//@start
    proof { ax_names(); }
//@endfn
//@fn i on_exit
//@rename initializing__on_exit
//@ret r
//@ensures
    r is Ok,
//@endfn
//@fn i create_dispatcher
//@rename initializing__create_dispatcher
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@closures /^\|(?:mut )?(\w+)\|[\s\S]*transition_to\(([\w:]+)\)/ => |mut $1: TransitionBuilder<State>| ensures final($1.target).meaning() == (Meaning { to: LspTransitionTarget::Next($2), ..old($1.target).meaning() })
//@ensures
    extends(*old(w), *final(w)), known(r.dref(), *final(w)), is_life(disp(r.dref(), *final(w)), LspServerState::Initializing),
//@start
    proof { ax_names(); }
//@endfn
//@fn n on_exit
//@rename active_initialized__on_exit
//@ret r
//@ensures
    r is Ok,
//@endfn
//@fn n on_shutdown
//@ret r
//@ensures
    r is Ok,
//@endfn
//@fn n create_dispatcher
//@rename active_initialized__create_dispatcher
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@closures /^\|(?:mut )?(\w+)\|[\s\S]*transition_to\(([\w:]+)\)/ => |mut $1: TransitionBuilder<State>| ensures final($1.target).meaning() == (Meaning { to: LspTransitionTarget::Next($2), ..old($1.target).meaning() })
//@ensures
    extends(*old(w), *final(w)), known(r.dref(), *final(w)), is_life(disp(r.dref(), *final(w)), LspServerState::ActiveInitialized),
//@start
    proof { ax_names(); }
//@endfn
//@fn g on_exit
//@rename shutting_down__on_exit
//@ret r
//@ensures
    r is Ok,
//@endfn
//@fn g create_dispatcher
//@rename shutting_down__create_dispatcher
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@closures /^\|(?:mut )?(\w+)\|[\s\S]*transition_to\(([\w:]+)\)/ => |mut $1: TransitionBuilder<State>| ensures final($1.target).meaning() == (Meaning { to: LspTransitionTarget::Next($2), ..old($1.target).meaning() })
//@ensures
    extends(*old(w), *final(w)), known(r.dref(), *final(w)), is_life(disp(r.dref(), *final(w)), LspServerState::ShuttingDown),
//@start
    proof { ax_names(); }
//@endfn
//@fn o create_dispatcher
//@rename stopped__create_dispatcher
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@closures /^\|(?:mut )?(\w+)\|[\s\S]*transition_to\(([\w:]+)\)/ => |mut $1: TransitionBuilder<State>| ensures final($1.target).meaning() == (Meaning { to: LspTransitionTarget::Next($2), ..old($1.target).meaning() })
//@ensures
    extends(*old(w), *final(w)), known(r.dref(), *final(w)), is_life(disp(r.dref(), *final(w)), LspServerState::Stopped),
//@start
    proof { ax_names(); }
//@endfn
// ================= the machine =================
/// `[(k, v); N].into()`: the entries in order, a later one replacing an earlier one
pub open spec fn map_of(s: Seq<(LspServerState, LspServerStateDispatcher)>) -> Map<LspServerState, DRef> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1.dref()) }
}
pub trait VInto<T> { spec fn became(self, t: T) -> bool; fn v_into(self) -> (r: T) where Self: Sized ensures self.became(r); }
impl<const N: usize> VInto<HashMap<LspServerState, LspServerStateDispatcher>> for [(LspServerState, LspServerStateDispatcher); N] {
    open spec fn became(self, t: HashMap<LspServerState, LspServerStateDispatcher>) -> bool { t@ == map_of(self@) }
    #[verifier::external_body] fn v_into(self) -> (r: HashMap<LspServerState, LspServerStateDispatcher>) { unimplemented!() }
}
impl RwLock<HashMap<LspServerState, LspServerStateDispatcher>> {
    #[verifier::external_body] pub fn write<'a>(&'a self, Tracked(w): Tracked<&World>) -> (r: LockResult<WriteGuard<'a, HashMap<LspServerState, LspServerStateDispatcher>>>) ensures r.g.id() == self.id() { unimplemented!() }
}
#[verifier::external_body] pub struct Slot<'a> { t: core::marker::PhantomData<&'a ()> }
impl<'a> Slot<'a> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn key(&self) -> LspServerState;
    /// asked for: the entry is there, so nothing is inserted
    #[verifier::external_body] pub fn or_insert_with<F: FnOnce() -> LspServerStateDispatcher>(self, f: F, Tracked(w): Tracked<&World>) -> (r: &'a mut LspServerStateDispatcher)
        requires w.dispatchers[self.id()].dom().contains(self.key()) ensures r.dref() == w.dispatchers[self.id()][self.key()] { unimplemented!() }
}
impl<'a> WriteGuard<'a, HashMap<LspServerState, LspServerStateDispatcher>> {
    #[verifier::external_body] pub fn entry<'b>(&'b mut self, k: LspServerState) -> (r: Slot<'b>) ensures r.id() == old(self).id(), r.key() == k { unimplemented!() }
}
#[verifier::external_body] pub struct TraceValueAccessor {}
#[verifier::external_body] pub struct RequestManager {}
#[verifier::external_body] pub struct AnyEnumerableFileSystem {}
impl State { #[verifier::external_body] pub fn new(trace_value: Option<TraceValueAccessor>, request_manager: RequestManager, file_system: Arc<AnyEnumerableFileSystem>) -> State { unimplemented!() } }
impl AsyncRwLock<State> { #[verifier::external_body] pub fn new(s: State) -> Self { unimplemented!() } }
//@item f const LSP_STARTING_STATE
//@item f struct LspProtocolMachine [open]
/// every state has its dispatcher
pub open spec fn complete(m: Map<LspServerState, DRef>, w: World) -> bool {
    forall|s: LspServerState| #[trigger] has(m, s, w)
}
pub open spec fn has(m: Map<LspServerState, DRef>, s: LspServerState, w: World) -> bool { m.dom().contains(s) && known(m[s], w) && is_life(disp(m[s], w), s) }
/// what a message does in a state: the reply, and the state that follows
pub open spec fn lived(s: LspServerState, msg: Message, o: World, f: World, r: Result<Option<Message>, LspProtocolError>, n: LspServerState) -> bool {
    match msg {
        Message::Request(q) => r matches Ok(Some(Message::Response(x))) && x.id == q.id && if !requests_of(s).dom().contains(q.method@) {
            f == o && n == s && is_error(Message::Response(x), q.id, missing_of(s))
        } else { let e = requests_of(s)[q.method@]; match decode(e.params, q.params) {
            None => f == o && n == s && is_error(Message::Response(x), q.id, -32602),
            Some(a) => ran(e, s, a, o, f) && match f.calls.last().out {
                Ok(v) => x.result == Some(v) && x.error is None && n == next(e.to, s),
                Err(t) => is_error(Message::Response(x), q.id, -32603) && x.error->0.message@ == t && n == s },
        } },
        Message::Notification(q) => if !notifications_of(s).dom().contains(q.method@) {
            f == o && n == s && (r matches Err(e) && e is UnexpectedRequest)
        } else { let e = notifications_of(s)[q.method@]; match decode(e.params, q.params) {
            None => f == o && n == s && (r matches Err(e) && e is BadRequest),
            Some(a) => ran(e, s, a, o, f) && (r matches Ok(p) && p is None) && n == if f.calls.last().out is Ok { next(e.to, s) } else { s },
        } },
        Message::Response(_) => f == o && n == s && (r matches Err(e) && e is UnexpectedRequest),
    }
}
/// one handler has run, once, in state s, with the message's parameters
pub open spec fn ran(e: Entry, s: LspServerState, a: Any, o: World, f: World) -> bool {
    f == (World { calls: o.calls.push(f.calls.last()), ..o }) && f.calls.last().cur == s && f.calls.last().arg == a && (e.sure ==> f.calls.last().out is Ok)
}
pub broadcast proof fn b_complete(m: Map<LspServerState, DRef>, v: World, w: World)
    requires #[trigger] complete(m, v), v.tables == w.tables ensures #[trigger] complete(m, w) {
    assert forall|s: LspServerState| #[trigger] has(m, s, w) by { assert(has(m, s, v)); assert(disp(m[s], w) == disp(m[s], v)); }
}
pub open spec fn reply(x: Outcome) -> Result<Option<Message>, LspProtocolError> { match x { Ok(p) => Ok(p.0), Err(e) => Err(e) } }
pub open spec fn then(x: Outcome, s: LspServerState) -> LspServerState { match x { Ok(p) => p.1, Err(_) => s } }
pub broadcast proof fn b_lived(d: Disp, s: LspServerState, msg: Message, o: World, f: World, x: Outcome)
    requires #[trigger] is_life(d, s), #[trigger] dispatched(d, msg, o, f, x) ensures lived(s, msg, o, f, reply(x), then(x, s)) {
    match msg {
        Message::Request(q) => { if requests_of(s).dom().contains(q.method@) { assert(fits(true, requests_of(s)[q.method@], d.requests[q.method@])); } else { assert(!d.requests.dom().contains(q.method@)); } }
        Message::Notification(q) => { if notifications_of(s).dom().contains(q.method@) { assert(fits(false, notifications_of(s)[q.method@], d.notifications[q.method@])); } else { assert(!d.notifications.dom().contains(q.method@)); } }
        _ => {}
    }
}
impl LspProtocolMachine {
    pub open spec fn wf(&self, w: World) -> bool { w.dispatchers.dom().contains(self.dispatchers.id()) && complete(w.dispatchers[self.dispatchers.id()], w) }
    /// never asked for: every state has its dispatcher
    #[verifier::external_body] fn default_dispatcher(state: LspServerState) -> LspServerStateDispatcher { unimplemented!() }
//@fn f LspProtocolMachine::create_dispatchers
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@ensures
    extends(*old(w), *final(w)), complete(r@, *final(w)),
//@start
    proof { reveal_with_fuel(map_of, 7); }
//@endfn
//@fn f LspProtocolMachine::new
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@ensures
    r.wf(*final(w)), r.current_state is ActiveUninitialized, extends(*old(w), *final(w)),
//@start
    broadcast use b_complete;
//@endfn
//@fn f LspProtocolMachine::is_active
//@ret r
//@ensures
    r == !(self.current_state is Stopped),
//@endfn
//@fn f LspProtocolMachine::get_dispatcher
//@ret r
//@ghostparam Tracked(w): Tracked<&World>
//@requires
    self.wf(*w),
//@ensures
    r.dref() == w.dispatchers[self.dispatchers.id()][state], is_life(disp(r.dref(), *w), state),
//@start
    assert(has(w.dispatchers[self.dispatchers.id()], state, *w));
//@endfn
//@fn f LspProtocolMachine::process_message
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(self).wf(*old(w)),
//@ensures
    final(self).wf(*final(w)),
    lived(old(self).current_state, *message, *old(w), *final(w), r, final(self).current_state),
//@start
    broadcast use b_complete, b_lived;
//@endfn
}
} // verus!
verus! {
// ================= what it means for a client =================
/// every request is answered, once, under its id, with a result or an error and not both
pub proof fn thm_answered(s: LspServerState, q: Request, o: World, f: World, r: Result<Option<Message>, LspProtocolError>, n: LspServerState)
    requires lived(s, Message::Request(q), o, f, r, n)
    ensures r matches Ok(Some(Message::Response(x))) && x.id == q.id && (x.result is Some <==> x.error is None) {}
/// nothing but a request is answered
pub proof fn thm_silent(s: LspServerState, m: Message, o: World, f: World, r: Result<Option<Message>, LspProtocolError>, n: LspServerState)
    requires lived(s, m, o, f, r, n), !(m is Request) ensures r matches Ok(x) ==> x is None {}
/// exit stops the server in every state, stopped is for good
pub proof fn thm_exit(s: LspServerState, q: Notification, o: World, f: World, r: Result<Option<Message>, LspProtocolError>, n: LspServerState)
    requires lived(s, Message::Notification(q), o, f, r, n), q.method@ == "exit"@, decode(ty::<()>(), q.params) is Some ensures n is Stopped {
    ax_names();
}
pub proof fn thm_stopped(m: Message, o: World, f: World, r: Result<Option<Message>, LspProtocolError>, n: LspServerState)
    requires lived(LspServerState::Stopped, m, o, f, r, n) ensures n is Stopped, f == o {}
/// nothing runs before initialize has succeeded; after shutdown nothing runs but exit
pub proof fn thm_guarded(s: LspServerState, m: Message, o: World, f: World, r: Result<Option<Message>, LspProtocolError>, n: LspServerState)
    requires lived(s, m, o, f, r, n)
    ensures
        s is ActiveUninitialized && f != o ==> (m matches Message::Request(q) && q.method@ == "initialize"@) || (m matches Message::Notification(q) && q.method@ == "exit"@),
        s is Initializing && f != o ==> (m matches Message::Notification(q) && (q.method@ == "initialized"@ || q.method@ == "exit"@)),
        s is ShuttingDown && f != o ==> (m matches Message::Notification(q) && q.method@ == "exit"@),
        // a request in the wrong state gets the error the protocol names for it
        m matches Message::Request(q) ==> ((s is ActiveUninitialized || s is Initializing) && q.method@ != "initialize"@ ==> (r matches Ok(Some(x)) && is_error(x, q.id, -32002))),
        m matches Message::Request(q) ==> (s is ShuttingDown ==> (r matches Ok(Some(x)) && is_error(x, q.id, -32600))),
        // and the only ways between the states are the protocol's
        n == s || n is Stopped || (s is ActiveUninitialized && n is Initializing) || (s is Initializing && n is ActiveInitialized) || (s is ActiveInitialized && n is ShuttingDown),
{}
} // verus!
fn main() {}
