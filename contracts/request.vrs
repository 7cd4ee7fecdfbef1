#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::fmt::Debug;
use std::sync::Arc;
//@file q crates/analyzer-host/src/lsp/request.rs
//@file r crates/analyzer-host/src/json_rpc.rs
//@file m crates/analyzer-host/src/json_rpc/message.rs
//@file l crates/analyzer-host/src/lsp.rs
//@file h crates/analyzer-host/src/lib.rs
//@path q error! ()
//@path q info! ()
//@path q T::METHOD vx_method::<T>()
//@path q analyzer_abstractions::lsp_types::notification::Notification LspNotification
//@path q analyzer_abstractions::lsp_types::request::Request LspRequest
//@path m serde_json::Value Value
//@method q into v_into
//@method q to_string v_into
//@method q to_owned v_into
//@path q String::from v_string_from
//@method q .await v_await
//@method q send.await v_await
//@ghostarg q v_await Tracked(w)
//@ghostarg q is_canceled Tracked(w)
//@ghostarg q fetch_add Tracked(w)
//@ghostarg q compare_exchange Tracked(w)
//@ghostarg q insert Tracked(w)
//@ghostarg q remove Tracked(w)
//@ghostarg q set_value Tracked(w)
//@ghostarg q set_err Tracked(w)
//@ghostarg q close Tracked(w)
//@ghostarg q is_closed Tracked(w)
//@ghostarg q drain Tracked(w)
//@ghostarg q take_awaiting_request Tracked(w)
//@ghostarg q create_active_request Tracked(w)
//@ghostarg q send_request Tracked(w)
verus! {
global size_of usize == 8;
//@include prelude_hmap.vrs
// ---- serde_json ----
#[verifier::external_body] pub struct Value {}
pub trait Serialize { spec fn fails(&self) -> bool; spec fn json(&self) -> Value; }
pub trait DeserializeOwned: Sized { spec fn of_json(v: Value) -> Option<Self>; }
#[derive(Clone, Copy)] pub struct DeserializeError;
#[verifier::external_body] pub fn from_json<T: DeserializeOwned>(v: &Value) -> (r: Result<T, DeserializeError>)
    ensures match r { Ok(x) => T::of_json(*v) == Some(x), Err(_) => T::of_json(*v) is None } { unimplemented!() }
// ---- extracted items ----
//@item r enum IdRepr [open]
//@item r struct RequestId [open]
//@item m struct Request [open]
//@item m struct ResponseError [open]
//@item m struct Response [open]
//@item m struct Notification [open]
//@item m enum Message [open]
//@item l enum LspProtocolError [open]
// thiserror's #[from]
impl vstd::std_specs::convert::FromSpecImpl<DeserializeError> for LspProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DeserializeError) -> LspProtocolError { LspProtocolError::BadRequest(e) }
}
impl From<DeserializeError> for LspProtocolError { #[verifier::external_body] fn from(e: DeserializeError) -> (r: LspProtocolError) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<i32> for RequestId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(id: i32) -> RequestId { RequestId(IdRepr::I32(id)) }
}
impl From<i32> for RequestId { #[verifier::external_body] fn from(id: i32) -> (r: RequestId) { unimplemented!() } }
impl Clone for RequestId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl core::fmt::Display for RequestId { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl Request { #[verifier::external_body] pub fn new<P: Serialize>(id: RequestId, method: String, params: P) -> (res: Request)
    requires !params.fails(), ensures res.id == id, res.method == method, res.params == params.json() { unimplemented!() } }
impl Notification { #[verifier::external_body] pub fn new<P: Serialize>(method: &str, data: P) -> (res: Notification)
    requires !data.fails(), ensures res.method@ == method@, res.params == data.json() { unimplemented!() } }
pub enum Key { Num(i32), Str(Seq<char>) }
impl HKey for RequestId { type A = Key; open spec fn key(&self) -> Key { match self.0 { IdRepr::I32(n) => Key::Num(n), IdRepr::String(s) => Key::Str(s@) } } }
pub trait LspRequest { type Params; type Result; }
pub trait LspNotification { type Params; }
pub uninterp spec fn method_of<T>() -> Seq<char>;
#[verifier::external_body] pub fn vx_method<T>() -> (r: &'static str) ensures r@ == method_of::<T>() { unimplemented!() }

pub trait VInto { fn v_into(&self) -> String; }
impl VInto for str { #[verifier::external_body] fn v_into(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn v_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// the conversion that `?` applies
pub broadcast axiom fn ax_question(e: DeserializeError, f: LspProtocolError) requires #[trigger] vstd::std_specs::control_flow::spec_from::<LspProtocolError, DeserializeError>(e, f) ensures f == LspProtocolError::BadRequest(e);
// ---- what has happened ----
/// closed: the channel of responses has been found closed;
/// taken: the number this call has drawn from a counter and not used yet; registered: waiters this call has put under a key (and not taken out again);
/// shut: no more responses can be received; unchecked: responses may have been shut before this call's waiter was registered; drained: whoever waited after that has been failed
/// rights: sources this call alone may complete; sent: messages sent; owed: the response that has been received and not been handed to its waiter yet
pub tracked struct World {
    pub ghost taken: Option<(int, i32)>, pub ghost registered: Map<(int, Key), int>, pub ghost rights: Set<int>, pub ghost sent: Seq<Message>,
    pub ghost owed: Option<Message>, pub ghost canceled: bool, pub ghost closed: bool, pub ghost reply: Option<Result<Arc<Message>, LspProtocolError>>, pub ghost delivered: Seq<Message>, pub ghost shut: bool, pub ghost unchecked: bool, pub ghost drained: bool,
}
impl World {
    pub open spec fn calm(&self, o: World) -> bool { self.taken == o.taken && self.registered == o.registered && self.rights == o.rights && self.sent == o.sent && self.owed == o.owed && self.reply == o.reply && self.delivered == o.delivered && self.shut == o.shut && self.unchecked == o.unchecked && self.drained == o.drained && (o.closed ==> self.closed) && (o.canceled ==> self.canceled) }
}
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body] pub struct AtomicI32 {}
impl AtomicI32 {
    /// which counter
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new(n: i32) -> (r: AtomicI32) { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: i32) { unimplemented!() }
    /// nobody else draws the same number from this counter (until it has gone round once)
    #[verifier::external_body] pub fn fetch_add(&self, n: i32, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: i32)
        requires n == 1,
        ensures *final(w) == (World { taken: Some((self.id(), r)), ..*old(w) }) { unimplemented!() }
    /// a number is drawn when the counter goes on by one at the same time
    #[verifier::external_body] pub fn compare_exchange(&self, cur: i32, new: i32, a: Ordering, b: Ordering, Tracked(w): Tracked<&mut World>) -> (r: Result<i32, i32>)
        requires new == (if cur == i32::MAX { i32::MIN as int } else { cur + 1 }),
        ensures match r { Ok(n) => n == cur && *final(w) == (World { taken: Some((self.id(), n)), ..*old(w) }), Err(_) => *final(w) == *old(w) } { unimplemented!() }
    /// whatever is stored, others may have gone on from there: the numbers would not be unique
    #[verifier::external_body] pub fn store(&self, n: i32, o: Ordering) requires false { unimplemented!() }
}
pub struct OperationCanceled;
#[verifier::external_body] pub struct CancellationToken {}
impl CancellationToken {
    #[verifier::external_body] pub fn is_canceled(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures b == final(w).canceled, final(w).closed == old(w).closed, final(w).calm(*old(w)) { unimplemented!() }
}
// ---- completion sources (C07, C08) ----
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(E)] pub struct FutureCompletionSource<T, E> { t: core::marker::PhantomData<(T, E)> }
pub struct FcsInvalid {}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(E)] pub struct FcsFuture<T, E> { t: core::marker::PhantomData<(T, E)> }
impl<T, E> FcsFuture<T, E> { pub uninterp spec fn id(&self) -> int; }
impl<T, E> FutureCompletionSource<T, E> {
    pub uninterp spec fn id(&self) -> int;
    /// it has not been completed, nobody else has it
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fresh() { unimplemented!() }
    #[verifier::external_body] pub fn new_with_value(t: T) -> (r: Self) ensures !r.fresh() { unimplemented!() }
    #[verifier::external_body] pub fn future(&self) -> (r: FcsFuture<T, E>) ensures r.id() == self.id() { unimplemented!() }
}
/// the table and the key a source is registered under
pub uninterp spec fn place(src: int) -> (int, Key);
pub open spec fn answers(m: Message, k: Key) -> bool { m matches Message::Response(r) && r.id.key() == k }
impl<E> FutureCompletionSource<Arc<Message>, E> {
    /// only by whom took it out of the table, with the response to its request that has been received
    #[verifier::external_body] pub fn set_value(&self, m: Arc<Message>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), FcsInvalid>)
        requires old(w).rights.contains(self.id()), answers(*m, place(self.id()).1), old(w).owed == Some(*m),
        ensures r is Ok, *final(w) == (World { rights: old(w).rights.remove(self.id()), owed: None, delivered: old(w).delivered.push(*m), ..*old(w) }) { unimplemented!() }
    /// only by whom took it out of the table, when no response can come
    #[verifier::external_body] pub fn set_err(&self, e: LspProtocolError, Tracked(w): Tracked<&mut World>) -> (r: Result<(), FcsInvalid>)
        requires old(w).rights.contains(self.id()), old(w).shut, e is TransportError,
        ensures r is Ok, *final(w) == (World { rights: old(w).rights.remove(self.id()), ..*old(w) }) { unimplemented!() }
}
impl FcsFuture<Arc<Message>, LspProtocolError> {
    /// awaiting is allowed only for a source that is registered under the request that was sent last, and only after it has been seen that responses can still come (who waits when they end is failed)
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Arc<Message>, LspProtocolError>)
        requires !old(w).unchecked, old(w).sent.len() > 0, old(w).sent.last() matches Message::Request(q) && place(self.id()).1 == q.id.key(), old(w).registered.dom().contains(place(self.id())), old(w).registered[place(self.id())] == self.id(),
        ensures *final(w) == (World { reply: Some(r), ..*old(w) }), r matches Ok(m) ==> answers(*m, place(self.id()).1) { unimplemented!() }
}
// ---- channels ----
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct SendFut<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RecvFut<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct SendError<T> { t: core::marker::PhantomData<T> }
pub struct RecvError {}
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.chan() == self.chan() { unimplemented!() } }
impl<T> Clone for Receiver<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.chan() == self.chan() { unimplemented!() } }
impl<T> Sender<T> {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn send(&self, x: T) -> (r: SendFut<T>) ensures r.msg() == x { unimplemented!() }
}
impl<T> Sender<T> {
    #[verifier::external_body] pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures *final(w) == *old(w) { unimplemented!() }
}
impl<T> SendFut<T> { pub uninterp spec fn msg(&self) -> T; }
impl SendFut<Message> {
    /// a request is sent only when its id was drawn from the counter and its waiter is registered under that id
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendError<Message>>)
        requires self.msg() matches Message::Request(q) ==> exists|p: (int, Key)| #[trigger] old(w).registered.dom().contains(p) && p.1 == q.id.key(),
        ensures *final(w) == (World { sent: if r is Ok { old(w).sent.push(self.msg()) } else { old(w).sent }, ..*old(w) }) { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn recv(&self) -> (r: RecvFut<T>) { unimplemented!() }
    #[verifier::external_body] pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures *final(w) == (World { closed: old(w).closed || b, unchecked: old(w).unchecked && b, ..*old(w) }), forall|p: (int, Key)| #[trigger] old(w).registered.dom().contains(p) ==> final(w).registered.dom().contains(p) { unimplemented!() }
    #[verifier::external_body] pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures *final(w) == (World { shut: true, ..*old(w) }) { unimplemented!() }
}
impl RecvFut<Message> {
    /// the next response is waited for only when the last one has been handed over. The host puts only responses into this channel.
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Message, RecvError>)
        requires old(w).owed is None, !old(w).canceled,
        ensures final(w).calm(World { owed: final(w).owed, ..*old(w) }), match r { Ok(m) => m is Response && final(w).owed == Some(m), Err(_) => final(w).owed is None && final(w).closed } { unimplemented!() }
}
// ---- the table of waiters ----
pub type Src = Arc<FutureCompletionSource<Arc<Message>, LspProtocolError>>;
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct AsyncRwLock<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct Guard {}
#[verifier::external_body] pub struct WriteFut {}
/// the counter whose numbers are the ids in a table
pub uninterp spec fn counter_of(table: int) -> int;
impl AsyncRwLock<HashMap<RequestId, Src>> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new(m: HashMap<RequestId, Src>) -> (r: Self) requires m@.dom().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn write(&self) -> (r: WriteFut) ensures r.id() == self.id() { unimplemented!() }
}
impl WriteFut {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: Guard) ensures r.id() == self.id(), *final(w) == *old(w),
        // what is in the table is registered under the key it is found under
        forall|k: Key| #[trigger] r@.dom().contains(k) ==> place(r@[k].id()) == (self.id(), k) { unimplemented!() }
}
impl Guard {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn view(&self) -> Map<Key, Src>;
    /// a key is used only by whom has drawn it from the counter, once; so nobody else's waiter is replaced
    #[verifier::external_body] pub fn insert(&mut self, k: RequestId, v: Src, Tracked(w): Tracked<&mut World>) -> (r: Option<Src>)
        requires v.fresh(), old(w).taken matches Some(t) && t.0 == counter_of(old(self).id()) && k.key() == Key::Num(t.1),
        ensures final(self).id() == old(self).id(), final(self)@ == old(self)@.insert(k.key(), v), place(v.id()) == (old(self).id(), k.key()),
            *final(w) == (World { taken: None, registered: old(w).registered.insert((old(self).id(), k.key()), v.id()), unchecked: true, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &RequestId) -> (r: Option<&Src>) ensures r == (if self@.dom().contains(k.key()) { Some(&self@[k.key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &RequestId) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    /// whom nobody waits for needs not be handed over
    #[verifier::external_body] pub fn remove(&mut self, k: &RequestId, Tracked(w): Tracked<&mut World>) -> (r: Option<Src>)
        ensures final(self).id() == old(self).id(), final(self)@ == old(self)@.remove(k.key()),
            match r { Some(s) => old(self)@.dom().contains(k.key()) && s == old(self)@[k.key()] && *final(w) == (World { rights: old(w).rights.insert(s.id()), registered: old(w).registered.remove((old(self).id(), k.key())), ..*old(w) }),
                None => !old(self)@.dom().contains(k.key()) && *final(w) == (World { owed: if old(w).owed matches Some(m) && answers(m, k.key()) { None } else { old(w).owed }, registered: old(w).registered.remove((old(self).id(), k.key())), ..*old(w) }) } { unimplemented!() }
}
impl Guard {
    /// whom the table held has to be failed; nobody waits for long who comes later, since responses are shut
    #[verifier::external_body] pub fn drain(&mut self, Tracked(w): Tracked<&mut World>) -> (r: VSeqIter<(RequestId, Src)>)
        requires old(w).shut,
        ensures final(self).id() == old(self).id(), final(self)@.dom() == Set::<Key>::empty(), *final(w) == (World { rights: final(w).rights, drained: true, ..*old(w) }),
            forall|x: int| #[trigger] final(w).rights.contains(x) <==> old(w).rights.contains(x) || held(r.items(), 0, x),
            forall|i: int, j: int| 0 <= i < j < r.items().len() ==> (#[trigger] r.items()[i]).1.id() != (#[trigger] r.items()[j]).1.id() { unimplemented!() }
}
pub open spec fn held(s: Seq<(RequestId, Src)>, from: int, x: int) -> bool { exists|i: int| from <= i < s.len() && (#[trigger] s[i]).1.id() == x }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VSeqIter<T> { v: Vec<T> }
impl<T> VSeqIter<T> { pub uninterp spec fn items(&self) -> Seq<T>; }
impl<T> Iterator for VSeqIter<T> { type Item = T; #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl<T> vstd::std_specs::iter::IteratorSpecImpl for VSeqIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic] open spec fn remaining(&self) -> Seq<T> { self.items() }
    #[verifier::prophetic] open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.items().len()) }
    open spec fn peek(&self, k: int) -> Option<T> { if 0 <= k < self.items().len() { Some(self.items()[k]) } else { None } }
}
//@item q type AnyFutureCompletionSource
//@item h type MessageChannel
//@item q struct RequestManager [open]
impl RequestManager {
    /// ids come from the counter of the table that all copies share
    pub open spec fn wf(&self) -> bool { counter_of(self.awaiting_requests.id()) == self.request_id.id() }
}
/// what the sender of a request is told, given what came back
pub open spec fn decoded<R: DeserializeOwned>(reply: Option<Result<Arc<Message>, LspProtocolError>>, r: Result<R, LspProtocolError>) -> bool {
    match reply {
        Some(Ok(m)) => match *m {
            Message::Response(p) => if p.error is Some || p.result is None { r matches Err(e) && e is UnexpectedResponse } else { match R::of_json(p.result->0) { Some(x) => r == Ok::<R, LspProtocolError>(x), None => r matches Err(e) && e is BadRequest } },
            _ => r is Err,
        },
        Some(Err(e)) => r is Err,
        None => false,
    }
}
pub open spec fn accepted(reply: Option<Result<Arc<Message>, LspProtocolError>>, r: Result<(), LspProtocolError>) -> bool {
    match reply { Some(Ok(m)) => match *m { Message::Response(p) => if p.error is Some { r matches Err(e) && e is UnexpectedResponse } else { r is Ok }, _ => r is Err }, Some(Err(e)) => r is Err, None => false }
}
/// exactly one request has been sent, and its waiter is registered under its id, a number
pub open spec fn sent_one(q: RequestManager, o: World, f: World, method: Seq<char>, params: Value) -> bool {
    f.sent == o.sent.push(f.sent.last()) && (f.sent.last() matches Message::Request(m) && m.method@ == method && m.params == params && m.id.key() is Num && f.registered.dom().contains((q.awaiting_requests.id(), m.id.key())))
}
/// nothing has been sent, and nobody waits
pub open spec fn sent_none(q: RequestManager, o: World, f: World) -> bool { f.sent == o.sent && forall|k: (int, Key)| #[trigger] f.registered.dom().contains(k) ==> o.registered.dom().contains(k) }
} // verus!
verus! {
impl RequestManager {
//@fn q RequestManager::new
//@ret r
//@requires
    true,
//@ensures
    r.requests == message_channel.0, r.responses == message_channel.1,
//@endfn
//@fn q RequestManager::create_active_request
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.wf(), old(w).taken matches Some(t) && t.0 == self.request_id.id() && id.key() == Key::Num(t.1),
//@ensures
    place(r.id()) == (self.awaiting_requests.id(), id.key()), final(w).registered.dom().contains(place(r.id())),
    *final(w) == (World { taken: None, registered: old(w).registered.insert(place(r.id()), r.id()), unchecked: true, ..*old(w) }),
//@endfn
//@fn q RequestManager::take_awaiting_request
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    true,
//@ensures
    match r { Some(s) => place(s.id()) == (self.awaiting_requests.id(), id.key()) && *final(w) == (World { rights: old(w).rights.insert(s.id()), registered: old(w).registered.remove((self.awaiting_requests.id(), id.key())), ..*old(w) }),
        None => *final(w) == (World { owed: if old(w).owed matches Some(m) && answers(m, id.key()) { None } else { old(w).owed }, registered: old(w).registered.remove((self.awaiting_requests.id(), id.key())), ..*old(w) }) },
//@endfn
//@fn q RequestManager::send_request
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.wf(), !params.fails(), old(w).owed is None,
//@ensures
    final(w).owed is None, final(w).delivered == old(w).delivered,
    sent_one(*self, *old(w), *final(w), method@, params.json()) ==> final(w).reply == Some(r) && (r matches Ok(m) ==> answers(*m, final(w).sent.last()->Request_0.id.key())),
    !sent_one(*self, *old(w), *final(w), method@, params.json()) ==> sent_none(*self, *old(w), *final(w)) && (r matches Err(e) && e is TransportError),
//@start
    broadcast use ax_question;
//@endfn
//@fn q RequestManager::send_and_receive
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.wf(), !params.fails(), old(w).owed is None,
//@ensures
    final(w).owed is None, final(w).delivered == old(w).delivered,
    sent_one(*self, *old(w), *final(w), method_of::<T>(), params.json()) ==> decoded(final(w).reply, r),
    !sent_one(*self, *old(w), *final(w), method_of::<T>(), params.json()) ==> sent_none(*self, *old(w), *final(w)) && (r matches Err(e) && e is TransportError),
//@start
    broadcast use ax_question;
//@endfn
//@fn q RequestManager::send
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    self.wf(), !params.fails(), old(w).owed is None,
//@ensures
    final(w).owed is None, final(w).delivered == old(w).delivered,
    sent_one(*self, *old(w), *final(w), method_of::<T>(), params.json()) ==> accepted(final(w).reply, r),
    !sent_one(*self, *old(w), *final(w), method_of::<T>(), params.json()) ==> sent_none(*self, *old(w), *final(w)) && (r matches Err(e) && e is TransportError),
//@start
    broadcast use ax_question;
//@endfn
//@fn q RequestManager::send_notification
//@ret r
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    !params.fails(),
//@ensures
    match r { Ok(_) => final(w).sent == old(w).sent.push(final(w).sent.last()) && (final(w).sent.last() matches Message::Notification(n) && n.method@ == method_of::<T>() && n.params == params.json()),
        Err(e) => e is TransportError && final(w).sent == old(w).sent },
//@endfn
//@fn q RequestManager::start
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).owed is None, forall|x: int| !old(w).rights.contains(x),
//@ensures
    r is Err <==> final(w).canceled, final(w).canceled || final(w).closed, final(w).canceled || final(w).owed is None, final(w).sent == old(w).sent,
    // nobody is left waiting
    final(w).shut, final(w).drained, forall|x: int| !final(w).rights.contains(x),
//@loop 0
    invariant_except_break
        w.owed is None,
    invariant
        w.sent == old(w).sent, forall|x: int| !w.rights.contains(x),
    ensures
        w.canceled || w.closed, w.canceled || w.owed is None,
//@loop 1 iter it
    invariant
        w.sent == old(w).sent, w.canceled || w.closed, w.canceled || w.owed is None, w.shut, w.drained,
        forall|x: int| #[trigger] w.rights.contains(x) <==> held(it.seq(), it.index@, x),
        forall|i: int, j: int| 0 <= i < j < it.seq().len() ==> (#[trigger] it.seq()[i]).1.id() != (#[trigger] it.seq()[j]).1.id(),
//@endfn
}
impl Clone for RequestManager {
//@fn q <RequestManager as Clone>::clone
//@ret r
//@opt novac
//@ensures
    self.wf() ==> r.wf(), r.awaiting_requests == self.awaiting_requests, r.request_id == self.request_id, r.requests.chan() == self.requests.chan(), r.responses.chan() == self.responses.chan(),
//@endfn
}
} // verus!
fn main() {}
