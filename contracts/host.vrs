#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments)]
use vstd::prelude::*;
use std::sync::Arc;
//@file h crates/analyzer-host/src/lib.rs
//@file q crates/analyzer-host/src/lsp/request.rs
//@file r crates/analyzer-host/src/json_rpc.rs
//@file m crates/analyzer-host/src/json_rpc/message.rs
//@path h error! ()
//@path h info! ()
//@path h debug! ()
//@path h info_span! ()
//@path h trace_span! ()
//@path h futures::future::join4 join_all
//@path h join4 join_all
//@path h async_channel::unbounded::<Message> v_channel
//@path h async_channel::unbounded v_channel
//@path h Box::new v_box
//@path m serde_json::Value Value
//@method h .await v_await
//@method h clone v_clone
//@method h replace v_replace
//@path h drop v_drop
//@method h receive_messages.await -
//@method h process_message.await -
//@method h receive_messages v_receive_messages
//@method h run_protocol_machine v_run_protocol_machine
//@ghostarg h v_await Tracked(w)
//@ghostarg h is_canceled Tracked(w)
//@ghostarg h close Tracked(w)
//@ghostarg h is_closed Tracked(w)
//@ghostarg h process_message Tracked(w)
//@ghostarg h async_channel::unbounded Tracked(w)
//@ghostarg h AsyncPool::stop Tracked(w)
verus! {
global size_of usize == 8;
#[verifier::external_body] pub struct Value {}
//@item r enum IdRepr [open]
//@item r struct RequestId [open]
//@item m struct Request [open]
//@item m struct ResponseError [open]
//@item m struct Response [open]
//@item m struct Notification [open]
//@item m enum Message [open]
//@item h type MessageChannel
#[verifier::external_body] pub struct LspProtocolError {}
impl LspProtocolError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body] pub struct TraceValueAccessor {}
impl Clone for TraceValueAccessor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl core::fmt::Debug for Message { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub struct OperationCanceled;
/// what has happened. machine: guarded by its lock; closed: channels found or made closed; canceled: the token has been found canceled;
/// owed: the message received and not passed on (or processed) yet; reply: the reply to a message that has not been sent yet; stopped: the pool was told to stop; made: the channels made; ended: there is a reason to end; fine: the parts of the host all ended well
pub tracked struct World {
    pub ghost machine: Option<LspProtocolMachine>, pub ghost closed: Set<int>, pub ghost canceled: bool, pub ghost owed: Option<Message>, pub ghost reply: Option<Message>, pub ghost stopped: bool, pub ghost made: Set<int>, pub ghost ended: bool, pub ghost fine: bool,
}
impl World {
    /// what others may do meanwhile
    pub open spec fn later(&self, o: World) -> bool { *self == (World { closed: self.closed, canceled: self.canceled, ..o }) && o.closed.subset_of(self.closed) && (o.canceled ==> self.canceled) }
}
#[verifier::external_body] pub struct CancellationToken {}
impl CancellationToken {
    #[verifier::external_body] pub fn is_canceled(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures b == final(w).canceled, final(w).later(World { ended: old(w).ended || b, ..*old(w) }), final(w).closed == old(w).closed { unimplemented!() }
}
// ---- channels ----
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct SendFut<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RecvFut<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[derive(Debug)] pub struct SendError<T> { t: core::marker::PhantomData<T> }
#[derive(Debug)] pub struct RecvError {}
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.chan() == self.chan() { unimplemented!() } }
impl<T> Clone for Receiver<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.chan() == self.chan() { unimplemented!() } }
#[verifier::external_body] pub fn v_channel(Tracked(w): Tracked<&mut World>) -> (r: MessageChannel) ensures r.0.chan() == r.1.chan(), !old(w).made.contains(r.0.chan()), !old(w).closed.contains(r.0.chan()), *final(w) == (World { made: old(w).made.insert(r.0.chan()), ..*old(w) }) { unimplemented!() }
/// the channel for messages of this kind
pub enum Kind { Responses, Requests, Replies, Inbox }
pub uninterp spec fn kind(chan: int) -> Kind;
/// m may be sent on a channel of kind k now
pub open spec fn due(w: World, k: Kind, m: Message) -> bool {
    match k {
        Kind::Responses => w.owed == Some(m) && m is Response,
        Kind::Requests => w.owed == Some(m) && !(m is Response),
        Kind::Replies => w.reply == Some(m),
        Kind::Inbox => false,
    }
}
impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> int; }
impl Sender<Message> {
    #[verifier::external_body] pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures b == final(w).closed.contains(self.chan()), final(w).later(*old(w)), final(w).canceled == old(w).canceled { unimplemented!() }
    #[verifier::external_body] pub fn send(&self, x: Message) -> (r: SendFut<Message>) ensures r.msg() == x, r.chan() == self.chan() { unimplemented!() }
    #[verifier::external_body] pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == (World { closed: old(w).closed.insert(self.chan()), ..*old(w) }) { unimplemented!() }
}
impl SendFut<Message> {
    pub uninterp spec fn msg(&self) -> Message;
    pub uninterp spec fn chan(&self) -> int;
    /// a message is sent to whom it is for, once
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendError<Message>>)
        requires due(*old(w), kind(self.chan()), self.msg()),
        ensures final(w).later(if kind(self.chan()) is Replies { World { reply: None, ..*old(w) } } else { World { owed: None, ended: old(w).ended || r is Err, ..*old(w) } }), r is Err ==> final(w).closed.contains(self.chan()) { unimplemented!() }
}
impl<T> Receiver<T> { pub uninterp spec fn chan(&self) -> int; }
impl Receiver<Message> {
    #[verifier::external_body] pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (b: bool) ensures b == final(w).closed.contains(self.chan()), final(w).later(*old(w)), final(w).canceled == old(w).canceled { unimplemented!() }
    #[verifier::external_body] pub fn recv(&self) -> (r: RecvFut<Message>) ensures r.chan() == self.chan() { unimplemented!() }
    #[verifier::external_body] pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == (World { closed: old(w).closed.insert(self.chan()), ..*old(w) }) { unimplemented!() }
}
impl RecvFut<Message> {
    pub uninterp spec fn chan(&self) -> int;
    /// whom waits for a message has done with all before it, has not been cancelled, is active, and has not found a channel closed
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Message, RecvError>)
        requires old(w).owed is None, old(w).reply is None, !old(w).canceled, !old(w).ended,
            kind(self.chan()) is Requests ==> (old(w).machine matches Some(m) && m.active()),
        ensures match r { Ok(m) => final(w).later(World { owed: Some(m), ..*old(w) }) && (kind(self.chan()) is Requests ==> !(m is Response)), Err(_) => final(w).later(World { ended: true, ..*old(w) }) && final(w).closed.contains(self.chan()) } { unimplemented!() }
}
// ---- the protocol machine (C16) ----
#[verifier::external_body] pub struct LspProtocolMachine {}
impl LspProtocolMachine {
    pub uninterp spec fn active(&self) -> bool;
    pub uninterp spec fn fs(&self) -> Arc<AnyEnumerableFileSystem>;
    pub uninterp spec fn manager(&self) -> RequestManager;
    pub uninterp spec fn trace(&self) -> Option<TraceValueAccessor>;
    #[verifier::external_body] pub fn new(t: Option<TraceValueAccessor>, m: RequestManager, f: Arc<AnyEnumerableFileSystem>) -> (r: Self) ensures r.active(), r.fs() == f, r.manager() == m, r.trace() == t { unimplemented!() }
    #[verifier::external_body] pub fn is_active(&self) -> (b: bool) ensures b == self.active() { unimplemented!() }
    #[verifier::external_body] pub fn process_message(&mut self, m: Arc<Message>, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<Message>, LspProtocolError>)
        requires old(w).owed == Some(*m), old(w).reply is None, old(self).active(),
        ensures final(self).fs() == old(self).fs(), final(self).manager() == old(self).manager(), final(self).trace() == old(self).trace(),
            r matches Ok(Some(x)) ==> x is Response,
            *m matches Message::Request(q) ==> (r matches Ok(Some(Message::Response(x))) && x.id == q.id),
            final(w).later(World { owed: None, reply: if r is Ok { r->Ok_0 } else { None }, ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RwLock<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct StateRead {}
#[verifier::external_body] pub struct StateWrite {}
impl RwLock<Option<LspProtocolMachine>> {
    #[verifier::external_body] pub fn new(m: Option<LspProtocolMachine>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn read(&self) -> StateRead { unimplemented!() }
    #[verifier::external_body] pub fn write(&self) -> StateWrite { unimplemented!() }
}
impl StateRead { #[verifier::external_body] pub fn v_await<'a>(self, Tracked(w): Tracked<&mut World>) -> (r: &'a Option<LspProtocolMachine>) ensures *r == old(w).machine, final(w).later(World { ended: old(w).ended || !(old(w).machine matches Some(m) && m.active()), ..*old(w) }), final(w).canceled == old(w).canceled, final(w).closed == old(w).closed { unimplemented!() } }
impl StateWrite { #[verifier::external_body] pub fn v_await<'a>(self, Tracked(w): Tracked<&mut World>) -> (r: &'a mut Option<LspProtocolMachine>) ensures *r == old(w).machine, final(w).later(World { machine: *final(r), ..*old(w) }), final(w).closed == old(w).closed { unimplemented!() } }
pub fn v_drop<T>(t: T) ensures has_resolved(t) {}
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VReplace<T> { fn v_replace(&mut self, t: T) -> (r: Option<T>) ensures final(self).vr() == Some(t), r == old(self).vr(); spec fn vr(&self) -> Option<T>; }
impl<T> VReplace<T> for Option<T> { open spec fn vr(&self) -> Option<T> { *self } #[verifier::external_body] fn v_replace(&mut self, t: T) -> (r: Option<T>) { unimplemented!() } }
// ---- file systems ----
#[verifier::external_body] pub struct AnyEnumerableFileSystem {}
impl AnyEnumerableFileSystem { /// the manager over which it asks the client
    pub uninterp spec fn asks(&self) -> Option<RequestManager>; }
#[verifier::external_body] pub struct LspEnumerableFileSystem {}
impl LspEnumerableFileSystem { pub uninterp spec fn manager(&self) -> RequestManager; #[verifier::external_body] pub fn new(m: RequestManager) -> (r: Self) ensures r.manager() == m { unimplemented!() } }
#[verifier::external_body] pub fn v_box(f: LspEnumerableFileSystem) -> (r: AnyEnumerableFileSystem) ensures r.asks() == Some(f.manager()) { unimplemented!() }
// ---- the request manager (C15), the pool (C12) ----
#[verifier::external_body] pub struct RequestManager {}
impl Clone for RequestManager { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct ManagerFut {}
impl ManagerFut { pub uninterp spec fn manager(&self) -> RequestManager; }
impl RequestManager {
    pub uninterp spec fn out(&self) -> int;
    pub uninterp spec fn back(&self) -> int;
    #[verifier::external_body] pub fn new(c: MessageChannel) -> (r: Self) ensures r.out() == c.0.chan(), r.back() == c.1.chan() { unimplemented!() }
    #[verifier::external_body] pub fn start(&self, t: Arc<CancellationToken>) -> (r: ManagerFut) ensures r.manager() == *self { unimplemented!() }
}
pub struct AsyncPool;
#[verifier::external_body] pub struct PoolFut {}
impl AsyncPool {
    #[verifier::external_body] pub fn stop(Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { stopped: true, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] pub fn start(t: Arc<CancellationToken>) -> PoolFut { unimplemented!() }
}
//@item h struct AnalyzerHost [open]
#[verifier::external_body] pub struct ReceiveFut {}
impl ReceiveFut { pub uninterp spec fn host(&self) -> AnalyzerHost; pub uninterp spec fn requests(&self) -> int; pub uninterp spec fn responses(&self) -> int; }
#[verifier::external_body] pub struct RunFut {}
impl RunFut { pub uninterp spec fn host(&self) -> AnalyzerHost; pub uninterp spec fn requests(&self) -> int; }
#[verifier::external_body] pub struct JoinFut {}
pub type Done = Result<(), OperationCanceled>;
impl JoinFut {
    pub uninterp spec fn parts(&self) -> (ReceiveFut, RunFut, RequestManager);
    /// the four parts run together: they have to be connected as they should
    #[verifier::external_body] pub fn v_await(self, Tracked(w): Tracked<&mut World>) -> (r: (Done, Done, Done, Done))
        requires ({
            let (a, b, c) = self.parts();
            &&& a.host() == b.host() && a.requests() == b.requests() && a.responses() == c.back() && a.requests() != a.responses()
            &&& c.out() == a.host().sender.chan()
            &&& old(w).made.contains(a.requests()) && old(w).made.contains(a.responses()) && !old(w).closed.contains(a.requests()) && !old(w).closed.contains(a.responses())
            &&& set_up(a.host(), c, old(w).machine)
        }),
        ensures final(w).later(World { stopped: true, fine: r.0 is Ok && r.1 is Ok && r.2 is Ok && r.3 is Ok, machine: final(w).machine, ..*old(w) }), final(w).fine || final(w).canceled,
            // all four end when they are done
            final(w).closed.contains(self.parts().0.host().sender.chan()), final(w).closed.contains(self.parts().0.host().receiver.chan()) { unimplemented!() }
}
/// a new machine, with the file system supplied or else that of the client, over the one manager of requests
pub open spec fn set_up(h: AnalyzerHost, c: RequestManager, m: Option<LspProtocolMachine>) -> bool {
    m matches Some(m) && m.active() && m.manager() == c && m.trace() == h.trace_value && (match h.file_system { Some(f) => m.fs() == f, None => m.fs().asks() == Some(c) })
}
#[verifier::external_body] pub fn join_all(a: ReceiveFut, b: RunFut, c: ManagerFut, d: PoolFut) -> (r: JoinFut) ensures r.parts() == (a, b, c.manager()) { unimplemented!() }
impl AnalyzerHost {
    #[verifier::external_body] pub fn v_receive_messages(&self, q: Sender<Message>, a: Sender<Message>, t: Arc<CancellationToken>) -> (r: ReceiveFut) ensures r.host() == *self, r.requests() == q.chan(), r.responses() == a.chan() { unimplemented!() }
    #[verifier::external_body] pub fn v_run_protocol_machine(&self, m: RequestManager, f: Arc<AnyEnumerableFileSystem>, q: Receiver<Message>, t: Arc<CancellationToken>) -> (r: RunFut) ensures r.host() == *self, r.requests() == q.chan() { unimplemented!() }
//@fn h AnalyzerHost::new
//@ret r
//@ensures
    r.sender == message_channel.0, r.receiver == message_channel.1, r.trace_value == trace_value, r.file_system == file_system,
//@endfn
//@fn h AnalyzerHost::start
//@ret r
//@opt desugar
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    kind(self.sender.chan()) is Replies, kind(self.receiver.chan()) is Inbox,
//@ensures
    r is Ok <==> final(w).fine, r is Err ==> final(w).canceled, final(w).closed.contains(self.sender.chan()), final(w).closed.contains(self.receiver.chan()), final(w).stopped,
//@endfn
//@fn h AnalyzerHost::receive_messages
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).owed is None, old(w).reply is None, !old(w).ended, !old(w).closed.contains(self.receiver.chan()), kind(requests_sender.chan()) is Requests, kind(responses_sender.chan()) is Responses, kind(self.receiver.chan()) is Inbox,
//@ensures
    final(w).owed is None, final(w).closed.contains(requests_sender.chan()), final(w).closed.contains(responses_sender.chan()),
    // it ends for a reason
    final(w).ended,
    r is Err <==> final(w).canceled,
//@loop 0
    invariant_except_break !w.ended,
    invariant w.owed is None, w.reply is None, kind(requests_sender.chan()) is Requests, kind(responses_sender.chan()) is Responses, kind(self.receiver.chan()) is Inbox,
    ensures w.ended,
//@endfn
//@fn h AnalyzerHost::run_protocol_machine
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghostparam Tracked(w): Tracked<&mut World>
//@requires
    old(w).owed is None, old(w).reply is None, !old(w).ended, old(w).machine is Some, !old(w).closed.contains(requests_receiver.chan()), kind(requests_receiver.chan()) is Requests, kind(self.sender.chan()) is Replies,
//@ensures
    final(w).owed is None || final(w).canceled, final(w).reply is None, final(w).closed.contains(self.sender.chan()), final(w).closed.contains(self.receiver.chan()), final(w).closed.contains(requests_receiver.chan()), final(w).stopped,
    final(w).ended,
    r is Err <==> final(w).canceled,
//@loop 0
    invariant_except_break !w.ended, w.owed is None,
    invariant w.owed is None || w.canceled, w.reply is None, w.machine is Some, kind(requests_receiver.chan()) is Requests, kind(self.sender.chan()) is Replies,
    ensures w.ended,
//@endfn
}
} // verus!
fn main() {}
