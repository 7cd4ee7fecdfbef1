use vstd::prelude::*;
//@include prelude_rpc.vrs
//@include thm_rpc.vrs
//@file r crates/analyzer-host/src/json_rpc.rs
//@file m crates/analyzer-host/src/json_rpc/message.rs
//@method r format! -
//@method r [..] v_slice
//@method r ends_with v_ends_with
//@method r starts_with v_starts_with
//@method r strip_suffix v_strip_suffix
//@method r strip_prefix v_strip_prefix
//@method r splitn v_splitn
//@method r split_once v_split_once
//@method r find v_find
//@method r parse v_parse
//@method r len v_len
//@method r is_empty v_is_empty
//@method r into_bytes v_into_bytes
//@method r as_bytes v_as_bytes
//@method r resize v_resize
//@method r clear v_clear
//@method r to_string v_to_string
//@path r invalid_data! vx_invalid_data()
//@path r invalid_data vx_invalid
//@path r io::Result IoResult
//@path r io::Error IoError
//@path r io::ErrorKind::UnexpectedEof IoErrorKind::UnexpectedEof
//@path r io::ErrorKind::InvalidData IoErrorKind::InvalidData
//@path r String::from_utf8 v_from_utf8
//@path r serde_json::from_str json_from_str
//@path r serde_json::to_string json_to_string
//@path r serde_json::to_value json_to_value
//@path r serde_json::Value Value
//@path r String::from v_string_from
//@path m serde_json::Value Value

verus! {
global size_of usize == 8;

// ---- model of std::io, of strings by bytes, and of serde_json ----
#[verifier::external_body] pub struct IoError {}
pub enum IoErrorKind { UnexpectedEof, InvalidData }
impl IoErrorKind { #[verifier::external_body] pub fn into(self) -> IoError { unimplemented!() } }
pub type IoResult<T> = Result<T, IoError>;
#[verifier::external_body] pub fn vx_invalid_data() -> IoError { unimplemented!() }
#[verifier::external_body] pub fn vx_invalid<E>(e: E) -> IoError { unimplemented!() }

/// a stream: the bytes still to come, and whether it may fail
pub trait BufRead {
    spec fn rem(&self) -> Seq<u8>;
    spec fn faulty(&self) -> bool;
    /// std: appends the bytes up to and including the next line feed; an error if they are not UTF-8
    fn read_line(&mut self, buf: &mut String) -> (r: IoResult<usize>)
        ensures final(self).faulty() == old(self).faulty(),
            ({ let l = old(self).rem().take(line_len(old(self).rem()) as int);
               match r {
                 Ok(n) => valid(l) && n == l.len() && final(buf)@ == old(buf)@ + dec(l) && final(self).rem() == old(self).rem().skip(l.len() as int),
                 Err(_) => old(self).faulty() || !valid(l),
               } });
    /// std: fills the buffer, or fails when there is not as much
    fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: IoResult<()>)
        ensures final(self).faulty() == old(self).faulty(), final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(_) => old(self).rem().len() >= old(buf)@.len() && final(buf)@ == old(self).rem().take(old(buf)@.len() as int) && final(self).rem() == old(self).rem().skip(old(buf)@.len() as int),
                Err(_) => old(self).faulty() || old(self).rem().len() < old(buf)@.len(),
            };
    /// std: Read::take(n).read_to_end(buf) appends n bytes, or all if there are fewer
    fn v_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: IoResult<usize>)
        ensures final(self).faulty() == old(self).faulty(),
            ({ let k = if n as nat <= old(self).rem().len() { n as int } else { old(self).rem().len() as int };
               match r {
                Ok(m) => m as int == k && final(buf)@ == old(buf)@ + old(self).rem().take(k) && final(self).rem() == old(self).rem().skip(k),
                Err(_) => old(self).faulty(),
               } });
}
/// a sink: the bytes it has taken, how many of them have been flushed, and whether it may fail
pub trait Write {
    spec fn sent(&self) -> Seq<u8>;
    spec fn flushed(&self) -> nat;
    spec fn faulty(&self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: IoResult<()>)
        ensures final(self).faulty() == old(self).faulty(), final(self).flushed() <= final(self).sent().len() || final(self).flushed() == old(self).flushed(),
            r is Ok ==> final(self).sent() == old(self).sent() + b@,
            r is Err ==> old(self).faulty();
    /// may take fewer bytes than it is given
    fn write(&mut self, b: &[u8]) -> (r: IoResult<usize>)
        ensures final(self).faulty() == old(self).faulty(),
            r matches Ok(n) ==> n <= b@.len() && final(self).sent() == old(self).sent() + b@.take(n as int),
            r is Err ==> old(self).faulty();
    fn vx_write_fmt(&mut self, f: VxFmt) -> (r: IoResult<()>)
        ensures final(self).faulty() == old(self).faulty(),
            r is Ok ==> final(self).sent() == old(self).sent() + enc(f@),
            r is Err ==> old(self).faulty();
    fn flush(&mut self) -> (r: IoResult<()>)
        ensures final(self).faulty() == old(self).faulty(), final(self).sent() == old(self).sent(),
            r is Ok ==> final(self).flushed() == final(self).sent().len(),
            r is Err ==> old(self).faulty();
}
#[verifier::external_body] pub struct VxFmt {}
impl VxFmt {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: VxFmt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: VxFmt) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn disp<T: VxDisplay>(self, x: &T) -> (r: VxFmt) ensures r@ == self@ + x.disp_spec() { unimplemented!() }
    #[verifier::external_body] pub fn dbg<T>(self, x: &T) -> (r: VxFmt) { unimplemented!() }
    #[verifier::external_body] pub fn string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VxDisplay { spec fn disp_spec(&self) -> Seq<char>; }
impl VxDisplay for usize { open spec fn disp_spec(&self) -> Seq<char> { dec_str(*self as nat) } }
impl VxDisplay for u64 { open spec fn disp_spec(&self) -> Seq<char> { dec_str(*self as nat) } }
impl VxDisplay for u32 { open spec fn disp_spec(&self) -> Seq<char> { dec_str(*self as nat) } }
impl<'a> VxDisplay for &'a str { open spec fn disp_spec(&self) -> Seq<char> { self@ } }
impl VxDisplay for String { open spec fn disp_spec(&self) -> Seq<char> { self@ } }
impl VxDisplay for char { open spec fn disp_spec(&self) -> Seq<char> { seq![*self] } }

#[verifier::external_body] pub struct ParseErr {}
pub trait VParse: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VParse for usize { open spec fn parsed(s: Seq<char>) -> Option<usize> { match parse_usize(s) { Some(n) => Some(n as usize), None => None } } }
/// usize is 64 bits wide
impl VParse for u64 { open spec fn parsed(s: Seq<char>) -> Option<u64> { match parse_usize(s) { Some(n) => Some(n as u64), None => None } } }
impl VParse for u32 { open spec fn parsed(s: Seq<char>) -> Option<u32> { match parse_usize(s) { Some(n) => if n <= u32::MAX { Some(n as u32) } else { None }, None => None } } }
pub struct SplitN<'a> { pub rest: Option<&'a str>, pub left: usize, pub pat: &'a str }
impl<'a> SplitN<'a> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).pat == old(self).pat,
            match old(self).rest {
                None => r is None && final(self).rest is None,
                Some(s) => {
                    if old(self).left == 0 { r is None && final(self).rest is None && final(self).left == 0 }
                    else if old(self).left == 1 { r == Some(s) && final(self).rest is None && final(self).left == 0 }
                    else { match find_str(s@, old(self).pat@) {
                        None => r == Some(s) && final(self).rest is None && final(self).left == 0,
                        Some(i) => r is Some && r->0@ == s@.take(i) && final(self).rest is Some && final(self).rest->0@ == s@.skip(i + old(self).pat@.len()) && final(self).left == old(self).left - 1,
                    } }
                }
            }
    { unimplemented!() }
}
/// methods of str and String, and of Vec<u8> where the names are the same
pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn v_ends_with(&self, p: &str) -> (r: bool) ensures r == ends(self.sv(), p@);
    fn v_starts_with(&self, p: &str) -> (r: bool) ensures r == starts_at(self.sv(), p@, 0);
    fn v_strip_suffix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => ends(self.sv(), p@) && x@ == self.sv().take(self.sv().len() - p@.len()), None => !ends(self.sv(), p@) };
    fn v_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => starts_at(self.sv(), p@, 0) && x@ == self.sv().skip(p@.len() as int), None => !starts_at(self.sv(), p@, 0) };
    fn v_splitn<'a>(&'a self, n: usize, p: &'a str) -> (r: SplitN<'a>) ensures r.left == n, r.pat == p, r.rest is Some, r.rest->0@ == self.sv();
    fn v_split_once<'a>(&'a self, p: &str) -> (r: Option<(&'a str, &'a str)>) ensures match find_str(self.sv(), p@) { None => r is None, Some(i) => r is Some && r.unwrap().0@ == self.sv().take(i) && r.unwrap().1@ == self.sv().skip(i + p@.len()) };
    fn v_find(&self, p: &str) -> (r: Option<usize>) ensures match find_str(self.sv(), p@) { None => r is None, Some(i) => r is Some && r->0 == enc(self.sv().take(i)).len() };
    fn v_parse<T: VParse>(&self) -> (r: Result<T, ParseErr>) ensures match r { Ok(x) => T::parsed(self.sv()) == Some(x), Err(_) => T::parsed(self.sv()) is None };
    /// byte ranges of a str: the ends have to be char boundaries
    fn v_slice_to<'a>(&'a self, n: usize) -> (r: &'a str)
        requires n <= enc(self.sv()).len(), valid(enc(self.sv()).take(n as int)),
        ensures enc(r@) == enc(self.sv()).take(n as int);
    fn v_slice_from<'a>(&'a self, n: usize) -> (r: &'a str)
        requires n <= enc(self.sv()).len(), valid(enc(self.sv()).take(n as int)),
        ensures enc(r@) == enc(self.sv()).skip(n as int);
    fn v_len(&self) -> (r: usize) ensures r == enc(self.sv()).len();
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn v_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == enc(self.sv());
    fn v_to_string(&self) -> (r: String) ensures r@ == self.sv();
}
impl VStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_ends_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_splitn<'a>(&'a self, n: usize, p: &'a str) -> (r: SplitN<'a>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<'a>(&'a self, p: &str) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn v_find(&self, p: &str) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_parse<T: VParse>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to<'a>(&'a self, n: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, n: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_ends_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_splitn<'a>(&'a self, n: usize, p: &'a str) -> (r: SplitN<'a>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<'a>(&'a self, p: &str) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn v_find(&self, p: &str) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_parse<T: VParse>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to<'a>(&'a self, n: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, n: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VString: Sized { spec fn cv(&self) -> Seq<char>; fn v_into_bytes(self) -> (r: Vec<u8>) ensures r@ == enc(self.cv()); }
impl VString for String { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_into_bytes(self) -> (r: Vec<u8>) { unimplemented!() } }
pub trait VClear { spec fn cleared(&self) -> bool; fn v_clear(&mut self) ensures final(self).cleared(); }
impl VClear for String { open spec fn cleared(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn v_clear(&mut self) { unimplemented!() } }
impl VClear for Vec<u8> { open spec fn cleared(&self) -> bool { self@ == Seq::<u8>::empty() } #[verifier::external_body] fn v_clear(&mut self) { unimplemented!() } }
pub trait VVec {
    spec fn bv(&self) -> Seq<u8>;
    /// more than a gigabyte at a time may be refused, which ends the process
    fn v_resize(&mut self, n: usize, x: u8) requires n <= 0x4000_0000
        ensures final(self).bv() == (if n <= old(self).bv().len() { old(self).bv().take(n as int) } else { old(self).bv() + Seq::new((n - old(self).bv().len()) as nat, |i: int| x) });
}
impl VVec for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_resize(&mut self, n: usize, x: u8) { unimplemented!() } }
#[verifier::external_body] pub struct Utf8Err {}
#[verifier::external_body] pub fn v_from_utf8(v: Vec<u8>) -> (r: Result<String, Utf8Err>)
    ensures match r { Ok(s) => valid(v@) && s@ == dec(v@), Err(_) => !valid(v@) } { unimplemented!() }

#[verifier::external_body] pub struct Value {}
#[verifier::external_body] pub struct JsonError {}
pub trait Serialize { spec fn fails(&self) -> bool; spec fn json(&self) -> Value; }
#[verifier::external_body] pub fn json_to_value<T: Serialize>(x: T) -> (r: Result<Value, JsonError>) ensures match r { Ok(v) => v == x.json(), Err(_) => x.fails() } { unimplemented!() }
impl core::fmt::Debug for JsonError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }

// ---- extracted items ----
//@item r enum IdRepr [open]
//@item r struct RequestId [open]
//@item m struct Request [open]
//@item m struct ResponseError [open]
//@item m struct Response [open]
//@item m struct Notification [open]
//@item m enum Message [open]
pub struct JsonRpc { pub jsonrpc: &'static str, pub msg: Message }

/// serde_json: text of a message and message of a text
pub uninterp spec fn json_text(v: Seq<char>, m: Message) -> Seq<char>;
pub uninterp spec fn json_fails(v: Seq<char>, m: Message) -> bool;
pub uninterp spec fn json_msg(t: Seq<char>) -> Option<Message>;
#[verifier::external_body] pub fn json_to_string(x: &JsonRpc) -> (r: IoResult<String>) ensures match r { Ok(s) => !json_fails(x.jsonrpc@, x.msg) && s@ == json_text(x.jsonrpc@, x.msg), Err(_) => json_fails(x.jsonrpc@, x.msg) } { unimplemented!() }
#[verifier::external_body] pub fn json_from_str(t: &String) -> (r: IoResult<Message>) ensures match r { Ok(m) => json_msg(t@) == Some(m), Err(_) => json_msg(t@) is None } { unimplemented!() }
#[verifier::external_body] pub fn v_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn V2() -> Seq<char> { seq!['2', '.', '0'] }

/// what reading a message gives
pub open spec fn read_ok(b: Seq<u8>, faulty: bool, r: IoResult<Option<String>>, after: Seq<u8>) -> bool {
    match r {
        Ok(None) => rd_msg(b) is Eof,
        Ok(Some(t)) => rd_msg(b) == Rd::Text(t@, after),
        Err(_) => faulty || rd_msg(b) is Bad,
    }
}
pub open spec fn read_msg_ok(b: Seq<u8>, faulty: bool, r: IoResult<Option<Message>>, after: Seq<u8>) -> bool {
    match r {
        Ok(None) => rd_msg(b) is Eof,
        Ok(Some(m)) => rd_msg(b) is Text && after == rd_msg(b)->Text_1 && json_msg(rd_msg(b)->Text_0) == Some(m),
        Err(_) => faulty || rd_msg(b) is Bad || (rd_msg(b) is Text && json_msg(rd_msg(b)->Text_0) is None),
    }
}
proof fn lem_v2() ensures "2.0"@ == V2() { reveal_strlit("2.0"); assert("2.0"@ =~= V2()); }
/// what writing a message leaves: the frame of its text, all of it flushed
pub open spec fn wrote_msg(m: Message, before: Seq<u8>, faulty: bool, r: IoResult<()>, after: Seq<u8>, flushed: nat) -> bool {
    match r {
        Ok(_) => !json_fails(V2(), m) && after == before + frame(json_text(V2(), m)) && flushed == after.len(),
        Err(_) => faulty || json_fails(V2(), m),
    }
}
} // verus!
verus! {
//@fn r read_msg_text
//@ret r
//@opt desugar
//@hoist invalid_data
//@hoist macro:invalid_data
//@subst? /\.take\(([^()]*)\)\s*\.read_to_end\(/ => .v_take_read_to_end($1, 
//@subst? /&mut dyn (BufRead|Write)\b/ => &mut impl $1
//@requires
    true,
//@ensures
    read_ok(old(inp).rem(), old(inp).faulty(), r, final(inp).rem()),
//@start
    broadcast use group_rpc;
    proof { lem_strlits(); lem_empty_text(); }
//@loop 0
    invariant_except_break
        rd_msg(old(inp).rem()) == rd_hdr(inp.rem(), match size { Some(n) => Some(n as nat), None => None }),
    invariant
        inp.faulty() == old(inp).faulty(),
    ensures
        size is None ==> rd_msg(old(inp).rem()) is Bad,
        size matches Some(n) ==> rd_msg(old(inp).rem()) == rd_body(inp.rem(), n as nat),
    decreases inp.rem().len(),
//@loopstart 0
    broadcast use group_rpc;
    proof { lem_strlits(); }
//@endfn

//@fn r write_msg_text
//@ret r
//@subst? /&mut dyn (BufRead|Write)\b/ => &mut impl $1
//@requires
    true,
//@ensures
    r is Ok ==> final(out).sent() == old(out).sent() + frame(msg@) && final(out).flushed() == final(out).sent().len(),
    r is Err ==> old(out).faulty(),
//@start
    broadcast use group_rpc;
    proof { lem_strlits(); lem_frame_text(msg@); }
//@endfn

impl Message {
//@fn r Message::read
//@ret res
//@subst? /&mut dyn (BufRead|Write)\b/ => &mut impl $1
//@requires
    true,
//@ensures
    read_msg_ok(old(r).rem(), old(r).faulty(), res, final(r).rem()),
//@endfn

//@fn r Message::buffered_read
//@ret res
//@subst? /&mut dyn (BufRead|Write)\b/ => &mut impl $1
//@requires
    true,
//@ensures
    read_msg_ok(old(r).rem(), old(r).faulty(), res, final(r).rem()),
//@endfn

//@fn r Message::write
//@ret res
//@subst? /&mut dyn (BufRead|Write)\b/ => &mut impl $1
//@requires
    true,
//@ensures
    wrote_msg(self, old(w).sent(), old(w).faulty(), res, final(w).sent(), final(w).flushed()),
//@endfn

//@fn r Message::buffered_write
//@ret res
//@hoist struct:JsonRpc
//@subst? /&mut dyn (BufRead|Write)\b/ => &mut impl $1
//@requires
    true,
//@ensures
    wrote_msg(self, old(w).sent(), old(w).faulty(), res, final(w).sent(), final(w).flushed()),
//@start
    proof { lem_v2(); }
//@endfn
}

impl Request {
//@fn r Request::new
//@ret res
//@requires
    !params.fails(),
//@ensures
    res.id == id, res.method == method, res.params == params.json(),
//@endfn
}
impl Response {
//@fn r Response::new
//@ret res
//@requires
    !data.fails(),
//@ensures
    res.id == id, res.result == Some(data.json()), res.error is None,
//@endfn
//@fn r Response::new_error
//@ret res
//@requires
    true,
//@ensures
    res.id == id, res.result is None, res.error matches Some(e) && e.code == code && e.message@ == message@ && e.data is None,
//@endfn
}
impl Notification {
//@fn r Notification::new
//@ret res
//@requires
    !data.fails(),
//@ensures
    res.method@ == method@, res.params == data.json(),
//@endfn
}
impl vstd::std_specs::convert::FromSpecImpl<i32> for RequestId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(id: i32) -> RequestId { RequestId(IdRepr::I32(id)) }
}
impl From<i32> for RequestId {
//@fn r <RequestId as From<i32>>::from
//@ret r
//@opt novac
//@ensures
    r.0 == IdRepr::I32(id),
//@endfn
}
impl vstd::std_specs::convert::FromSpecImpl<String> for RequestId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(id: String) -> RequestId { RequestId(IdRepr::String(id)) }
}
impl From<String> for RequestId {
//@fn r <RequestId as From<String>>::from
//@ret r
//@opt novac
//@ensures
    r.0 == IdRepr::String(id),
//@endfn
}
}
fn main() {}
