//@ include prelude.rs
//@ include http.rs
//@ include hdrspec.rs
//@ include hdrfns.rs
//@ include httpcore.rs
verus! {
use header::*;
use core::marker::PhantomData;
// ---- stand-ins for types whose own contracts are discharged elsewhere -----------
#[verifier::external_body] pub struct Extensions { p: u8 }
#[verifier::external_body] pub struct ParserConfig { p: u8 }
impl ParserConfig { #[verifier::external_body] pub fn clone(&self) -> ParserConfig { unimplemented!() } #[verifier::external_body] pub fn default() -> ParserConfig { unimplemented!() } }
#[verifier::external_body] pub struct OnInformational { p: u8 }
impl Extensions { #[verifier::external_body] pub fn vx_remove(&mut self) -> Option<OnInformational> { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Instant { p: u8 }
impl Duration { pub uninterp spec fn len(&self) -> nat; }
impl Instant {
    pub uninterp spec fn at(&self) -> int;
    /// the timer's clock showed it
    pub uninterp spec fn shown(&self) -> bool;
    #[verifier::external_body] pub fn vx_plus(self, d: Duration) -> (r: Instant) ensures r.at() == self.at() + d.len() { unimplemented!() }
}
/// a Sleep of the timer: completes at its deadline
#[verifier::external_body] pub struct VxSleep { p: u8 }
impl VxSleep {
    pub uninterp spec fn at(&self) -> int;
    /// it has completed
    pub uninterp spec fn done(&self) -> bool;
    /// polled since it was set: its completion wakes the connection
    pub uninterp spec fn heard(&self) -> bool;
    #[verifier::external_body] pub fn vx_poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<()>)
        ensures final(self).at() == old(self).at(), final(self).done() == (r is Ready), r is Pending ==> final(self).heard() { unimplemented!() }
}
pub enum Time { Empty, Timer(u8) }
impl Time {
    #[verifier::external_body] pub fn now(&self) -> (r: Instant) ensures r.shown() { unimplemented!() }
    #[verifier::external_body] pub fn reset(&self, s: &mut VxSleep, i: Instant) ensures final(s).at() == i.at(), !final(s).done() { unimplemented!() }
    #[verifier::external_body] pub fn sleep_until(&self, i: Instant) -> (r: VxSleep) ensures r.at() == i.at(), !r.done() { unimplemented!() }
}
#[verifier::external_body] pub struct Error { p: u8 }
impl Error {
    pub uninterp spec fn of_parse(&self) -> bool;
    #[verifier::external_body] pub fn is_parse(&self) -> (r: bool) ensures r == self.of_parse() { unimplemented!() }
    /// the head did not arrive in time
    pub uninterp spec fn late(&self) -> bool;
    #[verifier::external_body] pub fn new_header_timeout() -> (r: Error) ensures r.late() { unimplemented!() }
    #[verifier::external_body] pub fn new_unexpected_message() -> Error { unimplemented!() }
    #[verifier::external_body] pub fn new_io(e: io::Error) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn new_incomplete() -> Error { unimplemented!() }
    #[verifier::external_body] pub fn new_version_h2() -> (r: Error) ensures !r.late() { unimplemented!() }
    #[verifier::external_body] pub fn new_body_write_aborted() -> Error { unimplemented!() }
    #[verifier::external_body] pub fn with(self, e: NotEof) -> Error { unimplemented!() }
}
#[verifier::external_body] pub struct NotEof { p: u8 }
impl<'a> Context<'a> {
    /// the application has asked for the body being read
    pub uninterp spec fn asked(&self) -> bool;
}
pub mod upgrade {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Pending { p: u8 }
    #[verifier::external_body] pub struct OnUpgrade { p: u8 }
    impl Pending { #[verifier::external_body] pub fn manual(self) { unimplemented!() } }
    impl OnUpgrade {
        pub uninterp spec fn none(&self) -> bool;
        #[verifier::external_body] pub fn is_none(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
    }
    #[verifier::external_body] pub fn pending() -> (r: (Pending, OnUpgrade)) ensures !r.1.none() { unimplemented!() }
}
pub mod headers { pub use super::{connection_keep_alive, connection_any_close, te_is_trailers}; }
pub mod http { pub use super::{HeaderMap, Extensions, Version, Method}; pub mod header { pub use super::super::header::*; pub use super::super::{HeaderValue, HeaderName, ValueIter}; } }
pub mod ext { pub use super::OnInformational; }
pub trait Read { }
pub trait Write { }
pub trait Buf: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize) ensures r == self.bytes().len();
}
pub enum Frame<T> { Data(T), Trailers(HeaderMap) }
impl<T> Frame<T> {
    pub fn is_data(&self) -> (r: bool) ensures r == (self is Data) { match self { Frame::Data(_) => true, _ => false } }
    pub fn is_trailers(&self) -> (r: bool) ensures r == (self is Trailers) { match self { Frame::Trailers(_) => true, _ => false } }
    pub fn data_ref(&self) -> (r: Option<&T>) ensures match r { Some(t) => *self is Data && *t == self->Data_0, None => !(*self is Data) } { match self { Frame::Data(b) => Some(b), _ => None } }
}
// ---- http1 decoder (unit decode) -----------------------------------------------
#[verifier::external_body] pub struct Decoder { p: u8 }
impl Decoder {
    /// the end of the message body has been read
    pub uninterp spec fn over(&self) -> bool;
    pub uninterp spec fn dlen(&self) -> DecodedLength;
    /// body octets handed on so far
    pub uninterp spec fn given(&self) -> Seq<u8>;
    /// an announced length is kept, and met at the end
    pub open spec fn dok(&self) -> bool { known(self.dlen()) matches Some(n) ==> self.given().len() <= n && (self.over() ==> self.given().len() == n) }
    #[verifier::external_body] pub fn new(len: DecodedLength, h: Option<usize>, s: Option<usize>) -> (r: Decoder) ensures r.over() == (len == DecodedLength::ZERO), r.dlen() == len, r.given() == Seq::<u8>::empty(), r.dok() { unimplemented!() }
    #[verifier::external_body] pub fn is_eof(&self) -> (r: bool) ensures r == self.over() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Decoder) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn decode<I, B>(&mut self, cx: &mut Context<'_>, io: &mut Buffered<I, EncodedBuf<B>>) -> (r: Poll<Result<Frame<Bytes>, io::Error>>)
        ensures
            decoded(*old(self), *final(self)), same_out(*old(io), *final(io)),
            r matches Poll::Ready(Ok(Frame::Trailers(_))) ==> final(self).over(),
            r matches Poll::Ready(Ok(Frame::Data(b))) ==> b@.len() == 0 ==> final(self).over(),
            final(self).dlen() == old(self).dlen(), old(self).dok() ==> final(self).dok(),
            match r { Poll::Ready(Ok(Frame::Data(b))) => final(self).given() == old(self).given() + b@, _ => final(self).given() == old(self).given() },
    { unimplemented!() }
}
/// the second is the first after one call of `decode`
pub uninterp spec fn decoded(a: Decoder, b: Decoder) -> bool;
// ---- http1 encoder (unit encode) -----------------------------------------------
#[verifier::external_body] pub struct Encoder { p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct EncodedBuf<B> { b: B }
#[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct WriteBuf<B> { b: B }
/// the second is the first after one call of a method that takes body octets
pub uninterp spec fn took(a: Encoder, b: Encoder) -> bool;
impl Encoder {
    /// the announced length has been taken
    pub uninterp spec fn over(&self) -> bool;
    /// body octets taken so far
    pub uninterp spec fn taken(&self) -> Seq<u8>;
    /// the head said this is the last message
    pub uninterp spec fn last(&self) -> bool;
    /// only closing the connection ends this body
    pub uninterp spec fn by_close(&self) -> bool;
    /// `end` would find nothing missing
    pub uninterp spec fn endable(&self) -> bool;
    #[verifier::external_body] pub fn is_eof(&self) -> (r: bool) ensures r == self.over() { unimplemented!() }
    #[verifier::external_body] pub fn is_last(&self) -> (r: bool) ensures r == self.last() { unimplemented!() }
    #[verifier::external_body] pub fn is_close_delimited(&self) -> (r: bool) ensures r == self.by_close(), r ==> !self.over() { unimplemented!() }
    #[verifier::external_body]
    pub fn encode<B: Buf>(&mut self, b: B) -> (r: EncodedBuf<B>)
        requires b.bytes().len() > 0
        ensures took(*old(self), *final(self)), final(self).taken() == old(self).taken() + b.bytes(), final(self).last() == old(self).last(), final(self).by_close() == old(self).by_close(), final(self).by_close() ==> !final(self).over() { unimplemented!() }
    #[verifier::external_body]
    pub fn encode_and_end<B: Buf>(&self, b: B, dst: &mut WriteBuf<EncodedBuf<B>>) -> (r: bool)
        requires b.bytes().len() > 0
        ensures r == ended_well(*self, b.bytes()), r ==> !self.last() && !self.by_close() { unimplemented!() }
    #[verifier::external_body]
    pub fn encode_trailers<B>(&self, t: HeaderMap, title: bool) -> (r: Option<EncodedBuf<B>>) ensures r is Some ==> self.endable() && !self.by_close() { unimplemented!() }
    #[verifier::external_body]
    pub fn end<B>(&self) -> (r: Result<Option<EncodedBuf<B>>, NotEof>) ensures r is Ok == self.endable() { unimplemented!() }
}
/// exactly the announced octets were taken, and nothing asks to close
pub uninterp spec fn ended_well(e: Encoder, b: Seq<u8>) -> bool;
// ---- buffered transport (unit io) ----------------------------------------------
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)]
pub struct Buffered<I, B> { i: I, b: B }
/// nothing was queued for writing
pub open spec fn same_out<I, B>(a: Buffered<I, B>, b: Buffered<I, B>) -> bool { b.heads() == a.heads() && b.queued() == a.queued() && b.bodies() == a.bodies() }
impl<I, B> Buffered<I, B> {
    /// octets read and not yet consumed
    pub uninterp spec fn rbuf(&self) -> Seq<u8>;
    /// octets of heads and interim responses ever queued, in order
    pub uninterp spec fn heads(&self) -> Seq<u8>;
    /// body buffers ever queued
    pub uninterp spec fn bodies(&self) -> nat;
    /// body octets wait in the queue (octets appended to the head buffer would overtake them)
    pub uninterp spec fn queued(&self) -> bool;
    #[verifier::external_body] pub fn new(io: I) -> (r: Self) ensures !r.queued(), r.rbuf().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: (I, Bytes)) ensures r.1@ == self.rbuf() { unimplemented!() }
    #[verifier::external_body] pub fn read_buf(&self) -> (r: &[u8]) ensures r@ == self.rbuf() { unimplemented!() }
    #[verifier::external_body] pub fn consume_leading_lines(&mut self) ensures same_out(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn is_read_blocked(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_read_from_io(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<usize, io::Error>>)
        ensures same_out(*old(self), *final(self)), r matches Poll::Ready(Ok(n)) ==> final(self).rbuf().len() == old(self).rbuf().len() + n { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: Http1Transaction>(&mut self, cx: &mut Context<'_>, ctx: ParseContext<'_>) -> (r: Poll<Result<ParsedMessage<T::Incoming>, Error>>)
        ensures same_out(*old(self), *final(self)), r matches Poll::Ready(Ok(m)) ==> parsed(old(self).rbuf(), m) && (m.expect_continue ==> T::server()) && *final(ctx.cached_headers) is None,
            *old(ctx.cached_headers) is None ==> *final(ctx.cached_headers) is None,
            r is Pending ==> part(final(self).rbuf()), r matches Poll::Ready(Err(e)) ==> !e.late() { unimplemented!() }
    #[verifier::external_body] pub fn can_headers_buf(&self) -> (r: bool) ensures r == !self.queued() { unimplemented!() }
    #[verifier::external_body] pub fn can_buffer(&self) -> (r: bool) ensures r == self.room() { unimplemented!() }
    pub uninterp spec fn room(&self) -> bool;
    #[verifier::external_body] pub fn has_buffered_write(&self) -> (r: bool) { unimplemented!() }
    /// only when no body octets wait: what is appended would be written ahead of them
    #[verifier::external_body]
    pub fn headers_buf(&mut self) -> (r: &mut Vec<u8>)
        requires !old(self).queued()
        ensures final(self).heads() == old(self).heads() + final(r)@.skip(r@.len() as int), !final(self).queued(), final(self).bodies() == old(self).bodies(), final(self).rbuf() == old(self).rbuf() { unimplemented!() }
    #[verifier::external_body] pub fn write_buf(&mut self) -> (r: &mut WriteBuf<B>) ensures final(self).heads() == old(self).heads(), final(self).rbuf() == old(self).rbuf() { unimplemented!() }
    #[verifier::external_body]
    pub fn buffer(&mut self, b: B) ensures final(self).heads() == old(self).heads(), final(self).bodies() == old(self).bodies() + 1, final(self).rbuf() == old(self).rbuf() { unimplemented!() }
    #[verifier::external_body]
    pub fn end_pipeline(&mut self) ensures same_out(*old(self), *final(self)), final(self).rbuf() == old(self).rbuf() { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_flush(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), io::Error>>)
        ensures final(self).heads() == old(self).heads(), final(self).bodies() == old(self).bodies(), final(self).rbuf() == old(self).rbuf(), final(self).queued() ==> old(self).queued() { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), io::Error>>)
        ensures final(self).heads() == old(self).heads(), final(self).bodies() == old(self).bodies(), final(self).queued() == old(self).queued() { unimplemented!() }
}
/// what the parser made of the octets received (units sparse, cparse, io)
pub uninterp spec fn parsed<T>(b: Seq<u8>, m: ParsedMessage<T>) -> bool;
/// no complete head yet
pub uninterp spec fn part(b: Seq<u8>) -> bool;
pub uninterp spec fn h2_preface() -> Seq<u8>;
/// `a[..n] == *H2_PREFACE`
#[verifier::external_body]
pub fn vx_is_h2(a: &[u8], n: usize) -> (r: bool) requires n <= a@.len() ensures r == (a@.take(n as int) == h2_preface()) { unimplemented!() }
/// which side: the two implementations are src/proto/h1/role.rs Client and Server
pub trait Http1Transaction: Sized {
    type Incoming;
    type Outgoing;
    spec fn server() -> bool;
    fn is_client() -> (r: bool) ensures r == !Self::server();
    fn is_server() -> (r: bool) ensures r == Self::server();
    fn update_date();
    fn should_error_on_parse_eof() -> (r: bool) ensures r == !Self::server();
    fn should_read_first() -> (r: bool) ensures r == Self::server();
    fn on_error(err: &Error) -> (r: Option<MessageHead<Self::Outgoing>>) ensures r is Some ==> Self::server(), r matches Some(m) ==> unframed(m.headers@);
}
//@ source src/proto/mod.rs
//@ item struct MessageHead
//@ item enum BodyLength
//@ source src/proto/h1/mod.rs
//@ gsubst `crate::Error` => `Error`
//@ item struct ParsedMessage
//@ item struct ParseContext
//@ item struct Encode
//@ item struct Wants derive="PartialEq, Eq, Structural, Clone, Copy"
//@ item implconst Wants::EMPTY,EXPECT,UPGRADE
//@ fn Wants::add
    ensures r.0 == self.0 | other.0
//@ fn Wants::contains
    ensures r == (self.0 & other.0 == other.0)
//@ source src/proto/h1/conn.rs
//@ gsubst `PhantomData<fn(T)>` => `PhantomData<T>`
//@ gsubst `crate::Result<$t>` => `Result<$t, Error>`
//@ gsubst `crate::Error` => `Error`
//@ gsubst `Pin<Box<dyn Sleep>>` => `VxSleep`
//@ gsubst `self.state.timer.now() + h1_header_read_timeout` => `self.state.timer.now().vx_plus(h1_header_read_timeout)`
//@ gsubst `Pin::new(h1_header_read_timeout_fut).poll(cx)` => `h1_header_read_timeout_fut.vx_poll(cx)`
//@ gsubst `Pin::new(&mut self.io)` => `self.io`
//@ gsubst `self.state.keep_alive &= $x;` => `self.state.keep_alive.bitand_assign($x);`
//@ gsubst `read_buf[..24] == *H2_PREFACE` => `vx_is_h2(read_buf, 24)`
//@ gsubst `head.extensions.remove::<crate::ext::OnInformational>()` => `head.extensions.vx_remove()`
//@ gsubst `+ Unpin` => ``
//@ gsubst `(&Reading::$a, &Writing::$b)` => `(Reading::$a, Writing::$b)`
//@ gsubst `super::role::encode_headers` => `encode_headers`
//@ item struct Conn attr="reject_recursive_types(I);reject_recursive_types(B);reject_recursive_types(T)"
//@ item struct State
//@ item enum Reading
//@ item enum Writing
//@ item enum KA derive="PartialEq, Eq, Structural, Clone, Copy"
/// the encoder for a head: what the head says of the end is what the encoder does
/// (units `sencode`, `cencode`)
#[verifier::external_body]
pub fn encode_headers<T: Http1Transaction>(enc: Encode<'_, T::Outgoing>, dst: &mut Vec<u8>) -> (r: Result<Encoder, Error>)
    ensures
        old(dst)@.len() <= final(dst)@.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@,
        r is Ok ==> final(enc.head).headers@ == Seq::<Ent>::empty(),
        r matches Ok(e) ==> (T::server() && (!enc.keep_alive || any_tok(hm_vals(old(enc.head).headers@, CONNECTION), t_close())) ==> e.last()),
        r matches Ok(e) ==> (e.by_close() ==> !e.over()) && e.taken() == Seq::<u8>::empty() && (T::server() && enc.body is None && unframed(old(enc.head).headers@) ==> e.over()),
{ unimplemented!() }
impl State {
    /// no message may follow
    pub open spec fn doomed(&self) -> bool { self.keep_alive is Disabled }
    /// both directions done, ready for the next message
    pub open spec fn fresh(&self) -> bool { self.reading is Init && self.writing is Init && self.keep_alive is Idle }
}
/// the whole message has been read
pub open spec fn read_done(a: Reading) -> bool {
    match a {
        Reading::KeepAlive => true,
        Reading::Body(d) => exists|e: Decoder| #[trigger] decoded(d, e) && e.over(),
        Reading::Continue(d) => exists|e: Decoder| #[trigger] decoded(d, e) && e.over(),
        _ => false,
    }
}
/// What every operation keeps: a connection given up stays so, a closed direction
/// stays closed, a direction is over only if its message is (`rd`, `wd`), and opens
/// again only together with the other, when both are over and nothing asked to close.
pub open spec fn kept(a: State, b: State, rd: bool, wd: bool) -> bool {
    &&& a.doomed() ==> b.doomed()
    &&& a.reading is Closed ==> b.reading is Closed
    &&& a.writing is Closed ==> b.writing is Closed
    &&& b.reading is KeepAlive ==> a.reading is KeepAlive || rd
    &&& b.writing is KeepAlive ==> a.writing is KeepAlive || wd
    &&& b.reading is Init && !(a.reading is Init) || b.writing is Init && !(a.writing is Init) ==> b.fresh() && !a.doomed() && (a.reading is KeepAlive || rd) && (a.writing is KeepAlive || wd)
    &&& a.writing is Body ==> b.writing is Body || b.writing is Closed || wd
}
/// the decoder of the body being read
pub open spec fn cur(a: Reading) -> Option<Decoder> { match a { Reading::Body(d) => Some(d), Reading::Continue(d) => Some(d), _ => None } }
/// the spare header map appears only when a head is written
pub open spec fn spare(a: State, b: State) -> bool { a.cached_headers is None ==> b.cached_headers is None }
/// what no operation but the body readers does: move to another body
pub open spec fn calm(a: State, b: State) -> bool { &&& spare(a, b) &&& (cur(a.reading) is Some || cur(b.reading) is Some ==> b.reading == a.reading) &&& (b.writing is Body ==> b.writing == a.writing) }
/// no framing fields
pub open spec fn unframed(h: Seq<Ent>) -> bool { hm_vals(h, CONTENT_LENGTH).len() == 0 && hm_vals(h, TRANSFER_ENCODING).len() == 0 }
/// what the keep-alive machinery never touches
pub open spec fn frame(a: State, b: State) -> bool { a.cached_headers == b.cached_headers && a.version == b.version && a.method == b.method }
pub open spec fn still(a: State, b: State) -> bool { a.reading == b.reading && a.writing == b.writing && a.keep_alive == b.keep_alive && spare(a, b) }
pub open spec fn shut(b: State) -> bool { b.doomed() && b.reading is Closed && b.writing is Closed }
/// the clock that runs while a head is awaited is not touched
pub open spec fn same_clock(a: State, b: State) -> bool { a.h1_header_read_timeout == b.h1_header_read_timeout && a.h1_header_read_timeout_fut == b.h1_header_read_timeout_fut && a.h1_header_read_timeout_running == b.h1_header_read_timeout_running }
/// the clock is left alone, and a head that comes to be due is awaited at once
pub open spec fn timed(a: State, b: State) -> bool { &&& same_clock(a, b) &&& a.notify_read ==> b.notify_read &&& b.reading is Init && b.h1_header_read_timeout is Some ==> a.reading is Init || b.notify_read }
pub open spec fn awaited(s: State) -> bool { s.reading is Init && s.h1_header_read_timeout is Some ==> s.h1_header_read_timeout_running }
/// it runs only where a timeout is set
pub open spec fn clock_ok(s: State) -> bool { &&& s.h1_header_read_timeout_running ==> s.h1_header_read_timeout_fut is Some && s.h1_header_read_timeout is Some &&& s.h1_header_read_timeout is None ==> s.h1_header_read_timeout_fut is None }
/// the deadline of the head awaited: the one set when it was first awaited, or, if that is now, now and the timeout
pub open spec fn deadline(a: State, s: VxSleep) -> bool { if a.h1_header_read_timeout_running { s.at() == a.h1_header_read_timeout_fut->0.at() } else { exists|i: Instant| #[trigger] i.shown() && s.at() == i.at() + a.h1_header_read_timeout->0.len() } }
/// the octets of `HTTP/1.1 100 Continue`, CRLF, CRLF
pub open spec fn interim() -> Seq<u8> { seq![72u8, 84, 84, 80, 47, 49, 46, 49, 32, 49, 48, 48, 32, 67, 111, 110, 116, 105, 110, 117, 101, 13, 10, 13, 10] }
pub proof fn lemma_interim()
    ensures
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] (a + b).skip(a.len() as int) == b,
        forall|h: Seq<u8>, x: Seq<u8>| x.len() == 25 && x =~= interim() ==> #[trigger] (h + x) == h + interim(),
        forall|h: Seq<u8>| #[trigger] (h + Seq::<u8>::empty()) == h,
{
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] (a + b).skip(a.len() as int) == b by { assert((a + b).skip(a.len() as int) =~= b); }
    assert forall|h: Seq<u8>| #[trigger] (h + Seq::<u8>::empty()) == h by { assert(h + Seq::<u8>::empty() =~= h); }
}
impl<I, B, T: Http1Transaction> Conn<I, B, T> {
    pub open spec fn can_head(&self) -> bool { self.state.reading is Init && (T::server() || !(self.state.writing is Init)) }
    pub open spec fn can_body(&self) -> bool { self.state.reading is Body || self.state.reading is Continue }
    /// a server about to answer has no body octets of the previous answer waiting
    pub open spec fn cinv(&self) -> bool { self.base() && self.spared() }
    pub open spec fn base(&self) -> bool { (T::server() && self.state.writing is Init ==> !self.io.queued()) && (self.state.reading is Continue ==> T::server())
        && (cur(self.state.reading) matches Some(d) ==> d.dok() && !(self.state.keep_alive is Idle))
        && (!T::server() && self.state.writing is Init ==> self.state.reading is Init || self.state.reading is Closed) }
    /// a client's spare header map: put aside with the request head, taken with the response's
    pub open spec fn spared(&self) -> bool { (!T::server() && self.state.cached_headers is Some ==> !(self.state.writing is Init) && (self.state.reading is Init || self.state.reading is Closed)) }
    pub open spec fn can_out(&self) -> bool { (T::server() || !(self.state.reading is Closed)) && self.state.writing is Init && !self.io.queued() }
}
pub proof fn lemma_plain(t: Seq<u8>)
    requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 0x2c
    ensures members(t) == seq![t]
    decreases t.len()
{
    if t.len() == 1 { let e = t.drop_last(); assert(e.len() == 0); assert(members(e) =~= seq![Seq::<u8>::empty()]); assert(t.last() != 0x2c); assert(e.len() == 0 ==> Seq::<u8>::empty().push(t.last()) =~= t); assert(members(t) =~= seq![t]); }
    else { lemma_plain(t.drop_last()); assert(t.drop_last().push(t.last()) =~= t); assert(members(t) =~= seq![t]); }
}
pub proof fn lemma_own(v: HeaderValue, t: Seq<u8>)
    requires v@ == t, t.len() > 0, forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 0x2c && vis(t[i]) && !ows(t[i])
    ensures any_tok(seq![v], t)
{
    lemma_plain(t);
    assert(trim_l(t) == t); assert(trim_r(t) == t);
    assert(lowtok(members(t)[0], t)); assert(has_tok(seq![v][0]@, t));
}
pub proof fn lemma_toks()
    ensures
        forall|v: HeaderValue| v@ == bytes_of("keep-alive"@) ==> #[trigger] any_tok(seq![v], t_keep()),
        forall|v: HeaderValue| v@ == bytes_of("close"@) ==> #[trigger] any_tok(seq![v], t_close()),
{
    reveal_strlit("keep-alive"); reveal_strlit("close");
    assert(bytes_of("keep-alive"@) =~= t_keep()); assert(bytes_of("close"@) =~= t_close());
    assert forall|v: HeaderValue| v@ == t_keep() implies #[trigger] any_tok(seq![v], t_keep()) by { lemma_own(v, t_keep()); }
    assert forall|v: HeaderValue| v@ == t_close() implies #[trigger] any_tok(seq![v], t_close()) by { lemma_own(v, t_close()); }
}
//@ fn <BitAndAssign for KA>::bitand_assign impl="impl KA"
    ensures *final(self) == (if enabled { *old(self) } else { KA::Disabled }) //#C12
//@ fn KA::idle
    ensures *final(self) is Idle
//@ fn KA::busy
    ensures *final(self) is Busy
//@ fn KA::disable
    ensures *final(self) is Disabled
//@ fn KA::status
    ensures r == *self
//@ fn State::close
    ensures
        timed(*old(self), *final(self)), //#C33
        frame(*old(self), *final(self)), final(self).reading is Closed, final(self).writing is Closed, final(self).doomed()
//@ fn State::close_read
    ensures
        timed(*old(self), *final(self)), //#C33
        frame(*old(self), *final(self)), final(self).reading is Closed, final(self).writing == old(self).writing, final(self).doomed()
//@ fn State::close_write
    ensures
        timed(*old(self), *final(self)), //#C33
        frame(*old(self), *final(self)), final(self).writing is Closed, final(self).reading == old(self).reading, final(self).doomed()
//@ fn State::wants_keep_alive
    ensures r == !self.doomed()
//@ fn State::disable_keep_alive
    ensures
        timed(*old(self), *final(self)), //#C33
        frame(*old(self), *final(self)), final(self).doomed(), final(self).reading == old(self).reading, final(self).writing == old(self).writing
//@ fn State::busy
    ensures
        timed(*old(self), *final(self)), //#C33
        frame(*old(self), *final(self)), final(self).doomed() == old(self).doomed(), !old(self).doomed() ==> final(self).keep_alive is Busy, final(self).reading == old(self).reading, final(self).writing == old(self).writing
//@ fn State::is_idle
    ensures r == (self.keep_alive is Idle)
//@ fn State::is_read_closed
    ensures r == (self.reading is Closed)
//@ fn State::is_write_closed
    ensures r == (self.writing is Closed)
//@ fn State::idle
    requires old(self).keep_alive is Busy
    ensures
        timed(*old(self), *final(self)), //#C33
        final(self).fresh(), final(self).cached_headers == old(self).cached_headers
//@ fn State::try_keep_alive
    ensures
        timed(*old(self), *final(self)), //#C33
        final(self).cached_headers == old(self).cached_headers,
        old(self).reading is KeepAlive && old(self).writing is KeepAlive ==> (if old(self).keep_alive is Busy { final(self).fresh() } else { final(self).reading is Closed && final(self).writing is Closed && final(self).doomed() }),
        old(self).reading is Closed && old(self).writing is KeepAlive || old(self).reading is KeepAlive && old(self).writing is Closed ==> final(self).reading is Closed && final(self).writing is Closed && final(self).doomed(),
        !((old(self).reading is KeepAlive || old(self).reading is Closed) && old(self).writing is KeepAlive || old(self).reading is KeepAlive && old(self).writing is Closed) ==> *final(self) == *old(self),
//@ fn State::prepare_upgrade
    ensures
        timed(*old(self), *final(self)), //#C33
        !r.none(), final(self).cached_headers == old(self).cached_headers, final(self).upgrade is Some, final(self).reading == old(self).reading, final(self).writing == old(self).writing, final(self).keep_alive == old(self).keep_alive
//@ fn Conn::new
    ensures r.cinv(), r.state.reading is Init, r.state.writing is Init, !r.state.doomed(), !(r.state.keep_alive is Idle), r.state.cached_headers is None, //#C12,C22
        r.state.h1_header_read_timeout is None && clock_ok(r.state) && !r.state.h1_header_read_timeout_running, //#C33
//@ fn Conn::set_http1_header_read_timeout
    ensures final(self).state.h1_header_read_timeout == Some(val), final(self).state.h1_header_read_timeout_fut == old(self).state.h1_header_read_timeout_fut, final(self).state.h1_header_read_timeout_running == old(self).state.h1_header_read_timeout_running, //#C33
        final(self).state.reading == old(self).state.reading, final(self).state.writing == old(self).state.writing, final(self).state.keep_alive == old(self).state.keep_alive, final(self).state.cached_headers == old(self).state.cached_headers, final(self).io == old(self).io, //#C12,C22
//@ fn Conn::into_inner
    ensures r.1@ == self.io.rbuf() //#C14
//@ fn Conn::pending_upgrade
    ensures
        timed(old(self).state, final(self).state), //#C33
        still(old(self).state, final(self).state), final(self).io == old(self).io
//@ fn Conn::is_read_closed
    ensures r == (self.state.reading is Closed)
//@ fn Conn::is_write_closed
    ensures r == (self.state.writing is Closed)
//@ fn Conn::can_read_head
    ensures r == self.can_head()
//@ fn Conn::can_read_body
    ensures r == self.can_body()
//@ fn Conn::has_initial_read_write_state
    ensures r == (self.state.reading is Init && self.state.writing is Init && self.io.rbuf().len() == 0)
//@ fn Conn::should_error_on_eof
    ensures r == (!T::server() && !(self.state.keep_alive is Idle))
//@ fn Conn::has_h2_prefix
//@ fn Conn::close_read
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).state.reading is Closed, final(self).state.writing == old(self).state.writing, final(self).state.doomed(), final(self).io == old(self).io, frame(old(self).state, final(self).state)
//@ fn Conn::close_write
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).state.writing is Closed, final(self).state.reading == old(self).state.reading, final(self).state.doomed(), final(self).io == old(self).io, frame(old(self).state, final(self).state)
//@ fn Conn::disable_keep_alive
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).state.doomed(), kept(old(self).state, final(self).state, false, false), final(self).io == old(self).io, spare(old(self).state, final(self).state),
        old(self).state.keep_alive is Idle ==> shut(final(self).state),
        !(old(self).state.keep_alive is Idle) ==> final(self).state.reading == old(self).state.reading && final(self).state.writing == old(self).state.writing
//@ fn Conn::take_error
    ensures
        timed(old(self).state, final(self).state), //#C33
        still(old(self).state, final(self).state), final(self).io == old(self).io, r is Err == old(self).state.error is Some
//@ fn Conn::on_upgrade
    ensures
        timed(old(self).state, final(self).state), //#C33
        !r.none(), still(old(self).state, final(self).state), final(self).io == old(self).io
//@ fn Conn::wants_read_again
    ensures
        same_clock(old(self).state, final(self).state), r == old(self).state.notify_read, //#C33
        still(old(self).state, final(self).state), final(self).io == old(self).io
//@ fn Conn::can_write_head
    ensures r == self.can_out()
//@ fn Conn::can_write_body
    ensures r == (self.state.writing is Body)
//@ fn Conn::can_buffer_body
    ensures r == self.io.room()
//@ fn Conn::has_buffered_write
//@ fn Conn::is_mid_message
    ensures r == !(self.state.reading is Init && self.state.writing is Init)
//@ fn Conn::force_io_read combin=map_err
    requires !(old(self).state.reading is Closed), cur(old(self).state.reading) is None, old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        same_out(old(self).io, final(self).io), final(self).cinv(), kept(old(self).state, final(self).state, false, false), calm(old(self).state, final(self).state),
        match r { Poll::Ready(Err(_)) => shut(final(self).state), _ => still(old(self).state, final(self).state) },
//@ fn Conn::require_empty_read
    requires !old(self).can_head(), !old(self).can_body(), !(old(self).state.reading is Closed), old(self).state.reading is Init, old(self).state.writing is Init, !T::server(), old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), final(self).state.reading is Init ==> old(self).state.reading is Init, //#C33
        same_out(old(self).io, final(self).io), final(self).cinv(), kept(old(self).state, final(self).state, false, false), calm(old(self).state, final(self).state),
        // whatever arrives on an idle connection ends it
        r matches Poll::Ready(Ok(_)) ==> final(self).state.reading is Closed && final(self).state.doomed(), //#C12
        old(self).io.rbuf().len() > 0 ==> r matches Poll::Ready(Err(_)), //#C12
        r is Pending ==> still(old(self).state, final(self).state), //#C12
//@ fn Conn::mid_message_detect_eof
    requires !old(self).can_head(), !old(self).can_body(), !(old(self).state.reading is Closed), !(old(self).state.reading is Init && old(self).state.writing is Init), old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), final(self).state.reading is Init ==> old(self).state.reading is Init, //#C33
        same_out(old(self).io, final(self).io), final(self).cinv(), kept(old(self).state, final(self).state, false, false), calm(old(self).state, final(self).state),
        r matches Poll::Ready(Err(_)) ==> final(self).state.reading is Closed && final(self).state.doomed(), //#C12
//@ fn Conn::poll_read_keep_alive
    requires !old(self).can_head(), !old(self).can_body(), old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), final(self).state.reading is Init ==> old(self).state.reading is Init, //#C33
        same_out(old(self).io, final(self).io), final(self).cinv(), kept(old(self).state, final(self).state, false, false), calm(old(self).state, final(self).state),
//@ fn Conn::maybe_notify
    requires old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        same_out(old(self).io, final(self).io), final(self).cinv(), kept(old(self).state, final(self).state, false, false), calm(old(self).state, final(self).state),
        still(old(self).state, final(self).state) || final(self).state.doomed() && final(self).state.reading is Closed && final(self).state.writing == old(self).state.writing && !(old(self).state.keep_alive is Idle) || shut(final(self).state),
        !(old(self).state.reading is Init) ==> still(old(self).state, final(self).state),
//@ fn Conn::try_keep_alive
    requires old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        same_out(old(self).io, final(self).io), final(self).cinv(), //#C12,C22
        kept(old(self).state, final(self).state, false, false), calm(old(self).state, final(self).state), //#C12
        !(old(self).state.reading is Body) ==> !(final(self).state.reading is Body), !(final(self).state.reading is Continue) || old(self).state.reading is Continue, //#C22
        old(self).state.reading is Body ==> final(self).state.reading == old(self).state.reading,
//@ fn Conn::poll_read_body combin=unwrap_or_else attr="exec_allows_no_decreases_clause;rlimit(200)"
    requires old(self).can_body(), old(self).cinv(), //#C12,C22
        old(self).state.reading is Continue ==> old(cx).asked() //#C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        spare(old(self).state, final(self).state), final(self).state.writing is Body ==> final(self).state.writing == old(self).state.writing, //#C07,C08,C12
        // what is handed on is what the decoder made of the octets; the end only when it has seen it
        ({ let d = cur(old(self).state.reading)->0; let now = cur(final(self).state.reading);
            exists|e: Decoder| #[trigger] decoded(d, e) && e.dlen() == d.dlen() && e.dok() && match r {
                Poll::Ready(Some(Ok(Frame::Data(b)))) => e.given() == d.given() + b@ && (now == Some(e) || now is None && e.over()),
                Poll::Ready(Some(Ok(Frame::Trailers(_)))) => e.given() == d.given() && e.over() && now is None,
                Poll::Ready(None) => e.given() == d.given() && e.over() && now is None,
                Poll::Ready(Some(Err(_))) => now is None,
                Poll::Pending => e.given() == d.given() && now == Some(e),
            } }), //#C03,C18
        final(self).cinv(), //#C12,C22
        kept(old(self).state, final(self).state, read_done(old(self).state.reading), false), //#C12
        r matches Poll::Ready(Some(Err(_))) ==> final(self).state.reading is Closed, //#C12
        r is Pending ==> final(self).state.reading is Body, //#C12
        !(final(self).state.reading is Continue), //#C22
        final(self).io.heads() == old(self).io.heads() + (if old(self).state.reading is Continue && old(self).state.writing is Init { interim() } else { Seq::<u8>::empty() }), //#C22
        final(self).io.bodies() == old(self).io.bodies(), //#C22
//@ ghost start
    proof { lemma_interim(); }
//@ fn Conn::poll_drain_or_close_read
    requires old(self).can_body(), old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        spare(old(self).state, final(self).state), final(self).state.writing is Body ==> final(self).state.writing == old(self).state.writing, //#C07,C08,C12
        final(self).cinv(), //#C12,C22
        kept(old(self).state, final(self).state, read_done(old(self).state.reading), false), //#C12
        final(self).state.reading is Closed || final(self).state.reading is KeepAlive || final(self).state.reading is Init, //#C12
        final(self).io.heads() == old(self).io.heads(), final(self).io.bodies() == old(self).io.bodies(), //#C22
//@ fn Conn::fix_keep_alive
    ensures
        timed(old(self).state, final(self).state), //#C33
        unframed(old(head).headers@) ==> unframed(final(head).headers@),
        final(self).io == old(self).io, kept(old(self).state, final(self).state, false, false), frame(old(self).state, final(self).state), final(self).state.doomed() || final(self).state.keep_alive == old(self).state.keep_alive, final(self).state.reading == old(self).state.reading, final(self).state.writing == old(self).state.writing,
        final(head).version == old(head).version,
        (old(head).version == Version::HTTP_10 || old(head).version == Version::HTTP_11) && !final(self).state.doomed() ==> any_tok(hm_vals(final(head).headers@, CONNECTION), t_keep()) || any_tok(hm_vals(final(head).headers@, CONNECTION), t_close()), //#C12
        any_tok(hm_vals(old(head).headers@, CONNECTION), t_close()) ==> any_tok(hm_vals(final(head).headers@, CONNECTION), t_close()), //#C12
//@ ghost start
    proof { lemma_toks(); }
//@ fn Conn::enforce_version
    ensures
        timed(old(self).state, final(self).state), //#C33
        unframed(old(head).headers@) ==> unframed(final(head).headers@),
        final(self).io == old(self).io, kept(old(self).state, final(self).state, false, false), frame(old(self).state, final(self).state), final(self).state.doomed() || final(self).state.keep_alive == old(self).state.keep_alive, final(self).state.reading == old(self).state.reading, final(self).state.writing == old(self).state.writing,
        old(self).state.version == Version::HTTP_10 ==> final(head).version == Version::HTTP_10, //#C12
        old(self).state.version == Version::HTTP_10 && (old(head).version == Version::HTTP_10 || old(head).version == Version::HTTP_11) && !final(self).state.doomed()
            ==> any_tok(hm_vals(final(head).headers@, CONNECTION), t_keep()) || any_tok(hm_vals(final(head).headers@, CONNECTION), t_close()), //#C12
        old(self).state.version == Version::HTTP_11 && final(self).state.doomed() ==> any_tok(hm_vals(final(head).headers@, CONNECTION), t_close()), //#C12
        any_tok(hm_vals(old(head).headers@, CONNECTION), t_close()) ==> any_tok(hm_vals(final(head).headers@, CONNECTION), t_close()), //#C12
//@ ghost start
    proof { lemma_toks(); }
//@ fn Conn::encode_head
    requires old(self).can_out(), old(self).cinv(), T::server() ==> old(self).state.cached_headers is None //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).base(), r is None ==> final(self).cinv(), //#C12,C22
        kept(old(self).state, final(self).state, false, false), final(self).state.reading == old(self).state.reading, //#C12
        r is None ==> final(self).state.writing is Closed, //#C12
        r is Some ==> final(self).state.writing is Init && !final(self).io.queued(), //#C12
        r is Some && any_tok(hm_vals(head.headers@, CONNECTION), t_close()) ==> (if T::server() { r->0.last() } else { final(self).state.doomed() }), //#C12
        r is Some && T::server() && final(self).state.doomed() ==> r->0.last(), //#C12
        r is Some && !T::server() && !final(self).state.doomed() ==> final(self).state.keep_alive is Busy, //#C12
        r is Some ==> (r->0.by_close() ==> !r->0.over()) && r->0.taken() == Seq::<u8>::empty() && (T::server() && body is None && unframed(head.headers@) ==> r->0.over()), //#C07,C08,C12
        cur(final(self).state.reading) == cur(old(self).state.reading), //#C12
//@ fn Conn::write_head
    requires old(self).can_out(), old(self).cinv(), T::server() ==> old(self).state.cached_headers is None //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).cinv(), !(final(self).state.writing is Init), //#C12,C22
        kept(old(self).state, final(self).state, false, true), final(self).state.reading == old(self).state.reading, //#C12
        // asked to close, by either end: nothing follows
        T::server() && (any_tok(hm_vals(head.headers@, CONNECTION), t_close()) || final(self).state.doomed())
            ==> final(self).state.writing is Closed || final(self).state.writing is Body && final(self).state.writing->Body_0.last(), //#C12
        !T::server() && any_tok(hm_vals(head.headers@, CONNECTION), t_close()) ==> final(self).state.doomed() || final(self).state.writing is Closed, //#C12
        !T::server() && !final(self).state.doomed() && !(final(self).state.writing is Closed) ==> final(self).state.keep_alive is Busy, //#C12
        final(self).state.writing matches Writing::Body(e) ==> e.taken() == Seq::<u8>::empty() && !e.over(), //#C07,C08
        final(self).state.writing is KeepAlive ==> exists|e: Encoder| e.over() && #[trigger] e.taken() == Seq::<u8>::empty(), //#C07,C08
        T::server() && body is None && unframed(head.headers@) ==> !(final(self).state.writing is Body), //#C07,C08,C12
//@ fn Conn::write_body
    requires old(self).cinv(), old(self).state.writing is Body, old(self).io.room(), chunk.bytes().len() > 0 //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).cinv(), spare(old(self).state, final(self).state), //#C12,C22
        final(self).io.heads() == old(self).io.heads(), final(self).state.reading == old(self).state.reading, final(self).state.keep_alive == old(self).state.keep_alive, //#C12,C22
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::Body(f) => took(e, f) && f.taken() == e.taken() + chunk.bytes() && !f.over(),
            Writing::KeepAlive => exists|f: Encoder| #[trigger] took(e, f) && f.taken() == e.taken() + chunk.bytes() && f.over(),
            _ => true,
        } }), //#C07,C08
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::Body(f) => took(e, f) && f.last() == e.last(),
            Writing::KeepAlive => !e.last() && !e.by_close() && exists|f: Encoder| #[trigger] took(e, f) && f.over(),
            Writing::Closed => e.last(),
            Writing::Init => false,
        } }), //#C12
//@ fn Conn::write_trailers
    requires old(self).cinv(), old(self).state.writing is Body, old(self).io.room() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).cinv(), spare(old(self).state, final(self).state), //#C12,C22
        final(self).io.heads() == old(self).io.heads(), final(self).state.reading == old(self).state.reading, final(self).state.keep_alive == old(self).state.keep_alive, //#C12,C22
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::Body(f) => f == e,
            Writing::KeepAlive => e.endable(),
            _ => true,
        } }), //#C07,C08
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::Body(f) => f == e,
            Writing::KeepAlive => !e.last() && !e.by_close() && e.endable(),
            Writing::Closed => e.last() || e.by_close(),
            Writing::Init => false,
        } }), //#C12
//@ fn Conn::write_body_and_end
    requires old(self).cinv(), old(self).state.writing is Body, old(self).io.room(), chunk.bytes().len() > 0 //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).cinv(), spare(old(self).state, final(self).state), //#C12,C22
        final(self).io.heads() == old(self).io.heads(), final(self).state.reading == old(self).state.reading, final(self).state.keep_alive == old(self).state.keep_alive, //#C12,C22
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::KeepAlive => ended_well(e, chunk.bytes()),
            Writing::Closed => true,
            _ => false,
        } }), //#C07,C08
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::KeepAlive => ended_well(e, chunk.bytes()) && !e.last() && !e.by_close(),
            Writing::Closed => !ended_well(e, chunk.bytes()),
            _ => false,
        } }), //#C12
//@ fn Conn::end_body
    requires old(self).cinv(), old(self).state.writing is Body //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).cinv(), spare(old(self).state, final(self).state), //#C12,C22
        final(self).io.heads() == old(self).io.heads(), final(self).state.reading == old(self).state.reading, final(self).state.keep_alive == old(self).state.keep_alive, //#C12,C22
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::KeepAlive => e.endable() && r is Ok,
            Writing::Closed => r is Err && !e.endable() || r is Ok,
            _ => false,
        } }), //#C07,C08
        ({ let e = old(self).state.writing->Body_0; match final(self).state.writing {
            Writing::KeepAlive => e.endable() && !e.last() && !e.by_close() && r is Ok,
            Writing::Closed => r is Err && !e.endable() || r is Ok && (e.last() || e.by_close()),
            _ => false,
        } }), //#C12
//@ fn Conn::on_parse_error
    requires old(self).cinv(), old(self).state.doomed(), old(self).state.reading is Closed //#C12,C22
    ensures
        timed(old(self).state, final(self).state), r matches Err(x) ==> x == err || !x.late(), //#C33
        final(self).cinv(), final(self).state.writing is Body ==> final(self).state.writing == old(self).state.writing, //#C12,C22
        final(self).state.doomed(), final(self).state.reading is Closed, kept(old(self).state, final(self).state, false, false), //#C12
//@ fn Conn::on_read_head_error
    requires old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), r matches Poll::Ready(Some(Err(x))) ==> x == e || !x.late(), //#C33
        final(self).cinv(), final(self).state.writing is Body ==> final(self).state.writing == old(self).state.writing, //#C12,C22
        final(self).state.doomed(), final(self).state.reading is Closed, kept(old(self).state, final(self).state, false, false), //#C12
        !(r matches Poll::Ready(Some(Ok(_)))), //#C12
        r matches Poll::Ready(None) ==> final(self).state.writing is Closed, //#C12
//@ fn Conn::poll_read_head
    requires old(self).can_head(), old(self).cinv() //#C12,C22
    ensures
        final(self).state.writing is Body ==> final(self).state.writing == old(self).state.writing, //#C07,C08,C12
        match r {
            Poll::Ready(Some(Ok((h, d, w)))) => final(self).state.cached_headers is None
                && if d == DecodedLength::ZERO { cur(final(self).state.reading) is None } else { cur(final(self).state.reading) matches Some(e) && e.dlen() == d && e.given() == Seq::<u8>::empty() },
            _ => cur(final(self).state.reading) is None && kept(old(self).state, final(self).state, false, false),
        }, //#C03,C12,C18
        final(self).cinv(), //#C12,C22
        match r {
            Poll::Ready(Some(Ok((h, d, w)))) => exists|m: ParsedMessage<T::Incoming>| #[trigger] parsed(old(self).io.rbuf(), m) && m.head == h && m.decode == d
                && kept(old(self).state, final(self).state, d == DecodedLength::ZERO && m.keep_alive || d == DecodedLength::ZERO && !(final(self).state.reading is Init), false)
                && (!m.keep_alive ==> final(self).state.doomed()) && (d == DecodedLength::ZERO ==> !final(self).can_body()), //#C12
            Poll::Ready(Some(Err(_))) => still(old(self).state, final(self).state) || final(self).state.doomed() && final(self).state.reading is Closed,
            Poll::Ready(None) => shut(final(self).state),
            Poll::Pending => still(old(self).state, final(self).state) || final(self).state.doomed() && final(self).state.reading is Closed,
        }, //#C12
        match r {
            Poll::Ready(Some(Ok((h, d, w)))) => same_out(old(self).io, final(self).io) && exists|m: ParsedMessage<T::Incoming>| #[trigger] parsed(old(self).io.rbuf(), m) && m.head == h && m.decode == d
                && (final(self).state.reading is Continue) == (m.expect_continue && h.version.rank() > 1 && d != DecodedLength::ZERO)
                && (final(self).state.reading is Continue) == (w.0 & 1 == 1),
            _ => !(final(self).state.reading is Continue),
        }, //#C22
        // while the head is awaited the clock runs to the deadline, and wakes the connection; it is an error only then, and only if the head is not there
        clock_ok(old(self).state) ==> clock_ok(final(self).state) && final(self).state.h1_header_read_timeout == old(self).state.h1_header_read_timeout && match r {
            Poll::Ready(Some(Ok(_))) => !final(self).state.h1_header_read_timeout_running && final(self).state.h1_header_read_timeout_fut is None && (T::server() ==> !(final(self).state.reading is Init)),
            Poll::Pending => final(self).state.reading is Closed || old(self).state.h1_header_read_timeout is None
                || final(self).state.h1_header_read_timeout_running && (final(self).state.h1_header_read_timeout_fut matches Some(f) && deadline(old(self).state, f) && f.heard()),
            Poll::Ready(Some(Err(e))) => e.late() ==> (final(self).state.h1_header_read_timeout_fut matches Some(f) && deadline(old(self).state, f) && f.done()) && part(final(self).io.rbuf()),
            Poll::Ready(None) => true,
        }, //#C33
        clock_ok(old(self).state) && (old(self).state.h1_header_read_timeout_fut matches Some(f) ==> !f.done()) ==> (final(self).state.h1_header_read_timeout_fut matches Some(f) && f.done() ==> r matches Poll::Ready(Some(Err(_)))), //#C33
//@ ghost start
    proof { assert(forall|a: u8, b: u8| #![trigger a | b] (a | b) & 1u8 == (a & 1u8) | (b & 1u8) && (a & 1u8 == 1 || b & 1u8 == 1 ==> (a | b) & 1u8 == 1) && (a & 1u8 == 0 && b & 1u8 == 0 ==> (a | b) & 1u8 == 0) && (a & 2u8 == 2 || b & 2u8 == 2 ==> (a | b) & 2u8 == 2)) by (bit_vector); assert(0u8 & 1u8 == 0 && 2u8 & 1u8 == 0 && 1u8 & 1u8 == 1) by (bit_vector); }
//@ fn Conn::poll_flush
    requires old(self).cinv() //#C12,C22
    ensures
        timed(old(self).state, final(self).state), //#C33
        final(self).cinv(), //#C12,C22
        kept(old(self).state, final(self).state, false, false), calm(old(self).state, final(self).state), //#C12
        final(self).io.heads() == old(self).io.heads(), final(self).io.bodies() == old(self).io.bodies(), //#C22
        r matches Poll::Ready(Err(_)) ==> still(old(self).state, final(self).state),
//@ fn Conn::poll_shutdown
    ensures
        timed(old(self).state, final(self).state), //#C33
        still(old(self).state, final(self).state), old(self).cinv() ==> final(self).cinv()
//@ end
//@ source src/common/time.rs
//@ gsubst `panic!($x)` => `vnever()`
//@ item enum Dur derive="Clone, Copy"
//@ fn Time::check
    requires dur matches Dur::Configured(Some(_)) ==> self is Timer
    ensures
        // the timeout configured is the one in force; the default only with a timer
        r == (match dur { Dur::Configured(d) => d, Dur::Default(d) => if self is Timer { d } else { None } }), //#C33
//@ end
//@ include disp.rs
//@ end
} // verus!
fn main() {}
