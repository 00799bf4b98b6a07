//@ include prelude.rs
verus! {
#[verifier::external_body]
pub struct HeaderMap { p: u8 }
/// http_body::Frame
pub enum Frame<T> { Data(T), Trailers(HeaderMap) }
impl<T> Frame<T> {
    pub fn data(b: T) -> (r: Frame<T>) ensures r == Frame::Data(b) { Frame::Data(b) }
    pub fn trailers(h: HeaderMap) -> (r: Frame<T>) ensures r == Frame::<T>::Trailers(h) { Frame::Trailers(h) }
}
/// http_body::SizeHint
pub struct SizeHint { pub lo: u64, pub up: Option<u64> }
impl SizeHint {
    pub fn with_exact(n: u64) -> (r: SizeHint) ensures r.lo == n, r.up == Some(n) { SizeHint { lo: n, up: Some(n) } }
    pub fn default() -> (r: SizeHint) ensures r.lo == 0, r.up is None { SizeHint { lo: 0, up: None } }
    pub fn new() -> (r: SizeHint) ensures r.lo == 0, r.up is None { SizeHint { lo: 0, up: None } }
}
pub enum Parse { TooLarge, Other }
#[verifier::external_body]
pub struct Error { p: u8 }
impl Error {
    #[verifier::external_body]
    pub fn new_body(e: h2::Error) -> Error { unimplemented!() }
    #[verifier::external_body]
    pub fn new_h2(e: h2::Error) -> Error { unimplemented!() }
    #[verifier::external_body]
    pub fn new_incomplete() -> Error { unimplemented!() }
}
pub mod error { pub use super::Parse; }

// ---- what is still to come (prophecy): a sequence of data frames, the last of which may be a failure ----
/// Lengths of the data frames still to come; a failure ends them.
pub open spec fn coming<E>(s: Seq<Result<Bytes, E>>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { match s[0] { Ok(b) => b@.len() + coming(s.skip(1)), Err(_) => 0 } }
}
/// none of them is a failure
pub open spec fn completes<E>(s: Seq<Result<Bytes, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn nonempty<E>(s: Seq<Result<Bytes, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] { Ok(b) => b@.len() > 0, Err(_) => true } }
/// An announced length is kept: what completes has that many octets, what fails has no more.
pub open spec fn kept<E>(n: nat, s: Seq<Result<Bytes, E>>) -> bool { coming(s) <= n && (completes(s) ==> coming(s) == n) }

pub mod mpsc {
    use vstd::prelude::*;
    use super::{Context, Poll};
    /// futures_channel::mpsc::Receiver; `rest`: what it will still yield
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { p: core::marker::PhantomData<T> }
    impl<T> Receiver<T> {
        pub uninterp spec fn rest(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn is_terminated(&self) -> (r: bool) ensures r ==> self.rest().len() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_next(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<T>>)
            ensures match r {
                Poll::Pending => final(self).rest() == old(self).rest(),
                Poll::Ready(Some(x)) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                Poll::Ready(None) => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            } { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) { unimplemented!() }
}
pub mod oneshot {
    use vstd::prelude::*;
    use super::{Context, Poll};
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { p: core::marker::PhantomData<T> }
    pub struct Canceled;
    impl<T> Receiver<T> {
        /// what it will still yield
        pub uninterp spec fn rest(&self) -> Option<T>;
        #[verifier::external_body]
        pub fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<T, Canceled>>)
            ensures match r {
                Poll::Pending => final(self).rest() == old(self).rest(),
                Poll::Ready(Ok(x)) => old(self).rest() == Some(x) && final(self).rest() is None,
                Poll::Ready(Err(_)) => old(self).rest() is None && final(self).rest() is None,
            } { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) { unimplemented!() }
}
pub mod watch {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Receiver { p: u8 }
    #[verifier::external_body]
    pub struct Sender { p: u8 }
    impl Sender {
        #[verifier::external_body]
        pub fn send(&mut self, v: usize) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel(v: usize) -> (r: (Sender, Receiver)) { unimplemented!() }
}
pub mod ping {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Recorder { p: u8 }
    impl Recorder {
        #[verifier::external_body]
        pub fn record_data(&self, n: usize) { unimplemented!() }
        #[verifier::external_body]
        pub fn record_non_data(&self) { unimplemented!() }
    }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
#[allow(non_camel_case_types)]
pub enum Reason { NO_ERROR, CANCEL, OTHER }
pub assume_specification<T, E>[ Result::<Option<T>, E>::transpose ](_0: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
    ensures r == (match _0 { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) });
/// `.map(Frame::trailers)`
pub trait VxTrailers { fn vx_trailers(self) -> Option<Frame<Bytes>>; }
impl VxTrailers for Option<HeaderMap> { fn vx_trailers(self) -> (r: Option<Frame<Bytes>>) ensures r == (match self { Some(h) => Some(Frame::<Bytes>::Trailers(h)), None => None }) { match self { Some(h) => Some(Frame::Trailers(h)), None => None } } }
pub mod h2 {
    use vstd::prelude::*;
    use super::{Context, Poll, Bytes, HeaderMap};
    pub use super::Reason;
    #[verifier::external_body]
    pub struct Error { p: u8 }
    impl Error {
        pub uninterp spec fn sreason(&self) -> Option<Reason>;
        #[verifier::external_body]
        pub fn reason(&self) -> (r: Option<Reason>) ensures r == self.sreason() { unimplemented!() }
    }
    /// h2::RecvStream; `rest`: the data frames still to come, `tail`: the trailers after them
    #[verifier::external_body]
    pub struct RecvStream { p: u8 }
    impl RecvStream {
        pub uninterp spec fn rest(&self) -> Seq<Result<Bytes, Error>>;
        pub uninterp spec fn tail(&self) -> Option<HeaderMap>;
        pub uninterp spec fn ended(&self) -> bool;
        pub open spec fn over(&self) -> bool { self.rest().len() == 0 && self.tail() is None }
        #[verifier::external_body]
        pub fn is_end_stream(&self) -> (r: bool) ensures r == self.ended(), r ==> self.over() { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_data(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Result<Bytes, Error>>>)
            ensures final(self).tail() == old(self).tail(), match r {
                Poll::Pending => final(self).rest() == old(self).rest(),
                Poll::Ready(Some(x)) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                Poll::Ready(None) => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            } { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_trailers(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<Option<HeaderMap>, Error>>)
            ensures final(self).rest() == old(self).rest(), match r {
                Poll::Pending => final(self).tail() == old(self).tail(),
                Poll::Ready(Ok(t)) => t == old(self).tail() && final(self).tail() is None,
                Poll::Ready(Err(_)) => final(self).tail() is None,
            } { unimplemented!() }
        /// flow_control().release_capacity(n)
        #[verifier::external_body]
        pub fn vx_release(&mut self, n: usize) -> (r: Result<(), Error>)
            ensures final(self).rest() == old(self).rest(), final(self).tail() == old(self).tail() { unimplemented!() }
    }
}
} // verus!
macro_rules! ready_opt_try { ($e:expr) => { match $e {
    Poll::Ready(Some(Ok(t))) => Some(t), Poll::Ready(Some(Err(e))) => return Poll::Ready(Some(Err(e))), Poll::Ready(None) => None, Poll::Pending => return Poll::Pending } } }
verus! {
//@ source src/body/length.rs
//@ item const MAX_LEN
//@ item struct DecodedLength derive="PartialEq, Eq, Structural, Clone, Copy"
//@ item implconst DecodedLength::CLOSE_DELIMITED,CHUNKED,ZERO
impl DecodedLength {
    pub open spec fn known(self) -> Option<nat> { if self.0 <= 0xffff_ffff_ffff_fffdu64 { Some(self.0 as nat) } else { None } }
}
//@ fn DecodedLength::into_opt
    ensures match r { Some(n) => self.known() == Some(n as nat), None => self.known() is None }
//@ fn DecodedLength::checked_new
    ensures match r { Ok(d) => d.known() == Some(len as nat), Err(_) => len > 0xffff_ffff_ffff_fffdu64 }
//@ fn DecodedLength::sub_if
    requires old(self).known() matches Some(n) ==> n >= amt
    ensures final(self).known() == (match old(self).known() { Some(n) => Some((n - amt) as nat), None => None })
//@ fn DecodedLength::is_exact optional=1
    ensures r == self.known() is Some
//@ fn <From<Option<u64>> for DecodedLength>::from impl="impl DecodedLength" combin="and_then=opt_and_then"
    ensures r.known() == (match len { Some(n) if n <= 0xffff_ffff_ffff_fffdu64 => Some(n as nat), _ => None })

//@ source src/body/incoming.rs
//@ gsubst `mut self: Pin<&mut Self>` => `&mut self`
//@ gsubst `Poll<Option<Result<Frame<Self::Data>, Self::Error>>>` => `Poll<Option<Result<Frame<Bytes>, Error>>>`
//@ gsubst `ready!(Pin::new($x).poll_next(cx)?)` => `ready_opt_try!($x.poll_next(cx))`
//@ gsubst `Pin::new($x).poll_next(cx)` => `$x.poll_next(cx)`
//@ gsubst `Pin::new($x).poll(cx)` => `$x.poll(cx)`
//@ gsubst `.flow_control().release_capacity($n)` => `.vx_release($n)`
//@ gsubst `.map(Frame::trailers)` => `.vx_trailers()`
//@ gsubst `crate::Error` => `Error`
//@ item enum Kind
//@ item struct Incoming
//@ item struct Sender
//@ item type BodySender
//@ item type TrailersSender
//@ item const WANT_PENDING
//@ item const WANT_READY
impl Incoming {
    /// the announced length, if one is
    pub open spec fn len(&self) -> Option<nat> { match self.kind { Kind::Empty => Some(0), Kind::Chan { content_length, .. } => content_length.known(), Kind::H2 { content_length, .. } => content_length.known() } }
    /// octets that will still be delivered, if the body completes
    pub open spec fn left(&self) -> nat { match self.kind { Kind::Empty => 0, Kind::Chan { data_rx, .. } => coming(data_rx.rest()), Kind::H2 { recv, .. } => coming(recv.rest()) } }
    pub open spec fn whole(&self) -> bool { match self.kind { Kind::Empty => true, Kind::Chan { data_rx, .. } => completes(data_rx.rest()), Kind::H2 { recv, .. } => completes(recv.rest()) } }
    /// nothing more comes
    pub open spec fn over(&self) -> bool { match self.kind { Kind::Empty => true, Kind::Chan { data_rx, trailers_rx, .. } => data_rx.rest().len() == 0 && trailers_rx.rest() is None, Kind::H2 { recv, .. } => recv.over() } }
    /// The feeding side keeps the announced length (for the channel also: no empty pieces, and
    /// neither trailers nor a failure after a body of announced length is there completely).
    pub open spec fn bok(&self) -> bool {
        match self.kind {
            Kind::Empty => true,
            Kind::Chan { content_length, data_rx, trailers_rx, .. } => content_length.known() matches Some(n) ==> kept(n, data_rx.rest()) && nonempty(data_rx.rest())
                && trailers_rx.rest() is None && (coming(data_rx.rest()) == n ==> completes(data_rx.rest())),
            Kind::H2 { content_length, recv, data_done, .. } => (content_length.known() matches Some(n) ==> kept(n, recv.rest())) && (data_done ==> recv.rest().len() == 0),
        }
    }
}
pub broadcast proof fn lemma_none_left<E>(s: Seq<Result<Bytes, E>>)
    requires completes(s), nonempty(s), #[trigger] coming(s) == 0
    ensures s.len() == 0
{ if s.len() > 0 { assert(s[0] is Ok); } }
pub broadcast proof fn lemma_next<E>(s: Seq<Result<Bytes, E>>)
    requires s.len() > 0, s[0] is Ok
    ensures #![trigger s.skip(1)]
        coming(s) == s[0]->Ok_0@.len() + coming(s.skip(1)), completes(s) == completes(s.skip(1)), nonempty(s) ==> nonempty(s.skip(1))
{
    let t = s.skip(1);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == s[i + 1] by { }
    if completes(t) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) is Ok by { if i > 0 { assert(t[i - 1] == s[i]); } } }
}
//@ fn Incoming::new
    ensures r.kind == kind
//@ fn Incoming::empty
    ensures r.kind is Empty, r.len() == Some(0nat), r.bok()
//@ fn Incoming::new_channel
    ensures (r.1).kind is Chan, (r.1).len() == content_length.known()
//@ fn Incoming::h2
    // h2 checks announced lengths, except that 204 and 304 responses may announce any (and those to HEAD: see the caller)
    requires recv.ended() || (content_length.known() matches Some(n) ==> kept(n, recv.rest()))
    ensures r.kind is H2, r.bok(), r.left() == coming(recv.rest()), r.whole() == completes(recv.rest()),
        !recv.over() ==> r.len() == content_length.known()
//@ fn opt_len optional=1
    ensures match decoded_length.known() { Some(n) => r.up == Some(r.lo) && r.lo == n, None => r.lo == 0 && r.up is None }
//@ impl <Body for Incoming> `impl Incoming`
//@ fn poll_frame
    requires old(self).bok()
    ensures !(r is Ready && (r->Ready_0 is None || r->Ready_0->0 is Err)) ==> final(self).bok(), match r {
        Poll::Pending => final(self).len() == old(self).len() && final(self).left() == old(self).left() && final(self).over() == old(self).over(),
        // a data frame lowers the announced length by exactly its own
        Poll::Ready(Some(Ok(Frame::Data(b)))) => !old(self).over() && old(self).left() == b@.len() + final(self).left() && old(self).whole() == final(self).whole()
            && (old(self).len() is None ==> final(self).len() is None)
            && (old(self).len() matches Some(n) ==> n >= b@.len() && final(self).len() == Some((n - b@.len()) as nat)),
        Poll::Ready(Some(Ok(Frame::Trailers(_)))) => !old(self).over() && final(self).over() && final(self).len() == old(self).len() && old(self).left() == 0
            && (old(self).len() matches Some(n) ==> n == 0),
        // ended: no announced octet is missing
        Poll::Ready(None) => final(self).len() == old(self).len() && (old(self).len() matches Some(n) ==> n == 0),
        Poll::Ready(Some(Err(_))) => true,
    }
//@ ghost start
broadcast use lemma_next;
//@ fn is_end_stream
    requires self.bok()
    ensures r ==> self.over()
//@ ghost start
broadcast use lemma_none_left;
//@ fn size_hint
    ensures match self.len() { Some(n) => r.up == Some(r.lo) && r.lo == n, None => r.lo == 0 && r.up is None }
//@ endimpl
/// the size reported at any time is what will still come
pub proof fn theorem_true(b: Incoming)
    requires b.bok(), b.whole()
    ensures b.len() matches Some(n) ==> n == b.left()
{ }
} // verus!
fn main() {}
