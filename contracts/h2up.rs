//@ include prelude.rs
//@ include stream.rs
//@ include bufs.rs
//@ include readbuf.rs
} // verus!
//@ include rwtraits.rs
verus! {
pub mod cmp {
    use vstd::prelude::*;
    pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
    pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
}
#[verifier::external_body]
pub fn vx_bsub(b: &Bytes, a: usize, e: usize) -> (r: &[u8]) requires a <= e <= b@.len() ensures r@ == b@.subrange(a as int, e as int) { unimplemented!() }
pub mod ping {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Recorder { p: u8 }
    impl Recorder {
        #[verifier::external_body]
        pub fn record_data(&self, n: usize) { unimplemented!() }
    }
}
use ping::Recorder;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
#[allow(non_camel_case_types)]
pub enum Reason { NO_ERROR, CANCEL, STREAM_CLOSED, OTHER }
/// hyper's error
#[verifier::external_body]
pub struct Error { p: u8 }
/// what one write put into the channel: `Cursor<Box<[u8]>>`
#[verifier::external_body]
pub struct BoxCur { p: u8 }
impl View for BoxCur { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn vx_boxcur(b: &[u8]) -> (r: BoxCur) ensures r@ == b@ { unimplemented!() }
pub enum SendBuf { Buf(u8), Cursor(BoxCur), None }
impl SendBuf { pub open spec fn octets(self) -> Seq<u8> { match self { SendBuf::Cursor(c) => c@, _ => Seq::empty() } } }
#[verifier::external_body]
pub fn vx_bw<E>(e: E) -> (r: Error) { unimplemented!() }
pub trait VxBw<T> { fn vx_bw_err(self) -> Result<T, Error>; }
impl<T> VxBw<T> for Result<T, h2::Error> { fn vx_bw_err(self) -> (r: Result<T, Error>) ensures r is Ok == self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { match self { Ok(t) => Ok(t), Err(e) => Err(vx_bw(e)) } } }
#[verifier::external_body]
pub fn vx_io_error<E>(e: E) -> (r: io::Error) { unimplemented!() }
pub mod h2 {
    use vstd::prelude::*;
    use super::{Context, Poll, Bytes, SendBuf};
    pub use super::Reason;
    #[verifier::external_body]
    pub struct Error { p: u8 }
    impl Error {
        #[verifier::external_body]
        pub fn reason(&self) -> (r: Option<Reason>) { unimplemented!() }
    }
    /// h2::RecvStream; `left`: the octets of the data frames still to come (none after the end or an error)
    #[verifier::external_body]
    pub struct RecvStream { p: u8 }
    impl RecvStream {
        pub uninterp spec fn left(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn is_end_stream(&self) -> (r: bool) ensures r ==> self.left().len() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_data(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Result<Bytes, Error>>>)
            ensures match r {
                Poll::Pending => final(self).left() == old(self).left(),
                Poll::Ready(Some(Ok(b))) => old(self).left() == b@ + final(self).left(),
                _ => old(self).left().len() == 0 && final(self).left().len() == 0,
            } { unimplemented!() }
        /// flow_control().release_capacity(n)
        #[verifier::external_body]
        pub fn vx_release(&mut self, n: usize) -> (r: Result<(), Error>)
            ensures final(self).left() == old(self).left() { unimplemented!() }
    }
    /// h2::SendStream; `sent`: the octets given to it, `ended`: the end of stream was sent
    #[verifier::external_body]
    pub struct SendStream { p: u8 }
    pub open spec fn ssame(a: SendStream, b: SendStream) -> bool { a.sent() == b.sent() && a.ended() == b.ended() }
    impl SendStream {
        pub uninterp spec fn sent(&self) -> Seq<u8>;
        pub uninterp spec fn ended(&self) -> bool;
        #[verifier::external_body]
        pub fn reserve_capacity(&mut self, n: usize) ensures ssame(*old(self), *final(self)) { unimplemented!() }
        #[verifier::external_body]
        pub fn capacity(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_capacity(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Result<usize, Error>>>) ensures ssame(*old(self), *final(self)) { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_reset(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<Reason, Error>>) ensures ssame(*old(self), *final(self)) { unimplemented!() }
        /// nothing may follow the end of the stream
        #[verifier::external_body]
        pub fn send_data(&mut self, b: SendBuf, end: bool) -> (r: Result<(), Error>)
            requires !old(self).ended()
            ensures match r { Ok(_) => final(self).sent() == old(self).sent() + b.octets() && final(self).ended() == end, Err(_) => ssame(*old(self), *final(self)) } { unimplemented!() }
    }
}
use h2::{RecvStream, SendStream};
/// futures_channel::mpsc: `flow` is everything ever put in, in order; the receiver has taken the first `taken` of it
pub mod mpsc {
    use vstd::prelude::*;
    use super::{Context, Poll, BoxCur};
    #[verifier::external_body]
    pub struct Sender { p: u8 }
    impl Sender {
        pub uninterp spec fn flow(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn poll_ready(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), u8>>) ensures final(self).flow() == old(self).flow() { unimplemented!() }
        #[verifier::external_body]
        pub fn start_send(&mut self, c: BoxCur) -> (r: Result<(), u8>) ensures final(self).flow() == (if r is Ok { old(self).flow() + c@ } else { old(self).flow() }) { unimplemented!() }
        #[verifier::external_body]
        pub fn close_channel(&mut self) ensures final(self).flow() == old(self).flow() { unimplemented!() }
    }
    /// `rest`: the octets still in the channel or yet to be put into it
    #[verifier::external_body]
    pub struct Receiver { p: u8 }
    impl Receiver {
        pub uninterp spec fn rest(&self) -> Seq<u8>;
        /// the writing side, running concurrently, has said that nothing more will be put into it
        pub uninterp spec fn closing(&self) -> bool;
        #[verifier::external_body]
        pub fn size_hint(&mut self) -> (r: (usize, Option<usize>)) ensures final(self).rest() == old(self).rest(), old(self).closing() && r.0 == 0 ==> final(self).rest().len() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn poll_next(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<BoxCur>>)
            ensures match r {
                Poll::Ready(Some(c)) => old(self).rest() == c@ + final(self).rest(),
                Poll::Ready(None) => old(self).rest().len() == 0 && final(self).rest().len() == 0,
                Poll::Pending => final(self).rest() == old(self).rest(),
            } { unimplemented!() }
    }
}
pub mod oneshot {
    use vstd::prelude::*;
    use super::{Context, Poll, Error};
    #[verifier::external_body]
    pub struct Receiver { p: u8 }
    impl Receiver {
        #[verifier::external_body]
        pub fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<Error, u8>>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Sender { p: u8 }
}
/// Arc<UpgradedCloseNotify>: set by the writing side once nothing more will be put into the channel
#[verifier::external_body]
pub struct UpgradedCloseNotify { p: u8 }
impl UpgradedCloseNotify {
    #[verifier::external_body]
    pub fn close(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_closed(&self, rx: &mut mpsc::Receiver, cx: &mut Context<'_>) -> (r: Poll<()>) ensures final(rx).rest() == old(rx).rest(), r is Ready ==> final(rx).closing() { unimplemented!() }
}
//@ source src/proto/h2/upgrade.rs
//@ noauto close poll_closed
//@ gsubst `let mut me = self.project();` => `let me = self;`
//@ gsubst `crate::Error::new_body_write($e)` => `vx_bw($e)`
//@ gsubst `.map_err(crate::Error::new_body_write)?` => `.vx_bw_err()?`
//@ gsubst `::h2::Error::from(reason,)` => `reason`
//@ gsubst `::h2::Error::from(reason)` => `reason`
//@ gsubst `me.rx.as_mut()` => `me.rx`
//@ gsubst `me.close_notify.poll_closed(cx)` => `me.close_notify.vx_closed(&mut me.rx, cx)`
//@ gsubst `mut self: Pin<&mut Self>` => `&mut self`
//@ gsubst `self: Pin<&mut Self>` => `&mut self`
//@ gsubst `std::io::Error::new($k, $e)` => `vx_io_error($e)`
//@ gsubst `std::io::ErrorKind::BrokenPipe.into()` => `vx_io_error(0u8)`
//@ gsubst `Err(h2_to_io_error($e))` => `Err(vx_io_error($e))`
//@ gsubst `Err(io_error($e))` => `Err(vx_io_error($e))`
//@ gsubst `std::io::Error` => `io::Error`
//@ gsubst `std::cmp::$f` => `cmp::$f`
//@ gsubst `.flow_control().release_capacity($n)` => `.vx_release($n)`
//@ gsubst `&self.buf[..$n]` => `vx_bsub(&self.buf, 0, $n)`
//@ gsubst `Cursor::new(buf.into())` => `vx_boxcur(buf)`
//@ gsubst `Pin::new(&mut self.send_stream.error_rx).poll(cx)` => `self.send_stream.error_rx.poll(cx)`
//@ gsubst `mpsc::Sender<Cursor<Box<[u8]>>>` => `mpsc::Sender`
//@ gsubst `oneshot::Receiver<crate::Error>` => `oneshot::Receiver`
//@ gsubst `Arc<UpgradedCloseNotify>` => `UpgradedCloseNotify`
//@ gsubst `crate::Error` => `Error`
//@ gsubst `SendStream<SendBuf<B>>` => `SendStream`
//@ gsubst `mpsc::Receiver<Cursor<Box<[u8]>>>` => `mpsc::Receiver`
//@ gsubst `oneshot::Sender<Error>` => `oneshot::Sender`
//@ gsubst `pub struct UpgradedSendStreamTask<B>` => `pub struct UpgradedSendStreamTask`
//@ item struct H2Upgraded
//@ item struct UpgradedSendStreamBridge
//@ item struct UpgradedSendStreamTask
impl H2Upgraded {
    /// the octets this side of the tunnel can still read
    pub open spec fn unread(&self) -> Seq<u8> { self.buf@ + self.recv_stream.left() }
}
/// A read hands over first octets of what is unread, and none only at the end.
#[verifier::prophetic]
pub open spec fn hread(o: H2Upgraded, n: H2Upgraded, ob: ReadBuf, nb: ReadBuf, r: Poll<Result<(), io::Error>>) -> bool {
    let k = nb.filled - ob.filled;
    same_mem(ob, nb) && nb.ok() && nb.init >= ob.init && 0 <= k <= o.unread().len() && nb.data() =~= ob.data() + o.unread().take(k) && n.unread() =~= o.unread().skip(k)
    && n.send_stream == o.send_stream && (!rok(r) ==> k == 0) && (rok(r) && k == 0 && ob.filled < ob.cap() ==> n.unread().len() == 0)
}
//@ impl <Read for H2Upgraded> `impl H2Upgraded`
//@ fn poll_read attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires read_buf.rb().ok()
    ensures hread(*old(self), *final(self), read_buf.rb(), *final(read_buf.buf), r)
//@ loop 0
    invariant self.buf == old(self).buf, self.buf@.len() == 0, self.send_stream == old(self).send_stream, self.recv_stream.left() == old(self).recv_stream.left()
//@ endimpl
/// A write that says it took the octets put exactly them into the channel, behind those put there before.
//@ impl <Write for H2Upgraded> `impl H2Upgraded`
//@ fn poll_write
    ensures final(self).unread() == old(self).unread(), match r {
        Poll::Ready(Ok(n)) => n == buf@.len() && final(self).send_stream.tx.flow() =~= old(self).send_stream.tx.flow() + buf@,
        _ => final(self).send_stream.tx.flow() == old(self).send_stream.tx.flow() }
//@ fn poll_flush
    ensures final(self).unread() == old(self).unread(), final(self).send_stream.tx.flow() == old(self).send_stream.tx.flow()
//@ fn poll_shutdown
    ensures final(self).unread() == old(self).unread(), final(self).send_stream.tx.flow() == old(self).send_stream.tx.flow()
//@ endimpl
/// The task moves what the channel yields into the stream, in order, and ends the stream only behind all of it.
impl UpgradedSendStreamTask {
    pub open spec fn moved(o: Self, n: Self) -> bool { n.h2_tx.sent() + n.rx.rest() =~= o.h2_tx.sent() + o.rx.rest() }
}
//@ fn UpgradedSendStreamTask::tick impl="impl UpgradedSendStreamTask" attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires !old(self).h2_tx.ended()
    ensures !(r is Ready && r->Ready_0 is Err) ==> UpgradedSendStreamTask::moved(*old(self), *final(self)), r is Ready && r->Ready_0 is Ok ==> final(self).h2_tx.ended(), final(self).h2_tx.ended() ==> final(self).rx.rest().len() == 0, r is Pending ==> !final(self).h2_tx.ended()
//@ loop 0
    invariant !me.h2_tx.ended(), me.h2_tx.sent() + me.rx.rest() =~= old(self).h2_tx.sent() + old(self).rx.rest()
//@ loop 1
    invariant !me.h2_tx.ended(), me.h2_tx.sent() + me.rx.rest() =~= old(self).h2_tx.sent() + old(self).rx.rest()
//@ end
} // verus!
fn main() {}
