} // verus!
// R2/R6 for `Poll<Result<..>>`: `?` as the Try impl of Poll, map_err as Poll's own
macro_rules! poll_q { ($e:expr) => { match $e { Poll::Ready(Ok(t)) => Poll::Ready(t), Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Pending => Poll::Pending } } }
macro_rules! inl_res_or_else { ($e:expr ; $p:pat => $b:expr) => { match $e { Ok(t) => Ok(t), Err($p) => $b } } }
macro_rules! inl_poll_map_err { ($e:expr ; $p:pat => $b:expr) => { match $e { Poll::Ready(Ok(t)) => Poll::Ready(Ok(t)), Poll::Ready(Err($p)) => Poll::Ready(Err($b)), Poll::Pending => Poll::Pending } } }
verus! {
// ---- the dispatcher (src/proto/h1/dispatch.rs) -------------------------------------
impl<T> Frame<T> {
    pub fn into_data(self) -> (r: Result<T, Frame<T>>) ensures self is Data <==> r is Ok, r matches Ok(t) ==> self == Frame::Data(t) { match self { Frame::Data(b) => Ok(b), f => Err(f) } }
    pub fn into_trailers(self) -> (r: Result<HeaderMap, Frame<T>>) ensures self is Trailers <==> r is Ok, r matches Ok(t) ==> self == Frame::<T>::Trailers(t) { match self { Frame::Trailers(b) => Ok(b), f => Err(f) } }
}
/// `.unwrap_or_else(|_| unreachable!())`
pub trait VxSure<T> { spec fn sure(&self) -> Option<T>; fn vx_sure(self) -> (r: T) requires self.sure() is Some ensures self.sure() == Some(r); }
impl<T, E> VxSure<T> for Result<T, E> {
    open spec fn sure(&self) -> Option<T> { match self { Ok(t) => Some(*t), Err(_) => None } }
    fn vx_sure(self) -> T { match self { Ok(t) => t, Err(_) => vnever() } }
}
pub struct SizeHint { pub lo: u64, pub up: Option<u64> }
impl SizeHint { pub fn exact(&self) -> (r: Option<u64>) ensures r == (if self.up == Some(self.lo) { self.up } else { None }) { match self.up { Some(u) => if u == self.lo { Some(u) } else { None }, None => None } } }
/// http_body::Body: the application's outgoing body
pub trait Body: Sized {
    type Data: Buf;
    type Error;
    /// octets delivered to hyper so far
    spec fn sent(&self) -> Seq<u8>;
    /// it has said that nothing more comes
    spec fn over(&self) -> bool;
    fn poll_frame(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Result<Frame<Self::Data>, Self::Error>>>)
        ensures
            match r { Poll::Ready(Some(Ok(Frame::Data(b)))) => final(self).sent() == old(self).sent() + b.bytes(), _ => final(self).sent() == old(self).sent() },
            match r { Poll::Ready(Some(Ok(Frame::Trailers(_)))) => final(self).over(), Poll::Ready(None) => final(self).over(), _ => true };
    fn is_end_stream(&self) -> (r: bool) ensures r ==> self.over();
    fn size_hint(&self) -> SizeHint;
}
#[verifier::external_body] pub struct Dispatched2 { p: u8 }
/// body::Incoming (unit `body`); the length it announces
#[verifier::external_body] pub struct IncomingBody { p: u8 }
impl IncomingBody {
    pub uninterp spec fn announced(&self) -> DecodedLength;
    #[verifier::external_body] pub fn empty() -> (r: IncomingBody) ensures r.announced() == DecodedLength::ZERO { unimplemented!() }
    #[verifier::external_body] pub fn new_channel(len: DecodedLength, wanter: bool) -> (r: (Sender, IncomingBody))
        ensures r.1.announced() == len, r.0.len() == len, r.0.waits() == wanter, r.0.sent() == Seq::<u8>::empty(), !r.0.errored(), !r.0.trailed() { unimplemented!() }
}
/// body::Sender (unit `body`): the feeding end of the channel to the application
#[verifier::external_body] pub struct Sender { p: u8 }
impl Sender {
    /// octets put into the channel
    pub uninterp spec fn sent(&self) -> Seq<u8>;
    pub uninterp spec fn len(&self) -> DecodedLength;
    /// nothing may be read for it before the application has polled
    pub uninterp spec fn waits(&self) -> bool;
    pub uninterp spec fn errored(&self) -> bool;
    pub uninterp spec fn trailed(&self) -> bool;
    /// the receiving end was dropped
    pub uninterp spec fn gone(&self) -> bool;
    /// there is room for a chunk
    pub uninterp spec fn ready(&self) -> bool;
    pub open spec fn like(&self, b: Sender) -> bool { self.sent() == b.sent() && self.len() == b.len() && self.waits() == b.waits() && self.errored() == b.errored() && self.trailed() == b.trailed() }
    #[verifier::external_body] pub fn send_error(&mut self, e: Error) ensures final(self).errored() { unimplemented!() }
}
/// a body channel of an announced length that may end without an error: the decoder saw the end and every octet of it was put in
pub open spec fn whole(tx: Sender) -> bool { exists|e: Decoder| #[trigger] e.over() && e.dok() && e.given() == tx.sent() && e.dlen() == tx.len() }
pub open spec fn rightly_dropped(tx: Sender) -> bool { whole(tx) || tx.errored() || tx.gone() }
/// such a channel delivers exactly the announced number of octets
pub proof fn theorem_kept(tx: Sender)
    requires whole(tx)
    ensures known(tx.len()) matches Some(n) ==> tx.sent().len() == n
{ }
/// SenderDropGuard, with a ghost record of the sender it last let go of (dropped: the
/// application sees the end of the body)
pub struct SenderDropGuard { pub v: Option<Sender>, pub last: Ghost<Option<Sender>> }
/// a sender taken out of the guard, and whether it is put back
pub struct Lent<'a> { pub tx: &'a mut Sender, pub back: &'a mut bool }
impl SenderDropGuard {
    #[verifier::external_body] pub fn none() -> (r: Self) ensures r.v is None, r.last@ is None { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, t: Sender) ensures final(self).v == Some(t), final(self).last@ == (if old(self).v is Some { old(self).v } else { old(self).last@ }) { unimplemented!() }
    /// `take()`, the drop of what was taken where it goes out of scope unless `set` again
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Option<Lent<'_>>)
        ensures
            (r is Some) == (old(self).v is Some),
            r is None ==> *final(self) == *old(self),
            r matches Some(b) ==> *b.tx == old(self).v->0 && *b.back == false && (if *final(b.back) { final(self).v == Some(*final(b.tx)) && final(self).last == old(self).last } else { final(self).v is None && final(self).last@ == Some(*final(b.tx)) }),
    { unimplemented!() }
}
impl<'a> Lent<'a> {
    #[verifier::prophetic]
    pub open spec fn held(a: Self, b: Self) -> bool { *final(b.tx) == *final(a.tx) && *final(b.back) == *final(a.back) && *b.back == *a.back }
    /// `self.body_tx.set(body)`
    #[verifier::external_body] pub fn vx_back(self) ensures *final(self.back), *final(self.tx) == *old(self.tx) { unimplemented!() }
    #[verifier::external_body] pub fn poll_ready(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), Error>>)
        ensures Lent::held(*old(self), *final(self)), final(self).tx.like(*old(self).tx), match r {
            Poll::Ready(Ok(_)) => final(self).tx.ready() && (old(self).tx.waits() ==> final(cx).asked()),
            Poll::Ready(Err(_)) => final(self).tx.gone(),
            Poll::Pending => true,
        } { unimplemented!() }
    #[verifier::external_body] pub fn try_send_data(&mut self, chunk: Bytes) -> (r: Result<(), Bytes>)
        requires old(self).tx.ready() //#C03,C18
        ensures Lent::held(*old(self), *final(self)), match r {
            Ok(_) => final(self).tx.sent() == old(self).tx.sent() + chunk@ && final(self).tx.len() == old(self).tx.len() && final(self).tx.waits() == old(self).tx.waits() && final(self).tx.errored() == old(self).tx.errored() && final(self).tx.trailed() == old(self).tx.trailed(),
            Err(_) => final(self).tx.gone(),
        } { unimplemented!() }
    #[verifier::external_body] pub fn try_send_trailers(&mut self, t: HeaderMap) -> (r: Result<(), Option<HeaderMap>>)
        requires !old(self).tx.trailed() //#C18
        ensures Lent::held(*old(self), *final(self)), match r {
            Ok(_) => final(self).tx.sent() == old(self).tx.sent() && final(self).tx.len() == old(self).tx.len() && final(self).tx.trailed(),
            Err(_) => final(self).tx.gone(),
        } { unimplemented!() }
    #[verifier::external_body] pub fn send_error(&mut self, e: Error) ensures Lent::held(*old(self), *final(self)), final(self).tx.errored() { unimplemented!() }
}
/// Pin<Box<Option<Bs>>>, with a ghost record of the body it last let go of
#[verifier::reject_recursive_types(Bs)]
pub struct BodySlot<Bs> { pub v: Option<Bs>, pub last: Ghost<Option<Bs>> }
impl<Bs> BodySlot<Bs> {
    #[verifier::external_body] pub fn vx_none() -> (r: Self) ensures r.v is None, r.last@ is None { unimplemented!() }
    pub fn is_none(&self) -> (r: bool) ensures r == (self.v is None) { match self.v { None => true, Some(_) => false } }
    pub fn is_some(&self) -> (r: bool) ensures r == (self.v is Some) { match self.v { None => false, Some(_) => true } }
    #[verifier::external_body] pub fn set(&mut self, x: Option<Bs>) ensures final(self).v == x, final(self).last@ == old(self).v { unimplemented!() }
    /// `OptGuard::new(self.as_mut()).guard_mut()`: the slot is cleared when the guard is dropped, if the flag is set then
    #[verifier::external_body]
    pub fn vx_guard(&mut self) -> (r: (Option<&mut Bs>, &mut bool))
        ensures
            (r.0 is Some) == (old(self).v is Some), *r.1 == false,
            r.0 is None ==> *final(self) == *old(self),
            r.0 matches Some(b) ==> *b == old(self).v->0 && (if *final(r.1) { final(self).v is None && final(self).last@ == Some(*final(b)) } else { final(self).v == Some(*final(b)) && final(self).last == old(self).last }),
    { unimplemented!() }
    /// the body of the message being written; none: it had no octets
    pub open spec fn now(&self) -> Option<Bs> { if self.v is Some { self.v } else { self.last@ } }
}
pub open spec fn body_sent<Bs: Body>(s: BodySlot<Bs>) -> Seq<u8> { match s.now() { Some(b) => b.sent(), None => Seq::<u8>::empty() } }
pub open spec fn body_over<Bs: Body>(s: BodySlot<Bs>) -> bool { match s.now() { Some(b) => b.over(), None => true } }
/// the message was ended rightly: all the announced octets were taken, or the body was over and nothing was missing
pub open spec fn ended_rightly<Bs: Body>(s: BodySlot<Bs>) -> bool {
    ||| exists|f: Encoder| f.over() && #[trigger] f.taken() == body_sent(s)
    ||| body_over(s) && exists|f: Encoder| f.endable() && #[trigger] f.taken() == body_sent(s)
    ||| body_over(s) && exists|f: Encoder, c: Seq<u8>| #[trigger] ended_well(f, c) && f.taken() + c == body_sent(s)
}
/// the sending direction: what the encoder took is what the body delivered, and a message is only ended when its body is
pub open spec fn sending<Bs: Body>(s: BodySlot<Bs>, w: Writing) -> bool {
    match w {
        Writing::Body(e) => e.taken() == body_sent(s) && (s.v is None ==> body_over(s)),
        Writing::KeepAlive => ended_rightly(s),
        _ => true,
    }
}
/// the receiving direction: the application's channel holds what the decoder delivered, and ends without an error only at its end
pub open spec fn receiving(g: SenderDropGuard, a: Reading, closing: bool) -> bool {
    &&& cur(a) is Some ==> g.v is Some
    &&& g.v matches Some(tx) ==> closing || match cur(a) { Some(d) => tx.sent() == d.given() && tx.len() == d.dlen() && !tx.errored() && !tx.trailed(), None => whole(tx) }
    &&& g.last@ matches Some(tx) ==> rightly_dropped(tx)
}
/// the sender of a request that expects 100 Continue is one that waits for the application to ask
pub open spec fn waiting(g: SenderDropGuard, a: Reading, closing: bool) -> bool { a is Continue && !closing ==> g.v is Some && g.v->0.waits() }
pub trait Dispatch: Sized {
    type PollItem;
    type PollBody: Body;
    type PollError;
    type RecvItem;
    spec fn server() -> bool;
    /// a server: a request was delivered and its response is awaited
    spec fn awaits(&self) -> bool;
    /// the application asked for no more
    spec fn gone(&self) -> bool;
    /// heads handed on, with the length their bodies announce
    spec fn got(&self) -> Seq<(Self::RecvItem, DecodedLength)>;
    fn poll_msg(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Result<(Self::PollItem, Self::PollBody), Self::PollError>>>)
        requires old(self).awaits(), !old(self).gone() //#C12
        ensures
            final(self).got() == old(self).got(), final(self).gone() ==> r matches Poll::Ready(None),
            r matches Poll::Ready(Some(Ok((_, b)))) ==> b.sent() == Seq::<u8>::empty() && (Self::server() ==> !final(self).awaits());
    fn recv_msg(&mut self, msg: Result<(Self::RecvItem, IncomingBody), Error>) -> (r: Result<(), Error>)
        ensures
            final(self).gone() == old(self).gone(), msg is Err && Self::server() ==> final(self).awaits() == old(self).awaits() && r is Err,
            final(self).got() == (match msg { Ok((h, b)) => if r is Ok { old(self).got().push((h, b.announced())) } else { old(self).got() }, _ => old(self).got() });
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), ()>>)
        ensures final(self).gone() == old(self).gone(), final(self).got() == old(self).got(), final(self).awaits() == old(self).awaits(), Self::server() && (r matches Poll::Ready(Ok(_))) ==> !final(self).awaits(), Self::server() && r is Pending ==> final(self).awaits();
    fn should_poll(&self) -> (r: bool) ensures r == self.awaits();
}
impl Error {
    #[verifier::external_body] pub fn new_user_service<E>(e: E) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn new_user_body<E>(e: E) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn new_body<E>(e: E) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn new_body_write(e: io::Error) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn new_shutdown(e: io::Error) -> Error { unimplemented!() }
}
impl Extensions {
    /// a freshly parsed head carries no upgrade
    #[verifier::external_body] pub fn vx_no_upgrade(&self) -> (r: bool) ensures r { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, u: upgrade::OnUpgrade) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_yield(cx: &mut Context<'_>) -> (r: Poll<Result<(), Error>>) ensures r is Pending { unimplemented!() }
pub proof fn lemma_none_added() ensures forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 ==> #[trigger] (a + b) == a
{ assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); } }
pub enum Dispatched { Shutdown, Upgrade(upgrade::Pending) }
//@ source src/proto/h1/dispatch.rs
//@ noauto set take none
//@ gsubst `+ Unpin` => ``
//@ gsubst `+ 'static` => ``
//@ gsubst `D::PollError: Into<Box<dyn StdError + Send + Sync>>,` => ``
//@ gsubst `Bs::Error: Into<Box<dyn StdError + Send + Sync>>,` => ``
//@ gsubst `crate::Result<$t>` => `Result<$t, Error>`
//@ gsubst `crate::Error` => `Error`
//@ gsubst `Pin<Box<Option<Bs>>>` => `BodySlot<Bs>`
//@ gsubst `Box::pin(None)` => `BodySlot::vx_none()`
//@ gsubst @poll_read `self.body_tx.set($x)` => `$x.vx_back()`
//@ gsubst `.unwrap_or_else(|_| unreachable!())` => `.vx_sure()`
//@ gsubst `Pin::new(&mut self.dispatch)` => `self.dispatch`
//@ gsubst `OptGuard::new(self.body_rx.as_mut()).guard_mut()` => `self.body_rx.vx_guard()`
//@ gsubst `body.as_mut().poll_frame(cx)` => `body.poll_frame(cx)`
//@ gsubst `self.poll_read(cx)?` => `poll_q!(self.poll_read(cx))`
//@ gsubst `self.poll_write(cx)?` => `poll_q!(self.poll_write(cx))`
//@ gsubst `self.poll_flush(cx)?` => `poll_q!(self.poll_flush(cx))`
//@ gsubst `task::yield_now(cx).map(|never| match never {})` => `vx_yield(cx)`
//@ gsubst `head.extensions.get::<OnUpgrade>().is_none()` => `head.extensions.vx_no_upgrade()`
//@ gsubst `Pin::new(self).poll_catch(cx, false)` => `self.poll_catch(cx, false)`
//@ gsubst `.map(BodyLength::Known)` => `.map(|n| BodyLength::Known(n))`
//@ item struct Dispatcher attr="reject_recursive_types(Bs);reject_recursive_types(I);reject_recursive_types(T)"
impl<D: Dispatch<PollItem = MessageHead<T::Outgoing>, PollBody = Bs, RecvItem = MessageHead<T::Incoming>>, Bs: Body, I: Read + Write, T: Http1Transaction> Dispatcher<D, Bs, I, T> {
    /// no body of the application's was let go of that ended early without an error
    pub open spec fn rx_ok(&self) -> bool { self.body_tx.last@ matches Some(tx) ==> rightly_dropped(tx) }
    /// no message was ended as complete whose body is not
    pub open spec fn tx_ok(&self) -> bool { self.conn.state.writing is KeepAlive ==> ended_rightly(self.body_rx) }
    pub open spec fn ds(&self) -> bool {
        &&& self.conn.cinv()
        &&& D::server() == T::server()
        &&& T::server() && self.dispatch.awaits() ==> self.conn.state.cached_headers is None
        &&& self.is_closing ==> shut(self.conn.state)
        &&& self.dispatch.gone() ==> self.is_closing
    }
    pub open spec fn dw(&self) -> bool { sending(self.body_rx, self.conn.state.writing) }
    pub open spec fn dr(&self) -> bool { receiving(self.body_tx, self.conn.state.reading, self.is_closing) }
    /// no connection goes on once the deadline of a head has passed
    pub open spec fn dt(&self) -> bool { &&& clock_ok(self.conn.state) &&& (D::server() || self.conn.state.h1_header_read_timeout is None) &&& (self.conn.state.h1_header_read_timeout_fut matches Some(f) ==> !f.done()) }
    pub open spec fn dc(&self) -> bool { waiting(self.body_tx, self.conn.state.reading, self.is_closing) }
}
//@ fn Dispatcher::new
    requires conn.cinv(), conn.state.reading is Init, conn.state.writing is Init, conn.state.cached_headers is None, D::server() == T::server(), !dispatch.gone(), //#C12
        clock_ok(conn.state), D::server() || conn.state.h1_header_read_timeout is None, conn.state.h1_header_read_timeout_fut is None //#C33
    ensures
        r.ds(), //#C12
        r.dw(), //#C07,C08
        r.dr(), //#C03,C18
        r.dc(), //#C22
        r.dt(), //#C33
//@ fn Dispatcher::disable_keep_alive
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        final(self).ds(), //#C12
        final(self).dw(), //#C07,C08
        final(self).dr(), //#C03,C18
        final(self).dc(), //#C22
        final(self).dt(), //#C33
        final(self).conn.state.doomed(), //#C12
//@ fn Dispatcher::poll_read attr="exec_allows_no_decreases_clause"
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        r matches Poll::Ready(Err(_)) || final(self).ds(), //#C12
        r matches Poll::Ready(Err(_)) || final(self).dw(), //#C07,C08
        r matches Poll::Ready(Err(_)) || final(self).dr(), //#C03,C18
        r matches Poll::Ready(Err(_)) || final(self).dc(), //#C22
        r matches Poll::Ready(Err(_)) && D::server() || final(self).dt(), //#C33
        final(self).rx_ok(), //#C03,C18
        final(self).tx_ok(), //#C07,C08
        // a head that is due is awaited, unless its predecessor is not answered yet
        r matches Poll::Ready(Err(_)) || final(self).is_closing || final(self).dispatch.awaits() || awaited(final(self).conn.state), //#C33
//@ loop 0
    invariant
        self.ds(), //#C12
        self.dw(), //#C07,C08
        self.dr(), //#C03,C18
        self.dc(), //#C22
        self.dt(), //#C33
//@ fn Dispatcher::poll_read_head
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
        old(self).conn.can_head(), !old(self).is_closing //#C12
    ensures
        r matches Poll::Ready(Err(_)) || final(self).ds(), //#C12
        r matches Poll::Ready(Err(_)) || final(self).dw(), //#C07,C08
        r matches Poll::Ready(Err(_)) || final(self).dr(), //#C03,C18
        r matches Poll::Ready(Err(_)) || final(self).dc(), //#C22
        r matches Poll::Ready(Err(_)) && D::server() || final(self).dt(), //#C33
        final(self).rx_ok(), //#C03,C18
        final(self).tx_ok(), //#C07,C08
        // a head is handed on once, as it was parsed, with the length its framing gives the body
        final(self).dispatch.got() == old(self).dispatch.got() || exists|m: ParsedMessage<T::Incoming>, h: MessageHead<T::Incoming>| #[trigger] parsed(old(self).conn.io.rbuf(), m)
            && h.version == m.head.version && h.subject == m.head.subject && h.headers == m.head.headers && #[trigger] old(self).dispatch.got().push((h, m.decode)) == final(self).dispatch.got(), //#C18
        r is Pending ==> final(self).dispatch.awaits() || awaited(final(self).conn.state), //#C33
//@ fn Dispatcher::poll_write attr="exec_allows_no_decreases_clause" combin="map_err"
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        r matches Poll::Ready(Err(_)) || final(self).ds(), //#C12
        r matches Poll::Ready(Err(_)) || final(self).dw(), //#C07,C08
        r matches Poll::Ready(Err(_)) || final(self).dr(), //#C03,C18
        r matches Poll::Ready(Err(_)) || final(self).dc(), //#C22
        r matches Poll::Ready(Err(_)) && D::server() || final(self).dt(), //#C33
        final(self).rx_ok(), //#C03,C18
        final(self).tx_ok(), //#C07,C08
//@ ghost start
proof { lemma_none_added(); }
//@ loop 0
    invariant
        self.ds(), //#C12
        self.dw(), //#C07,C08
        self.dr(), //#C03,C18
        self.dc(), //#C22
        self.dt(), //#C33
//@ fn Dispatcher::poll_flush combin="map_err=poll_map_err"
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        final(self).ds(), //#C12
        final(self).dw(), //#C07,C08
        final(self).dr(), //#C03,C18
        final(self).dc(), //#C22
        final(self).dt(), //#C33
        final(self).is_closing == old(self).is_closing, //#C12
//@ fn Dispatcher::close
    requires
        old(self).conn.cinv(), D::server() == T::server(), T::server() && old(self).dispatch.awaits() ==> old(self).conn.state.cached_headers is None, //#C12
        old(self).dr(), //#C03,C18
        old(self).dt(), //#C33
    ensures
        final(self).ds(), //#C12
        final(self).dw(), //#C07,C08
        final(self).dr(), //#C03,C18
        final(self).dc(), //#C22
        final(self).dt(), //#C33
        final(self).is_closing, final(self).dispatch == old(self).dispatch, //#C12
//@ fn Dispatcher::can_write_again
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        final(self).ds(), //#C12
        final(self).dw(), //#C07,C08
        final(self).dr(), //#C03,C18
        final(self).dc(), //#C22
        final(self).dt(), //#C33
//@ fn Dispatcher::is_done
    ensures r ==> self.is_closing || self.conn.state.reading is Closed, //#C12
//@ fn Dispatcher::poll_loop attr="exec_allows_no_decreases_clause"
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        r matches Poll::Ready(Err(_)) || final(self).ds(), //#C12
        r matches Poll::Ready(Err(_)) || final(self).dw(), //#C07,C08
        r matches Poll::Ready(Err(_)) || final(self).dr(), //#C03,C18
        r matches Poll::Ready(Err(_)) || final(self).dc(), //#C22
        r matches Poll::Ready(Err(_)) && D::server() || final(self).dt(), //#C33
        final(self).rx_ok(), //#C03,C18
        final(self).tx_ok(), //#C07,C08
//@ loop 0
    invariant
        self.ds(), //#C12
        self.dw(), //#C07,C08
        self.dr(), //#C03,C18
        self.dc(), //#C22
        self.dt(), //#C33
//@ fn Dispatcher::poll_inner
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        r matches Poll::Ready(Err(_)) || final(self).ds(), //#C12
        r matches Poll::Ready(Err(_)) || final(self).dw(), //#C07,C08
        r matches Poll::Ready(Err(_)) || final(self).dr(), //#C03,C18
        r matches Poll::Ready(Err(_)) || final(self).dc(), //#C22
        r matches Poll::Ready(Err(_)) && D::server() || final(self).dt(), //#C33
        r matches Poll::Ready(Ok(_)) ==> final(self).is_closing || final(self).conn.state.reading is Closed, //#C12
        final(self).rx_ok(), //#C03,C18
        final(self).tx_ok(), //#C07,C08
//@ fn Dispatcher::poll_catch combin="or_else=res_or_else"
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        r is Pending ==> final(self).ds(), //#C12
        r is Pending ==> final(self).dw(), //#C07,C08
        r is Pending ==> final(self).dr(), //#C03,C18
        r is Pending ==> final(self).dc(), //#C22
        r matches Poll::Ready(Err(_)) || final(self).dt(), //#C33
        // however the connection ends, a body the application is reading ends without an error only if it is whole
        final(self).rx_ok(), //#C03,C18
        final(self).tx_ok(), //#C07,C08
//@ fn Dispatcher::poll_without_shutdown combin="map_ok"
    requires
        old(self).ds(), //#C12
        old(self).dw(), //#C07,C08
        old(self).dr(), //#C03,C18
        old(self).dc(), //#C22
        old(self).dt(), //#C33
    ensures
        r is Pending ==> final(self).ds(), //#C12
        r is Pending ==> final(self).dw(), //#C07,C08
        r is Pending ==> final(self).dr(), //#C03,C18
        r is Pending ==> final(self).dc(), //#C22
        r matches Poll::Ready(Err(_)) || final(self).dt(), //#C33
//@ fn Dispatcher::into_inner
    ensures r.1@ == self.conn.io.rbuf() //#C14
