//@ include prelude.rs
verus! {
// ---- time, as the user's Timer tells it ------------------------------------------
pub struct Duration { pub p: Ghost<nat> }
impl Copy for Duration {} impl Clone for Duration { fn clone(&self) -> (r: Duration) ensures r == *self { *self } }
pub struct Instant { pub p: Ghost<int> }
impl Copy for Instant {} impl Clone for Instant { fn clone(&self) -> (r: Instant) ensures r == *self { *self } }
impl Duration { pub open spec fn len(&self) -> nat { self.p@ } }
impl Instant {
    pub open spec fn at(&self) -> int { self.p@ }
    /// the timer's clock showed it
    pub uninterp spec fn shown(&self) -> bool;
    pub fn duration_since(&self, d: Instant) -> (r: Duration) ensures r.len() == if self.at() >= d.at() { self.at() - d.at() } else { 0 } { Duration { p: Ghost(if self.p@ >= d.p@ { (self.p@ - d.p@) as nat } else { 0 }) } }
    pub fn saturating_duration_since(&self, d: Instant) -> (r: Duration) ensures r.len() == if self.at() >= d.at() { self.at() - d.at() } else { 0 } { Duration { p: Ghost(if self.p@ >= d.p@ { (self.p@ - d.p@) as nat } else { 0 }) } }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Instant { Instant { p: Ghost(self.at() + d.len()) } }
}
impl core::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> (r: Instant) { Instant { p: Ghost(self.p@ + d.p@) } } }
impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, d: Instant) -> bool { true }
    open spec fn sub_spec(self, d: Instant) -> Duration { Duration { p: Ghost(if self.at() >= d.at() { (self.at() - d.at()) as nat } else { 0 }) } }
}
impl core::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, d: Instant) -> (r: Duration) { Duration { p: Ghost(if self.p@ >= d.p@ { (self.p@ - d.p@) as nat } else { 0 }) } } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.at() == o.at() }
}
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Instant) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<core::cmp::Ordering> { if self.at() < o.at() { Some(core::cmp::Ordering::Less) } else if self.at() == o.at() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, o: &Instant) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
/// a Sleep of the timer: completes at its deadline
#[verifier::external_body] pub struct VxSleep { p: u8 }
impl VxSleep {
    pub uninterp spec fn at(&self) -> int;
    /// it has completed
    pub uninterp spec fn done(&self) -> bool;
    /// polled since it was set: its completion wakes the connection
    pub uninterp spec fn heard(&self) -> bool;
    #[verifier::external_body] pub fn vx_poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<()>)
        ensures final(self).at() == old(self).at(), final(self).done() == (r is Ready), r is Pending ==> final(self).heard(), final(cx).woken() == old(cx).woken() { unimplemented!() }
}
impl<'a> Context<'a> {
    /// the task has woken itself
    pub uninterp spec fn woken(&self) -> bool;
    #[verifier::external_body] pub fn vx_wake(&mut self) ensures final(self).woken() { unimplemented!() }
}
pub mod task { pub use super::Context; }
pub struct Time { p: u8 }
impl Clone for Time { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Time {
    #[verifier::external_body] pub fn sleep(&self, d: Duration) -> VxSleep { unimplemented!() }
    #[verifier::external_body] pub fn now(&self) -> (r: Instant) ensures r.shown() { unimplemented!() }
    #[verifier::external_body] pub fn reset(&self, s: &mut VxSleep, i: Instant) ensures final(s).at() == i.at(), !final(s).done() { unimplemented!() }
}
// ---- h2's user pings: one may be outstanding ----------------------------------------
#[verifier::external_body] pub struct Ping { p: u8 }
impl Ping { #[verifier::external_body] pub fn opaque() -> Ping { unimplemented!() } }
#[verifier::external_body] pub struct Pong { p: u8 }
#[verifier::external_body] pub struct H2Error { p: u8 }
#[verifier::external_body] pub struct PingPong { p: u8 }
impl PingPong {
    /// sent, and its answer not taken
    pub uninterp spec fn out(&self) -> bool;
    /// the connection has failed
    pub uninterp spec fn broken(&self) -> bool;
    /// how often sending was asked for
    pub uninterp spec fn tries(&self) -> nat;
    /// how many answers were taken
    pub uninterp spec fn pongs(&self) -> nat;
    #[verifier::external_body] pub fn send_ping(&mut self, p: Ping) -> (r: Result<(), H2Error>)
        ensures final(self).tries() == old(self).tries() + 1, final(self).pongs() == old(self).pongs(), final(self).out() == (old(self).out() || r is Ok), r is Ok ==> !old(self).out() { unimplemented!() }
    #[verifier::external_body] pub fn poll_pong(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<Pong, H2Error>>)
        ensures final(cx).woken() == old(cx).woken(), final(self).tries() == old(self).tries(), match r {
            Poll::Ready(Ok(_)) => old(self).out() && !final(self).out() && final(self).pongs() == old(self).pongs() + 1,
            Poll::Ready(Err(_)) => final(self).broken() && final(self).out() == old(self).out() && final(self).pongs() == old(self).pongs(),
            Poll::Pending => final(self).out() == old(self).out() && final(self).pongs() == old(self).pongs(),
        } { unimplemented!() }
}
#[verifier::external_body] pub struct Error { p: u8 }
impl Error {
    /// the keep-alive timeout
    pub uninterp spec fn late(&self) -> bool;
}
impl KeepAliveTimedOut { #[verifier::external_body] pub fn crate_error(self) -> (r: Error) ensures r.late() { unimplemented!() } }
pub type WindowSize = u32;
impl Duration {
    #[verifier::external_body] pub fn from_millis(n: u64) -> (r: Duration) ensures r.len() == n * 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_micros(n: u64) -> (r: Duration) ensures r.len() == n * 1_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_nanos(n: u64) -> (r: Duration) ensures r.len() == n { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Duration) ensures r.len() == n * 1_000_000_000 { unimplemented!() }
}
//@ source src/proto/h2/ping.rs
//@ gsubst `Pin<Box<dyn Sleep>>` => `VxSleep`
//@ gsubst `Pin::new(&mut self.sleep).poll(cx)` => `self.sleep.vx_poll(cx)`
//@ gsubst `cx.waker().wake_by_ref()` => `cx.vx_wake()`
//@ gsubst `Arc<Mutex<Shared>>` => `Shared`
//@ gsubst `self.shared.lock().panic_if_poisoned()` => `&mut self.shared`
//@ gsubst `shared.lock().panic_if_poisoned()` => `shared`
//@ gsubst `self.is_idle()` => `locked.vx_alone()`
//@ gsubst @poll `&mut locked` => `&mut *locked`
//@ gsubst @poll `&locked` => `&*locked`
//@ gsubst @record_data `&self.shared` => `&mut self.shared`
//@ gsubst @record_non_data `&self.shared` => `&mut self.shared`
//@ gsubst `fn record_data(&self, $x)` => `fn record_data(&mut self, $x)`
//@ gsubst `fn record_non_data(&self)` => `fn record_non_data(&mut self)`
//@ gsubst `crate::Result<$t>` => `Result<$t, Error>`
//@ gsubst `crate::Error` => `Error`
//@ gsubst @channel `Arc::new(Mutex::new($x))` => `$x`
//@ gsubst @channel `shared.clone()` => `shared.vx_share()`
//@ gsubst @channel `Arc::clone(&shared)` => `shared.vx_share()`
//@ noauto stabilize_delay seconds crate_error
//@ item struct Config
//@ item struct Bdp
//@ item struct Recorder
//@ item struct Ponger
//@ item struct Shared
//@ item struct KeepAlive
//@ item enum KeepAliveState
//@ item enum Ponged
//@ item struct KeepAliveTimedOut
impl Bdp {
    pub open spec fn win(&self) -> u32 { self.bdp }
    /// the representation invariant (property C20, Kani)
    pub open spec fn inv(&self) -> bool { 65_535 <= self.bdp <= 16_777_216 && self.ping_delay.len() < 40_000_000_000 && self.stable_count < 2 }
}
impl Shared {
    /// both ends hold one record
    #[verifier::external_body] pub fn vx_share(&self) -> (r: Shared) ensures r == *self { unimplemented!() }
    /// only the connection itself holds it
    pub uninterp spec fn alone(&self) -> bool;
    #[verifier::external_body] pub fn vx_alone(&self) -> (r: bool) ensures r == self.alone() { unimplemented!() }
    /// a ping is counted as sent exactly while one is outstanding
    pub open spec fn ok(&self) -> bool { self.ping_sent_at is Some == self.ping_pong.out() }
    /// all but the pings and the time of the last frame
    pub open spec fn rest(a: Shared, b: Shared) -> bool { a.bytes == b.bytes && a.next_bdp_at == b.next_bdp_at && a.is_keep_alive_timed_out == b.is_keep_alive_timed_out }
    pub open spec fn asked(a: Shared, b: Shared) -> bool { &&& Shared::rest(a, b) &&& a.last_read_at == b.last_read_at &&& b.ok() &&& b.ping_pong.pongs() == a.ping_pong.pongs() &&& b.ping_pong.tries() == a.ping_pong.tries() + 1 &&& a.ping_sent_at is Some ==> b.ping_sent_at == a.ping_sent_at &&& b.ping_sent_at is Some && a.ping_sent_at is None ==> b.ping_sent_at->0.shown() }
}
impl Ponger {
    pub open spec fn ok(&self) -> bool {
        &&& self.shared.ok() &&& self.keep_alive matches Some(k) ==> k.ok() && self.shared.last_read_at is Some
        // fewer than 2^63 octets are counted between two pings
        &&& self.shared.bytes matches Some(b) ==> b <= isize::MAX
        &&& self.bdp matches Some(b) ==> b.inv() && self.shared.bytes is Some
        &&& self.shared.is_keep_alive_timed_out ==> self.keep_alive is None
    }
}
impl KeepAlive {
    /// what does not change
    pub open spec fn like(a: KeepAlive, b: KeepAlive) -> bool { a.interval == b.interval && a.timeout == b.timeout && a.while_idle == b.while_idle }
    /// asleep until some moment the clock showed, and the timeout
    pub open spec fn from_now(&self) -> bool { exists|i: Instant| #[trigger] i.shown() && self.sleep.at() == i.at() + self.timeout.len() }
    pub open spec fn ok(&self) -> bool { match self.state { KeepAliveState::Scheduled(at) => self.sleep.at() == at.at(), KeepAliveState::PingSent => self.from_now(), KeepAliveState::Init => true } }
    /// asleep until the interval after the last frame
    pub open spec fn set(&self, s: Shared) -> bool { self.state matches KeepAliveState::Scheduled(at) && at.at() == s.last_read_at->0.at() + self.interval.len() && self.sleep.at() == at.at() && !self.sleep.done() }
    pub open spec fn dead(&self) -> bool { self.state is PingSent && self.sleep.done() && self.from_now() }
}
// discharged bit-precisely by Kani (C20)
//@ fn Bdp::calculate trusted=1
    requires old(self).inv(), bytes <= isize::MAX
    ensures final(self).inv(), final(self).win() >= old(self).win(), match r { Some(w) => w == final(self).win() && w > old(self).win(), None => final(self).win() == old(self).win() }
//@ fn Config::is_enabled
    ensures r == (self.bdp_initial_window is Some || self.keep_alive_interval is Some)
//@ fn channel combin="map=opt_map"
    requires !ping_pong.out(), config.bdp_initial_window is Some || config.keep_alive_interval is Some, config.bdp_initial_window matches Some(w) ==> w == 65_535
    ensures
        r.1.ok(), r.0.shared == Some(r.1.shared), r.1.shared.ping_pong == ping_pong, !r.1.shared.is_keep_alive_timed_out,
        r.1.bdp is Some == config.bdp_initial_window is Some, r.1.bdp matches Some(b) ==> Some(b.win()) == config.bdp_initial_window, //#C20
        // no ping, and no timeout, without an interval
        match config.keep_alive_interval { Some(i) => r.1.keep_alive matches Some(k) && k.interval == i && k.timeout == config.keep_alive_timeout && k.while_idle == config.keep_alive_while_idle && k.state is Init, None => r.1.keep_alive is None }, //#C34
        (config.keep_alive_interval is Some) == (r.1.shared.last_read_at is Some), r.1.shared.last_read_at matches Some(i) ==> i.shown(), //#C34
//@ fn Recorder::record_data
    requires old(self).shared matches Some(s) ==> s.ok() && (s.bytes matches Some(b) ==> b + len <= usize::MAX)
    ensures match (old(self).shared, final(self).shared) { (Some(a), Some(b)) => b.ok() && a.is_keep_alive_timed_out == b.is_keep_alive_timed_out && a.ping_pong.pongs() == b.ping_pong.pongs()
        && (b.bytes is Some == a.bytes is Some) && if a.last_read_at is Some { b.last_read_at matches Some(i) && i.shown() } else { b.last_read_at is None }, (None, None) => true, _ => false }, //#C34
//@ fn Recorder::record_non_data
    requires old(self).shared matches Some(s) ==> s.ok()
    ensures match (old(self).shared, final(self).shared) { (Some(a), Some(b)) => b.ok() && Shared::rest(a, b) && a.ping_pong == b.ping_pong
        && if a.last_read_at is Some { b.last_read_at matches Some(i) && i.shown() } else { b.last_read_at is None }, (None, None) => true, _ => false }, //#C34
//@ fn Recorder::ensure_not_timed_out
    // the connection's requests fail with the timeout exactly once it is reached
    ensures r is Err == (self.shared matches Some(s) && s.is_keep_alive_timed_out), r matches Err(e) ==> e.late(), //#C34
//@ fn Ponger::poll
    requires old(self).ok()
    ensures
        final(self).ok(), final(self).keep_alive matches Some(k) ==> (old(self).keep_alive matches Some(j) && KeepAlive::like(j, k)),
        // a window is asked for exactly when it is the estimator's new one, which is larger
        final(self).bdp is Some == old(self).bdp is Some,
        r matches Poll::Ready(Ponged::SizeUpdate(w)) ==> final(self).bdp is Some && w == final(self).bdp->0.win() && w > old(self).bdp->0.win(), //#C20
        !(r matches Poll::Ready(Ponged::SizeUpdate(_))) ==> (final(self).bdp matches Some(b) ==> b.win() == old(self).bdp->0.win()), //#C20
        // timed out: a ping is outstanding, and the time set when it was to be sent has run out
        r matches Poll::Ready(Ponged::KeepAliveTimedOut) ==> final(self).shared.is_keep_alive_timed_out && final(self).keep_alive is None && final(self).shared.ping_pong.out()
            && final(self).shared.ping_pong.pongs() == old(self).shared.ping_pong.pongs() && old(self).keep_alive is Some
            && exists|k: KeepAlive| #[trigger] k.dead() && KeepAlive::like(old(self).keep_alive->0, k), //#C34
        !(r matches Poll::Ready(Ponged::KeepAliveTimedOut)) ==> final(self).shared.is_keep_alive_timed_out == old(self).shared.is_keep_alive_timed_out && final(self).keep_alive is Some == old(self).keep_alive is Some, //#C34
        // and otherwise the time still runs, and wakes the connection
        r is Pending ==> (final(self).keep_alive matches Some(k) ==> match k.state {
            KeepAliveState::PingSent => final(self).shared.ping_pong.out() && final(self).shared.ping_pong.pongs() == old(self).shared.ping_pong.pongs() ==> !k.sleep.done() && k.sleep.heard() || final(self).shared.ping_pong.broken(),
            KeepAliveState::Scheduled(at) => !k.sleep.done() && k.sleep.heard() || !k.while_idle,
            KeepAliveState::Init => !k.while_idle || final(cx).woken(),
        }), //#C34
        // an answer ends the wait for it
        final(self).shared.ping_pong.pongs() > old(self).shared.ping_pong.pongs() ==> (final(self).keep_alive matches Some(k) && k.state is PingSent ==> final(self).shared.ping_pong.tries() > old(self).shared.ping_pong.tries()), //#C34
//@ ghost before `self.keep_alive = None`
    proof { assert(self.keep_alive->0.dead()); }
//@ fn Shared::send_ping
    requires old(self).ok()
    ensures Shared::asked(*old(self), *final(self))
//@ fn Shared::is_ping_sent
    ensures r == (self.ping_sent_at is Some)
//@ fn Shared::update_last_read_at
    ensures Shared::rest(*old(self), *final(self)), final(self).ping_pong == old(self).ping_pong, final(self).ping_sent_at == old(self).ping_sent_at, 
        if old(self).last_read_at is Some { final(self).last_read_at matches Some(i) && i.shown() } else { final(self).last_read_at is None }, //#C34
//@ fn Shared::last_read_at
    requires self.last_read_at is Some
    ensures r == self.last_read_at->0
//@ fn KeepAlive::maybe_schedule
    requires old(self).ok(), shared.last_read_at is Some
    ensures
        KeepAlive::like(*old(self), *final(self)), final(self).ok(),
        match old(self).state {
            KeepAliveState::Init => if !old(self).while_idle && is_idle { *final(self) == *old(self) } else { final(self).set(*shared) },
            KeepAliveState::PingSent => if shared.ping_sent_at is Some { *final(self) == *old(self) } else { final(self).set(*shared) },
            KeepAliveState::Scheduled(_) => *final(self) == *old(self),
        }, //#C34
//@ fn KeepAlive::schedule
    requires shared.last_read_at is Some
    ensures KeepAlive::like(*old(self), *final(self)), final(self).set(*shared), //#C34
//@ fn KeepAlive::maybe_ping
    requires old(self).ok(), old(shared).ok(), old(shared).last_read_at is Some
    ensures
        KeepAlive::like(*old(self), *final(self)), final(self).ok(),
        match old(self).state {
            KeepAliveState::Scheduled(at) => match final(self).state {
                // not yet: the time runs on, or it is idle
                KeepAliveState::Scheduled(a) => a == at && *final(shared) == *old(shared) && (!final(self).sleep.done() && final(self).sleep.heard()
                    || final(self).sleep.done() && !(old(shared).last_read_at->0.at() + old(self).interval.len() > at.at()) && !old(self).while_idle && is_idle),
                // a frame came since it was set
                KeepAliveState::Init => final(self).sleep.done() && *final(shared) == *old(shared) && old(shared).last_read_at->0.at() + old(self).interval.len() > at.at() && final(cx).woken(),
                // nothing came in the interval: a ping is sent, and answered within the timeout or not
                KeepAliveState::PingSent => Shared::asked(*old(shared), *final(shared)) && !(old(shared).last_read_at->0.at() + old(self).interval.len() > at.at()) && (old(self).while_idle || !is_idle) && !final(self).sleep.done(),
            },
            _ => *final(self) == *old(self) && *final(shared) == *old(shared) && final(cx).woken() == old(cx).woken(),
        }, //#C34
//@ fn KeepAlive::maybe_timeout
    requires old(self).ok()
    ensures
        KeepAlive::like(*old(self), *final(self)), final(self).ok(), final(self).state == old(self).state, final(cx).woken() == old(cx).woken(),
        r is Err == (final(self).state is PingSent && final(self).sleep.done()), //#C34
        if final(self).state is PingSent { r is Err || final(self).sleep.heard() } else { *final(self) == *old(self) }, //#C34
//@ end
// ---- who polls it: the connection tasks of both sides -----------------------------------
pub trait Read {} pub trait Write {} pub trait Body { type Data; }
pub mod ping { pub use super::{Config, Ponged, Ponger, Recorder}; }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct SendBuf<D> { p: core::marker::PhantomData<D> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Compat<T> { p: core::marker::PhantomData<T> }
/// h2's connection
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(D)] pub struct Connection<T, D> { p: core::marker::PhantomData<(T, D)> }
impl<T, D> Connection<T, D> {
    /// the windows asked for so far: of the connection, of its streams
    pub uninterp spec fn target(&self) -> Seq<u32>;
    pub uninterp spec fn initial(&self) -> Seq<u32>;
    /// how often it was polled
    pub uninterp spec fn polls(&self) -> nat;
    /// told to go away at once
    pub uninterp spec fn shut(&self) -> bool;
    #[verifier::external_body] pub fn set_target_window_size(&mut self, w: u32)
        ensures final(self).target() == old(self).target().push(w), final(self).initial() == old(self).initial(), final(self).polls() == old(self).polls(), final(self).shut() == old(self).shut() { unimplemented!() }
    #[verifier::external_body] pub fn set_initial_window_size(&mut self, w: u32) -> (r: Result<(), H2Error>)
        ensures final(self).initial() == old(self).initial().push(w), final(self).target() == old(self).target(), final(self).polls() == old(self).polls(), final(self).shut() == old(self).shut() { unimplemented!() }
    #[verifier::external_body] pub fn vx_poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), H2Error>>)
        ensures final(self).polls() == old(self).polls() + 1, final(self).target() == old(self).target(), final(self).initial() == old(self).initial(), final(self).shut() == old(self).shut() { unimplemented!() }
    #[verifier::external_body] pub fn abrupt_shutdown(&mut self, r: Reason)
        ensures final(self).shut(), final(self).polls() == old(self).polls(), final(self).target() == old(self).target(), final(self).initial() == old(self).initial() { unimplemented!() }
    pub open spec fn grown(a: Self, b: Self, w: u32) -> bool { b.target() == a.target().push(w) && b.initial() == a.initial().push(w) }
    pub open spec fn same(a: Self, b: Self) -> bool { b.target() == a.target() && b.initial() == a.initial() }
}
pub struct Reason { pub p: u32 }
impl Reason { pub const NO_ERROR: Reason = Reason { p: 0 }; pub const INTERNAL_ERROR: Reason = Reason { p: 2 }; pub const CANCEL: Reason = Reason { p: 8 }; }
pub mod h2 { pub use super::H2Error as Error; pub use super::Reason; }
/// the estimator's window, if there is one
pub open spec fn est(p: Ponger) -> Option<u32> { match p.bdp { Some(b) => Some(b.win()), None => None } }
//@ source src/proto/h2/client.rs
//@ gsubst `mut self: Pin<&mut Self>` => `&mut self`
//@ gsubst `self: Pin<&mut Self>` => `&mut self`
//@ gsubst `let mut this = self.project();` => `let this = self;`
//@ gsubst `Pin::new(&mut this.conn).poll(cx)` => `this.conn.vx_poll(cx)`
//@ gsubst `Poll<Self::Output>` => `Poll<Result<(), H2Error>>`
//@ item struct Conn
//@ fn <Future for Conn>::poll impl="impl<T, B> Conn<T, B> where B: Body, T: Read + Write + Unpin"
    requires old(self).ponger.ok()
    ensures
        final(self).ponger.ok(),
        // timed out: it ends at once (and is dropped), whatever the transport does
        final(self).ponger.shared.is_keep_alive_timed_out && !old(self).ponger.shared.is_keep_alive_timed_out ==> r == Poll::<Result<(), H2Error>>::Ready(Ok(())), //#C34
        final(self).ponger.shared.is_keep_alive_timed_out == old(self).ponger.shared.is_keep_alive_timed_out ==> final(self).conn.polls() == old(self).conn.polls() + 1 || r is Ready, //#C34
        // the windows asked for are the estimator's, each when it is new
        Connection::same(old(self).conn, final(self).conn) && est(final(self).ponger) == est(old(self).ponger)
            || est(final(self).ponger) is Some && est(final(self).ponger)->0 > est(old(self).ponger)->0 && Connection::grown(old(self).conn, final(self).conn, est(final(self).ponger)->0), //#C20
//@ source src/proto/h2/server.rs
//@ item struct Serving
//@ fn Serving::poll_ping
    requires old(self).ping matches Some(p) ==> p.1.ok()
    ensures
        final(self).ping is Some == old(self).ping is Some, final(self).closing == old(self).closing, final(self).conn.polls() == old(self).conn.polls(),
        old(self).ping matches Some(p) ==> {
            let q = final(self).ping->0;
            &&& q.0 == p.0 && q.1.ok()
            // timed out: it is shut down at once
            &&& q.1.shared.is_keep_alive_timed_out && !p.1.shared.is_keep_alive_timed_out ==> final(self).conn.shut()
            &&& q.1.shared.is_keep_alive_timed_out == p.1.shared.is_keep_alive_timed_out ==> final(self).conn.shut() == old(self).conn.shut()
        }, //#C34
        old(self).ping is None ==> final(self).conn == old(self).conn,
        old(self).ping matches Some(p) ==> {
            let q = final(self).ping->0;
            Connection::same(old(self).conn, final(self).conn) && est(q.1) == est(p.1) || est(q.1) is Some && est(q.1)->0 > est(p.1)->0 && Connection::grown(old(self).conn, final(self).conn, est(q.1)->0)
        }, //#C20
//@ end
} // verus!
fn main() {}
