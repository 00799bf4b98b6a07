//@ include prelude.rs
//@ include stream.rs
//@ include bufs.rs
//@ include readbuf.rs
} // verus!
//@ include rwtraits.rs
macro_rules! any_type { ($t:ty) => { $t } }
verus! {
pub mod cmp {
    use vstd::prelude::*;
    pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
    pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
}
/// `Option<Bytes>::unwrap_or_default`
pub trait VxDef<T> { fn vx_or_default(self) -> T; }
pub open spec fn ob(o: Option<Bytes>) -> Seq<u8> { match o { Some(b) => b@, None => Seq::empty() } }
impl VxDef<Bytes> for Option<Bytes> { fn vx_or_default(self) -> (r: Bytes) ensures r@ == ob(self) { match self { Some(b) => b, None => Bytes::new() } } }
/// `&bytes[a..b]`
#[verifier::external_body]
pub fn vx_bsub(b: &Bytes, a: usize, e: usize) -> (r: &[u8]) requires a <= e <= b@.len() ensures r@ == b@.subrange(a as int, e as int) { unimplemented!() }

// ---- HTTP/1: the octets read too far, then the transport --------------------------
//@ source src/common/io/rewind.rs
//@ gsubst `mut self: Pin<&mut Self>` => `&mut self`
//@ gsubst `self: Pin<&mut Self>` => `&mut self`
//@ gsubst `Pin::new(&mut self.inner)` => `self.inner`
//@ gsubst `io::Result<$t>` => `Result<$t, io::Error>`
//@ gsubst `io::IoSlice` => `IoSlice`
//@ gsubst `$x.unwrap_or_default()` => `$x.vx_or_default()`
//@ gsubst `+ Unpin` => ``
//@ gsubst `&prefix[..$n]` => `vx_bsub(&prefix, 0, $n)`
//@ item struct Rewind
impl<T> Rewind<T> {
    /// octets kept back
    pub open spec fn back(&self) -> Seq<u8> { ob(self.pre) }
}
/// A read: first what was kept back, exactly once and in order; only when none of it is left, the transport's octets.
#[verifier::prophetic]
pub open spec fn rread<T: Wire>(o: Rewind<T>, n: Rewind<T>, ob: ReadBuf, nb: ReadBuf, r: Poll<Result<(), io::Error>>) -> bool {
    same_mem(ob, nb) && n.inner.taken() == o.inner.taken() && n.inner.flushed() == o.inner.flushed() && n.inner.closed() == o.inner.closed()
    && if o.back().len() > 0 {
        let k = if o.back().len() <= ob.cap() - ob.filled { o.back().len() as int } else { ob.cap() - ob.filled };
        rok(r) && rb_grew(ob, nb, o.back().take(k)) && n.back() =~= o.back().skip(k) && n.inner == o.inner
    } else {
        n.back().len() == 0 && match r {
            Poll::Ready(Ok(_)) => sgrew(o.inner.given(), n.inner.given()) && rb_grew(ob, nb, sdelta(o.inner.given(), n.inner.given())),
            _ => n.inner.given() == o.inner.given() && rb_grew(ob, nb, Seq::empty()),
        }
    }
}
/// A write goes to the transport as it is.
pub open spec fn rwrote<T: Wire>(o: Rewind<T>, n: Rewind<T>, all: Seq<u8>, r: Poll<Result<usize, io::Error>>) -> bool {
    n.back() == o.back() && took(o.inner, n.inner, all, r)
}
//@ fn Rewind::new_buffered
    ensures r.inner == io, r.back() == buf@
//@ fn Rewind::into_inner
    ensures r.0 == self.inner, r.1@ == self.back()
//@ impl <Read for Rewind> `impl<T: Read> Rewind<T>`
//@ fn poll_read
    requires buf.rb().ok()
    ensures rread(*old(self), *final(self), buf.rb(), *final(buf.buf), r)
//@ endimpl
//@ impl <Write for Rewind> `impl<T: Write> Rewind<T>`
//@ fn poll_write
    ensures rwrote(*old(self), *final(self), buf@, r)
//@ fn poll_write_vectored
    ensures rwrote(*old(self), *final(self), iocat(bufs@), r)
//@ fn poll_flush
    ensures final(self).back() == old(self).back(), wsame(old(self).inner, final(self).inner), final(self).inner.closed() == old(self).inner.closed(), rok(r) ==> final(self).inner.flushed()
//@ fn poll_shutdown
    ensures final(self).back() == old(self).back(), wsame(old(self).inner, final(self).inner), rok(r) ==> final(self).inner.closed()
//@ fn is_write_vectored
//@ endimpl

/// Any number of reads, of any sizes, before the kept-back octets and the transport run dry: what the reads
/// yield, `got`, is a first part of the octets kept back followed by the octets the transport gave.
pub open spec fn handed<T: Wire>(start: Rewind<T>, now: Rewind<T>, got: Seq<u8>) -> bool {
    sgrew(start.inner.given(), now.inner.given()) && got + now.back() == start.back() + sdelta(start.inner.given(), now.inner.given())
    && (now.back().len() > 0 ==> now.inner.given() == start.inner.given())
}
pub proof fn theorem_handed_start<T: Wire>(s: Rewind<T>) ensures handed(s, s, Seq::empty())
{ assert(sdelta(s.inner.given(), s.inner.given()) =~= Seq::<u8>::empty()); assert(s.inner.given() =~= s.inner.given() + sdelta(s.inner.given(), s.inner.given())); assert(s.back() + Seq::<u8>::empty() =~= Seq::<u8>::empty() + s.back()); }
pub proof fn theorem_handed<T: Wire>(s: Rewind<T>, o: Rewind<T>, n: Rewind<T>, got: Seq<u8>, ob: ReadBuf, nb: ReadBuf, r: Poll<Result<(), io::Error>>, d: Seq<u8>)
    requires handed(s, o, got), ob.ok(), rread(o, n, ob, nb, r), nb.data() == ob.data() + d
    ensures handed(s, n, got + d)
{
    let g0 = s.inner.given(); let g1 = o.inner.given(); let g2 = n.inner.given();
    assert forall|x: Seq<u8>| nb.data() == #[trigger] (ob.data() + x) implies x == d by {
        assert(x =~= (ob.data() + x).skip(ob.data().len() as int)); assert(d =~= (ob.data() + d).skip(ob.data().len() as int)); }
    if o.back().len() > 0 {
        let k = if o.back().len() <= ob.cap() - ob.filled { o.back().len() as int } else { ob.cap() - ob.filled };
        assert(d == o.back().take(k));
        assert(o.back().take(k) + o.back().skip(k) =~= o.back());
        assert((got + d) + n.back() =~= got + o.back());
    } else {
        let e = if r is Ready && r->Ready_0 is Ok { sdelta(g1, g2) } else { Seq::empty() };
        assert(d == e);
        assert(sdelta(g1, g1) =~= Seq::<u8>::empty());
        assert(g1 + Seq::<u8>::empty() =~= g1);
        assert(g2 =~= g0 + (sdelta(g0, g1) + e));
        assert(sdelta(g0, g2) =~= sdelta(g0, g1) + e);
        assert((got + d) + n.back() =~= got + d);
        assert(got + o.back() =~= got);
        assert(s.back() + sdelta(g0, g2) =~= (s.back() + sdelta(g0, g1)) + e);
    }
}

// ---- the upgraded connection ------------------------------------------------------
/// `Box<dyn Io + Send>`: some transport (boxing and downcasting are trusted)
#[verifier::external_body]
pub struct IoBox { p: u8 }
impl Wire for IoBox {
    uninterp spec fn given(&self) -> Seq<u8>; uninterp spec fn taken(&self) -> Seq<u8>; uninterp spec fn rfailed(&self) -> bool;
    uninterp spec fn reof(&self) -> bool; uninterp spec fn flushed(&self) -> bool; uninterp spec fn closed(&self) -> bool;
    uninterp spec fn rstalled(&self) -> bool; uninterp spec fn wstalled(&self) -> bool;
}
impl Read for IoBox {
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context<'_>, buf: ReadBufCursor<'_>) -> (r: Poll<Result<(), io::Error>>) { unimplemented!() }
}
impl Write for IoBox {
    #[verifier::external_body]
    fn is_write_vectored(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn poll_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> (r: Poll<Result<usize, io::Error>>) { unimplemented!() }
    #[verifier::external_body]
    fn poll_write_vectored(&mut self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> (r: Poll<Result<usize, io::Error>>) { unimplemented!() }
    #[verifier::external_body]
    fn poll_flush(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), io::Error>>) { unimplemented!() }
    #[verifier::external_body]
    fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), io::Error>>) { unimplemented!() }
}
pub open spec fn wireof<A: Wire, B: Wire>(a: A, b: B) -> bool { a.given() == b.given() && a.taken() == b.taken() && a.flushed() == b.flushed() && a.closed() == b.closed() }
impl IoBox {
    #[verifier::external_body]
    pub fn vx_box<T: Read + Write>(t: T) -> (r: IoBox) ensures wireof(t, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_downcast<T: Read + Write>(self) -> (r: Result<Box<T>, IoBox>) ensures match r { Ok(t) => wireof(*t, self), Err(b) => b == self } { unimplemented!() }
}
//@ source src/upgrade.rs
//@ gsubst `Box<dyn Io + Send>` => `IoBox`
//@ gsubst `Box::new(io)` => `IoBox::vx_box(io)`
//@ gsubst `$x.__hyper_downcast()` => `$x.vx_downcast()`
//@ gsubst `$x.__hyper_downcast::<T>()` => `$x.vx_downcast::<T>()`
//@ gsubst `io::IoSlice` => `IoSlice`
//@ gsubst `mut self: Pin<&mut Self>` => `&mut self`
//@ gsubst `Pin::new(&mut self.io)` => `self.io`
//@ gsubst `io::Result<$t>` => `Result<$t, io::Error>`
//@ gsubst `+ Unpin + Send + 'static` => ``
//@ gsubst `+ Unpin + 'static` => ``
//@ item struct Upgraded
//@ item struct Parts
//@ fn Upgraded::new
    ensures wireof(io, r.io.inner), r.io.back() == read_buf@
//@ fn Upgraded::downcast
    ensures match r { Ok(p) => wireof(p.io, self.io.inner) && p.read_buf@ == self.io.back(), Err(u) => u.io.inner == self.io.inner && u.io.back() == self.io.back() }
//@ impl <Read for Upgraded> `impl Upgraded`
//@ fn poll_read
    requires buf.rb().ok()
    ensures rread(old(self).io, final(self).io, buf.rb(), *final(buf.buf), r)
//@ endimpl
//@ impl <Write for Upgraded> `impl Upgraded`
//@ fn poll_write
    ensures rwrote(old(self).io, final(self).io, buf@, r)
//@ fn poll_write_vectored
    ensures rwrote(old(self).io, final(self).io, iocat(bufs@), r)
//@ fn poll_flush
    ensures final(self).io.back() == old(self).io.back(), wsame(old(self).io.inner, final(self).io.inner), rok(r) ==> final(self).io.inner.flushed()
//@ fn poll_shutdown
    ensures final(self).io.back() == old(self).io.back(), wsame(old(self).io.inner, final(self).io.inner), rok(r) ==> final(self).io.inner.closed()
//@ endimpl
} // verus!
fn main() {}
