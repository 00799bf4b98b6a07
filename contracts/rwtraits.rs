verus! {
// ---- the transport: rt::Read and rt::Write (assumed of the caller's type) ---
pub open spec fn rok<T>(r: Poll<Result<T, io::Error>>) -> bool { r is Ready && r->Ready_0 is Ok }
/// `r` is the last part of `g`
pub open spec fn suffix(g: Seq<u8>, r: Seq<u8>) -> bool { r.len() <= g.len() && g.skip(g.len() - r.len()) == r }
pub proof fn lemma_suffix(g: Seq<u8>, r: Seq<u8>, d: Seq<u8>, k: int)
    requires suffix(g, r), 0 <= k <= r.len()
    ensures suffix(g, r.skip(k)), suffix(g + d, r + d)
{ assert(g.skip(g.len() - r.skip(k).len()) =~= r.skip(k)); assert((g + d).skip((g + d).len() - (r + d).len()) =~= r + d); }
/// What has passed through a transport so far.
pub trait Wire: Sized {
    /// every octet read from it so far
    spec fn given(&self) -> Seq<u8>;
    /// every octet it has taken so far
    spec fn taken(&self) -> Seq<u8>;
    /// it reported an error to a read / an end of stream to one
    spec fn rfailed(&self) -> bool;
    spec fn reof(&self) -> bool;
    /// all it took was passed on by a completed flush
    spec fn flushed(&self) -> bool;
    spec fn closed(&self) -> bool;
    /// the last thing asked of this direction was answered with "not ready": its waker is registered there
    spec fn rstalled(&self) -> bool;
    spec fn wstalled(&self) -> bool;
}
pub open spec fn wsame<T: Wire>(o: T, n: T) -> bool { n.given() == o.given() && n.taken() == o.taken() && n.rfailed() == o.rfailed() && n.reof() == o.reof() && n.rstalled() == o.rstalled() }
pub open spec fn rb_grew(o: ReadBuf, n: ReadBuf, d: Seq<u8>) -> bool {
    n.ok() && n.raw@.len() == o.raw@.len() && n.init >= o.init && n.data() == o.data() + d
}
pub trait Read: Wire {
    /// the octets read are appended to the unfilled part of the buffer
    fn poll_read(&mut self, cx: &mut Context<'_>, buf: ReadBufCursor<'_>) -> (r: Poll<Result<(), io::Error>>)
        requires buf.rb().ok()
        ensures final(self).taken() == old(self).taken(), final(self).flushed() == old(self).flushed(), final(self).closed() == old(self).closed(), same_mem(buf.rb(), *final(buf.buf)),
            final(self).wstalled() == old(self).wstalled(), final(self).rstalled() == (r is Pending),
            match r {
                Poll::Ready(Ok(_)) => sgrew(old(self).given(), final(self).given()) && rb_grew(buf.rb(), *final(buf.buf), sdelta(old(self).given(), final(self).given()))
                    && final(self).rfailed() == old(self).rfailed()
                    && final(self).reof() == (old(self).reof() || (buf.rb().filled < buf.rb().cap() && sdelta(old(self).given(), final(self).given()).len() == 0)),
                Poll::Ready(Err(_)) => final(self).given() == old(self).given() && rb_grew(buf.rb(), *final(buf.buf), Seq::empty()) && final(self).rfailed(),
                Poll::Pending => final(self).given() == old(self).given() && rb_grew(buf.rb(), *final(buf.buf), Seq::empty()) && final(self).rfailed() == old(self).rfailed() && final(self).reof() == old(self).reof(),
            };
}
pub open spec fn took<T: Wire>(o: T, n: T, all: Seq<u8>, r: Poll<Result<usize, io::Error>>) -> bool {
    n.given() == o.given() && n.rfailed() == o.rfailed() && n.reof() == o.reof() && n.closed() == o.closed() && n.rstalled() == o.rstalled() && n.wstalled() == (r is Pending) && match r {
        Poll::Ready(Ok(k)) => k <= all.len() && n.taken() == o.taken() + all.take(k as int) && (k == 0 ==> n.flushed() == o.flushed()),
        _ => n.taken() == o.taken() && n.flushed() == o.flushed(),
    }
}
pub trait Write: Wire {
    fn is_write_vectored(&self) -> (r: bool);
    /// some first octets are taken
    fn poll_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> (r: Poll<Result<usize, io::Error>>)
        ensures took(*old(self), *final(self), buf@, r);
    fn poll_write_vectored(&mut self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> (r: Poll<Result<usize, io::Error>>)
        ensures took(*old(self), *final(self), iocat(bufs@), r);
    fn poll_flush(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), io::Error>>)
        ensures wsame(*old(self), *final(self)), final(self).closed() == old(self).closed(), rok(r) ==> final(self).flushed(), final(self).wstalled() == (r is Pending);
    fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<(), io::Error>>)
        ensures wsame(*old(self), *final(self)), rok(r) ==> final(self).closed(), final(self).wstalled() == (r is Pending);
}
} // verus!
