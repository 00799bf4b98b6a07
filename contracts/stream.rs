verus! {
// ---- growing octet streams -----------------------------------------------------
pub open spec fn sdelta(o: Seq<u8>, n: Seq<u8>) -> Seq<u8> { n.subrange(o.len() as int, n.len() as int) }
pub open spec fn sgrew(o: Seq<u8>, n: Seq<u8>) -> bool { o.len() <= n.len() && n == o + sdelta(o, n) }
/// MemRead: `hist` is every byte handed out so far; `failed` that an I/O error
/// was reported; `eof` that a read of a non-zero length came back empty.
pub trait MemRead: Sized {
    spec fn hist(&self) -> Seq<u8>;
    spec fn failed(&self) -> bool;
    spec fn eof(&self) -> bool;
    spec fn mok(&self) -> bool;
    fn read_mem(&mut self, cx: &mut Context<'_>, len: usize) -> (r: Poll<Result<Bytes, io::Error>>)
        requires old(self).mok(), len > 0
        ensures final(self).mok(), sgrew(old(self).hist(), final(self).hist()), match r {
            Poll::Ready(Ok(b)) => b@.len() <= len && sdelta(old(self).hist(), final(self).hist()) == b@
                && final(self).failed() == old(self).failed()
                && final(self).eof() == (old(self).eof() || b@.len() == 0),
            Poll::Ready(Err(_)) => final(self).failed() && sdelta(old(self).hist(), final(self).hist()).len() == 0,
            Poll::Pending => sdelta(old(self).hist(), final(self).hist()).len() == 0
                && final(self).failed() == old(self).failed() && final(self).eof() == old(self).eof(),
        };
}
} // verus!
