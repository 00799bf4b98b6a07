//@ include prelude.rs
//@ include stream.rs
//@ include bufs.rs
//@ include readbuf.rs
} // verus!
//@ include rwtraits.rs
verus! {
// ---- tokio's ReadBuf (assumed, from its documentation; the safety conditions of its
// unsafe functions and the panic of `set_filled` are obligations) -----------------
pub mod tokio { pub mod io {
    use vstd::prelude::*;
    use super::super::*;
    pub struct ReadBuf<'a> { pub raw: &'a mut [MaybeUninit<u8>], pub nfill: usize, pub ninit: usize }
    impl<'a> ReadBuf<'a> {
        pub open spec fn ok(&self) -> bool { self.nfill <= self.ninit <= self.raw@.len() <= 0x7fff_ffff_ffff_ffff && minit(self.raw@, 0, self.ninit as int) }
        pub open spec fn data(&self) -> Seq<u8> { mval(self.raw@).take(self.nfill as int) }
        pub open spec fn inid(&self) -> Seq<u8> { mval(self.raw@).take(self.ninit as int) }
        #[verifier::external_body]
        pub fn initialized(&self) -> (r: &[u8]) requires self.ok() ensures r@ == self.inid() { unimplemented!() }
        #[verifier::external_body]
        pub fn filled(&self) -> (r: &[u8]) requires self.ok() ensures r@ == self.data() { unimplemented!() }
        #[verifier::external_body]
        pub fn inner_mut(&mut self) -> (r: &mut [MaybeUninit<u8>]) requires old(self).ok()
            ensures r@ == old(self).raw@, r@.len() == final(r)@.len(), final(self).raw@ == final(r)@, final(self).nfill == old(self).nfill, final(self).ninit == old(self).ninit, final(final(self).raw)@ == final(old(self).raw)@ { unimplemented!() }
        /// the first `n` unfilled octets are initialised
        #[verifier::external_body]
        pub fn assume_init(&mut self, n: usize) requires old(self).nfill + n <= old(self).raw@.len(), minit(old(self).raw@, 0, old(self).nfill + n)
            ensures final(self).raw == old(self).raw, final(self).nfill == old(self).nfill, final(self).ninit == (if old(self).nfill + n > old(self).ninit { (old(self).nfill + n) as usize } else { old(self).ninit }) { unimplemented!() }
        /// panics unless `n` octets are initialised
        #[verifier::external_body]
        pub fn set_filled(&mut self, n: usize) requires n <= old(self).ninit
            ensures final(self).raw == old(self).raw, final(self).nfill == n, final(self).ninit == old(self).ninit { unimplemented!() }
    }
} }
//@ source src/common/io/compat.rs
//@ gsubst `self: Pin<&mut Self>` => `&mut self`
//@ gsubst `self.p()` => `self.0`
//@ gsubst `crate::rt::Read::poll_read(self.0, $c, $b)` => `self.0.poll_read($c, $b)`
//@ gsubst `crate::rt::ReadBuf` => `ReadBuf`
//@ gsubst `crate::rt::Read` => `Read`
//@ gsubst `std::io::Error` => `io::Error`
//@ item struct Compat
/// the adapter's read is the transport's read: what it appends, in order, and no more counts as filled or initialised
#[verifier::prophetic]
pub open spec fn cread<T: Wire>(o: Compat<T>, n: Compat<T>, a: tokio::io::ReadBuf, b: tokio::io::ReadBuf, r: Poll<Result<(), io::Error>>) -> bool {
    b.raw@.len() == a.raw@.len() && final(b.raw)@ == final(a.raw)@ && b.ninit >= a.ninit && b.ok()
    && match r {
        Poll::Ready(Ok(_)) => sgrew(o.0.given(), n.0.given()) && b.data() =~= a.data() + sdelta(o.0.given(), n.0.given()),
        _ => b.data() =~= a.data() && b.ninit == a.ninit && n.0.given() == o.0.given(),
    }
}
//@ impl <tokio::io::AsyncRead for Compat> `impl<T: Read> Compat<T>`
//@ fn poll_read
    requires old(tbuf).ok()
    ensures cread(*old(self), *final(self), *old(tbuf), *final(tbuf), r)
//@ endimpl
} // verus!
fn main() {}
