verus! {
// ---- memory that may be uninitialised (assumed: std::mem::MaybeUninit and the
// raw-pointer operations used on it; every one carries the bounds and
// initialisation conditions of its safety comment as an obligation) ----------
pub struct MaybeUninit<T> { pub v: T, pub i: Ghost<bool> }
pub open spec fn mval(s: Seq<MaybeUninit<u8>>) -> Seq<u8> { s.map_values(|m: MaybeUninit<u8>| m.v) }
pub open spec fn minit(s: Seq<MaybeUninit<u8>>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> (#[trigger] s[k]).i@ }
/// `&mut s[a..b]`
#[verifier::external_body]
pub fn vx_range_mut<T>(s: &mut [T], a: usize, b: usize) -> (r: &mut [T])
    requires a <= b <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == r@.len(),
        final(s)@ == old(s)@.take(a as int) + final(r)@ + old(s)@.skip(b as int) { unimplemented!() }
/// `&s[a..b]`
#[verifier::external_body]
pub fn vx_range<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len()
    ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_uninit<'a>(s: &'a mut [u8]) -> (r: &'a mut [MaybeUninit<u8>])
    ensures mval(r@) == old(s)@, r@.len() == old(s)@.len(), minit(r@, 0, r@.len() as int), mval(final(r)@) == final(s)@ { unimplemented!() }
/// reading through a `*const [u8]` made from `[MaybeUninit<u8>]`
#[verifier::external_body]
pub fn vx_init_ref(s: &[MaybeUninit<u8>]) -> (r: &[u8])
    requires minit(s@, 0, s@.len() as int)
    ensures r@ == mval(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_init_mut(s: &mut [MaybeUninit<u8>]) -> (r: &mut [u8])
    requires minit(old(s)@, 0, old(s)@.len() as int)
    ensures r@ == mval(old(s)@), final(s)@.len() == old(s)@.len(), final(r)@.len() == r@.len(),
        mval(final(s)@) == final(r)@, minit(final(s)@, 0, final(s)@.len() as int) { unimplemented!() }
/// `dst.as_mut_ptr().cast::<u8>().copy_from_nonoverlapping(src.as_ptr(), n)`
#[verifier::external_body]
pub fn vx_copy(dst: &mut [MaybeUninit<u8>], src: &[u8], n: usize)
    requires n <= old(dst)@.len(), n <= src@.len()
    ensures final(dst)@.len() == old(dst)@.len(),
        forall|k: int| 0 <= k < n ==> (#[trigger] final(dst)@[k]).v == src@[k] && final(dst)@[k].i@,
        forall|k: int| n <= k < old(dst)@.len() ==> #[trigger] final(dst)@[k] == old(dst)@[k] { unimplemented!() }
/// `dst.as_mut_ptr().write_bytes(b, n)`
#[verifier::external_body]
pub fn vx_fill(dst: &mut [MaybeUninit<u8>], b: u8, n: usize)
    requires n <= old(dst)@.len()
    ensures final(dst)@.len() == old(dst)@.len(),
        forall|k: int| 0 <= k < n ==> (#[trigger] final(dst)@[k]).v == b && final(dst)@[k].i@,
        forall|k: int| n <= k < old(dst)@.len() ==> #[trigger] final(dst)@[k] == old(dst)@[k] { unimplemented!() }
/// the lifetime-narrowing transmute
#[verifier::external_body]
pub fn vx_narrow<'c, 'd>(b: &'c mut ReadBuf<'d>) -> (r: &'c mut ReadBuf<'c>)
    ensures *r == *old(b), *final(r) == *final(b) { unimplemented!() }
/// no slice is longer than isize::MAX octets (guaranteed by the language)
#[verifier::external_body]
pub proof fn ax_slice_len<T>(s: &[T]) ensures s@.len() <= 0x7fff_ffff_ffff_ffff { }

//@ source src/rt/io.rs
//@ gsubst `unsafe { &mut *(raw as *mut [u8] as *mut [MaybeUninit<u8>]) }` => `vx_as_uninit(raw)`
//@ gsubst `unsafe { &*(std::ptr::addr_of!(self.raw[$a..$b]) as *const [u8]) }` => `vx_init_ref(vx_range(self.raw, $a, $b))`
//@ gsubst `unsafe { std::mem::transmute::<$t>(self) }` => `vx_narrow(self)`
//@ gsubst `unsafe { std::mem::transmute::<$t>(self,) }` => `vx_narrow(self)`
//@ gsubst `unsafe { &mut *($x as *mut [MaybeUninit<u8>] as *mut [u8]) }` => `vx_init_mut($x)`
//@ gsubst `self.buf.raw[$a..$b].as_mut_ptr().cast::<u8>().copy_from_nonoverlapping($s.as_ptr(), $n)` => `vx_copy(vx_range_mut(self.buf.raw, $a, $b), $s, $n)`
//@ gsubst `self.buf.raw[$a..$b].as_mut_ptr().write_bytes($v, $n)` => `vx_fill(vx_range_mut(self.buf.raw, $a, $b), $v, $n)`
//@ gsubst `&mut self.buf.raw[$a..]` => `vx_range_mut(self.buf.raw, $a, self.buf.raw.len())`
//@ gsubst `&mut self.buf.raw[$a..$b]` => `vx_range_mut(self.buf.raw, $a, $b)`
//@ item struct ReadBuf
//@ item struct ReadBufCursor
impl<'a> ReadBuf<'a> {
    pub open spec fn cap(&self) -> nat { self.raw@.len() }
    /// filled <= initialised <= capacity, and what counts as initialised is
    pub open spec fn ok(&self) -> bool { self.filled <= self.init <= self.raw@.len() <= 0x7fff_ffff_ffff_ffff && minit(self.raw@, 0, self.init as int) }
    /// the octets appended so far
    pub open spec fn data(&self) -> Seq<u8> { mval(self.raw@).take(self.filled as int) }
}
impl<'a> ReadBufCursor<'a> {
    pub open spec fn rb(&self) -> ReadBuf<'a> { *self.buf }
}
/// nothing but the cursor positions and the memory behind them moves
#[verifier::prophetic]
pub open spec fn same_mem(o: ReadBuf, n: ReadBuf) -> bool { n.raw@.len() == o.raw@.len() && final(n.raw)@ == final(o.raw)@ }
/// handing out `s` as initialised: the appended octets and what was initialised stay, what was not is zero,
/// and what the holder leaves there (`e`) is what is there afterwards
#[verifier::prophetic]
pub open spec fn initd(o: ReadBuf, n: ReadBuf, s: Seq<u8>, e: Seq<u8>) -> bool {
    let z = o.filled + s.len();
    same_mem(o, n) && n.ok() && n.filled == o.filled && n.init == (if o.init < z { z } else { o.init as int }) && n.data() =~= o.data()
    && (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == (if o.filled + k < o.init { o.raw@[o.filled + k].v } else { 0u8 }))
    && e.len() == s.len() && mval(n.raw@).subrange(o.filled as int, z as int) =~= e
    && n.raw@.skip(z as int) =~= o.raw@.skip(z as int)
}
//@ fn ReadBuf::new
    ensures r.ok(), r.filled == 0, r.init == old(raw)@.len(), r.cap() == old(raw)@.len(), mval(r.raw@) == old(raw)@, mval(final(r.raw)@) == final(raw)@
//@ ghost start
proof { ax_slice_len(raw); }
//@ fn ReadBuf::uninit
    ensures r.ok(), r.filled == 0, r.init == 0, r.raw@ == old(raw)@, final(r.raw)@ == final(raw)@
//@ ghost start
proof { ax_slice_len(raw); }
//@ fn ReadBuf::filled
    requires self.ok()
    ensures r@ == self.data()
//@ fn ReadBuf::unfilled
    ensures r.rb() == *old(self), *final(r.buf) == *final(self)
//@ fn ReadBuf::set_init
    requires minit(old(self).raw@, 0, n as int), n <= old(self).cap()
    ensures old(self).ok() ==> final(self).ok(), final(self).filled == old(self).filled, final(self).init == (if n > old(self).init { n } else { old(self).init }),
        final(self).raw == old(self).raw
//@ fn ReadBuf::set_filled
    requires n <= old(self).init
    ensures old(self).ok() ==> final(self).ok(), final(self).filled == (if n > old(self).filled { n } else { old(self).filled }), final(self).init == old(self).init,
        final(self).raw == old(self).raw
//@ fn ReadBuf::len
    ensures r == self.filled
//@ fn ReadBuf::init_len
    ensures r == self.init
//@ fn ReadBuf::remaining
    requires self.ok()
    ensures r == self.cap() - self.filled
//@ fn ReadBuf::capacity
    ensures r == self.cap()
//@ fn ReadBufCursor::as_mut ret=r
    requires old(self).rb().ok()
    ensures r@ == old(self).rb().raw@.skip(old(self).rb().filled as int),
        final(self).rb().filled == old(self).rb().filled, final(self).rb().init == old(self).rb().init,
        final(self).rb().raw@ == old(self).rb().raw@.take(old(self).rb().filled as int) + final(r)@, final(r)@.len() == r@.len(),
        final(final(self).rb().raw)@ == final(old(self).rb().raw)@
//@ fn ReadBufCursor::advance
    requires old(self).rb().ok(), old(self).rb().filled + n <= old(self).rb().cap(),
        minit(old(self).rb().raw@, old(self).rb().filled as int, old(self).rb().filled + n)
    ensures final(self).rb().ok(), final(self).rb().filled == old(self).rb().filled + n,
        final(self).rb().raw == old(self).rb().raw
//@ fn ReadBufCursor::remaining
    requires self.rb().ok()
    ensures r == self.rb().cap() - self.rb().filled
//@ fn ReadBufCursor::put_slice panics=runtime
    requires old(self).rb().ok()
    ensures final(self).rb().ok(), same_mem(old(self).rb(), final(self).rb()), final(self).rb().data() == old(self).rb().data() + src@, final(self).rb().filled == old(self).rb().filled + src@.len(), final(self).rb().init >= old(self).rb().init, *final(final(self).buf) == *final(old(self).buf)
//@ fn ReadBufCursor::initialize_unfilled
    requires old(self).rb().ok()
    ensures r@.len() == old(self).rb().cap() - old(self).rb().filled, initd(old(self).rb(), final(self).rb(), r@, final(r)@)
//@ fn ReadBufCursor::initialize_unfilled_to panics=runtime
    requires old(self).rb().ok()
    ensures r@.len() == n, initd(old(self).rb(), final(self).rb(), r@, final(r)@)
//@ end
