verus! {
// ---- bytes::Buf, Chain, Take (assumed: the bytes crate meets these) ------
/// std::io::IoSlice: a borrowed octet string
#[verifier::external_body]
pub struct IoSlice<'a> { p: core::marker::PhantomData<&'a ()> }
impl<'a> View for IoSlice<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> IoSlice<'a> {
    #[verifier::external_body]
    pub fn new(s: &'a [u8]) -> (r: IoSlice<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// the octets a list of slices stands for
pub open spec fn iocat(s: Seq<IoSlice>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { iocat(s.drop_last()) + s.last()@ } }
pub proof fn lemma_iocat_add(a: Seq<IoSlice>, b: Seq<IoSlice>)
    ensures iocat(a + b) == iocat(a) + iocat(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(iocat(a) + iocat(b) =~= iocat(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_iocat_add(a, b.drop_last()); assert(iocat(a + b) =~= iocat(a) + iocat(b)); }
}
pub proof fn lemma_iocat_one(s: IoSlice) ensures iocat(seq![s]) == s@ {
    assert(seq![s].drop_last() =~= Seq::<IoSlice>::empty());
    assert(iocat(seq![s].drop_last()) =~= Seq::<u8>::empty());
    assert(iocat(seq![s]) =~= s@);
}
/// `&mut s[a..]`
#[verifier::external_body]
pub fn vx_tail_mut<T>(s: &mut [T], a: usize) -> (r: &mut [T])
    requires a <= old(s)@.len()
    ensures r@ == old(s)@.skip(a as int), final(r)@.len() == r@.len(), final(s)@ == old(s)@.take(a as int) + final(r)@, final(s)@.skip(a as int) == final(r)@, final(s)@.take(a as int) == old(s)@.take(a as int), final(s)@.len() == old(s)@.len(), old(s)@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
/// `&s[a..b]`
#[verifier::external_body]
pub fn vx_sub<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len()
    ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_set<T>(s: &mut [T], i: usize, v: T)
    requires i < old(s)@.len()
    ensures final(s)@ == old(s)@.update(i as int, v) { unimplemented!() }
/// `s.iter().map(|x| x.len()).sum()`
pub fn vx_sum_len(s: &[IoSlice]) -> (r: usize)
    requires iocat(s@).len() <= usize::MAX
    ensures r == iocat(s@).len()
{
    let mut i = 0; let mut n = 0usize;
    proof { assert(s@.take(0) =~= Seq::<IoSlice>::empty()); }
    while i < s.len()
        invariant i <= s@.len(), n == iocat(s@.take(i as int)).len(), iocat(s@).len() <= usize::MAX
        decreases s@.len() - i
    {
        proof {
            assert(s@.take(i + 1).drop_last() =~= s@.take(i as int));
            assert(s@ =~= s@.take(i + 1) + s@.skip(i + 1));
            lemma_iocat_add(s@.take(i + 1), s@.skip(i + 1));
        }
        n = n + s[i].len();
        i = i + 1;
    }
    proof { assert(s@.take(i as int) =~= s@); }
    n
}
pub trait Buf: Sized {
    /// the octets still to be read, in order
    spec fn bytes(&self) -> Seq<u8>;
    /// representation invariant of the implementation
    spec fn bok(&self) -> bool;
    fn remaining(&self) -> (r: usize)
        requires self.bok() ensures r == self.bytes().len();
    fn chunk(&self) -> (r: &[u8])
        requires self.bok()
        ensures r@.len() <= self.bytes().len(), r@ == self.bytes().take(r@.len() as int), r@.len() == 0 ==> self.bytes().len() == 0,
            self.contig() ==> r@.len() == self.bytes().len();
    /// one contiguous octet string
    spec fn contig(&self) -> bool;
    fn advance(&mut self, cnt: usize)
        requires old(self).bok(), cnt <= old(self).bytes().len()
        ensures final(self).bok(), final(self).bytes() == old(self).bytes().skip(cnt as int), old(self).vok() ==> final(self).vok(), old(self).whole() ==> final(self).whole();
    /// may be listed for a vectored write
    spec fn vok(&self) -> bool;
    /// lists all its octets whenever there is room (otherwise it may list fewer: allowed by bytes::Buf)
    spec fn whole(&self) -> bool;
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (n: usize)
        requires self.bok(), self.vok()
        ensures n <= old(dst)@.len(), final(dst)@.len() == old(dst)@.len(), listed(self.bytes(), final(dst)@, n as int),
            self.whole() && n < old(dst)@.len() ==> iocat(final(dst)@.take(n as int)) == self.bytes(),
            self.bytes().len() == 0 ==> n == 0,
            old(dst)@.len() > 0 && self.bytes().len() > 0 ==> iocat(final(dst)@.take(n as int)).len() > 0;
}
/// the first n slices are the first octets of `all`, in order
pub open spec fn listed(all: Seq<u8>, d: Seq<IoSlice>, n: int) -> bool {
    iocat(d.take(n)).len() <= all.len() && iocat(d.take(n)) == all.take(iocat(d.take(n)).len() as int)
}
/// listing a second buffer after all of a first one lists their concatenation
pub broadcast proof fn lemma_chain_listed(a: Seq<u8>, b: Seq<u8>, d1: Seq<IoSlice>, d: Seq<IoSlice>, n: int, m: int)
    requires 0 <= n <= d1.len(), d.len() == d1.len(), d.take(n) =~= d1.take(n), 0 <= m <= d.len() - n, #[trigger] listed(a, d1, n), iocat(d1.take(n)).len() == a.len(), #[trigger] listed(b, d.skip(n), m)
    ensures listed(a + b, d, n + m), iocat(d.take(n + m)).len() >= a.len(), iocat(d.skip(n).take(m)).len() > 0 ==> iocat(d.take(n + m)).len() > 0
{
    assert(d.take(n + m) =~= d1.take(n) + d.skip(n).take(m));
    lemma_iocat_add(d1.take(n), d.skip(n).take(m));
    let k = iocat(d.skip(n).take(m)).len() as int;
    assert(a.take(a.len() as int) =~= a);
    assert(a + b.take(k) =~= (a + b).take(a.len() + k));
}
/// the first octets of the first part are the first octets of the whole
pub broadcast proof fn lemma_part_listed(a: Seq<u8>, b: Seq<u8>, d: Seq<IoSlice>, n: int)
    ensures #[trigger] listed(a, d, n) ==> listed(#[trigger] (a + b), d, n)
{
    if listed(a, d, n) { assert(a.take(iocat(d.take(n)).len() as int) =~= (a + b).take(iocat(d.take(n)).len() as int)); }
}
pub broadcast proof fn lemma_sub_take<T>(s: Seq<T>, n: int)
    requires 0 <= n <= s.len()
    ensures #[trigger] s.subrange(0, n) == s.take(n)
{ assert(s.subrange(0, n) =~= s.take(n)); }
pub broadcast group group_listed { lemma_chain_listed, lemma_part_listed, lemma_sub_take }
/// the default implementation of chunks_vectored (bytes crate)
pub fn vx_one_chunk<'t>(rem: usize, c: &'t [u8], dst: &mut [IoSlice<'t>], all: Ghost<Seq<u8>>) -> (n: usize)
    requires c@.len() <= all@.len(), c@ == all@.take(c@.len() as int), c@.len() == 0 ==> all@.len() == 0, rem == all@.len()
    ensures n <= old(dst)@.len(), final(dst)@.len() == old(dst)@.len(), listed(all@, final(dst)@, n as int),
        c@.len() == all@.len() && n < old(dst)@.len() ==> iocat(final(dst)@.take(n as int)) == all@,
        all@.len() == 0 ==> n == 0,
        old(dst)@.len() > 0 && all@.len() > 0 ==> iocat(final(dst)@.take(n as int)).len() > 0,
{
    proof { assert(old(dst)@.take(0) =~= Seq::<IoSlice>::empty()); assert(iocat(Seq::<IoSlice>::empty()) =~= Seq::<u8>::empty()); assert(all@.take(0) =~= Seq::<u8>::empty()); }
    if dst.len() == 0 { return 0; }
    if rem > 0 {
        let ghost cb = c@;
        vx_set(dst, 0, IoSlice::new(c));
        proof {
            assert(dst@.take(1) =~= seq![dst@[0]]);
            lemma_iocat_one(dst@[0]);
            assert(iocat(dst@.take(1)) == all@.take(cb.len() as int));
            assert(all@.take(all@.len() as int) =~= all@);
        }
        1
    } else { proof { if all@.len() == 0 { assert(all@ =~= Seq::<u8>::empty()); } } 0 }
}
pub trait BufExt: Buf {
    fn chain<U: Buf>(self, next: U) -> (r: Chain<Self, U>) ensures r.a == self, r.b == next;
    fn take(self, limit: usize) -> (r: Take<Self>) ensures r.inner == self, r.limit == limit;
    fn has_remaining(&self) -> (r: bool) requires self.bok() ensures r == (self.bytes().len() > 0);
}
impl<T: Buf> BufExt for T {
    fn chain<U: Buf>(self, next: U) -> (r: Chain<Self, U>) { Chain { a: self, b: next } }
    fn take(self, limit: usize) -> (r: Take<Self>) { Take { inner: self, limit: limit } }
    fn has_remaining(&self) -> (r: bool) { self.remaining() > 0 }
}
/// `From<T> for B` / `Into<B>` between buffers: the octets are kept.
pub trait FromBuf<T: Buf>: Buf {
    /// the result may be listed for a vectored write
    spec fn fvok(b: &T) -> bool;
    fn from(b: T) -> (r: Self) requires b.bok() ensures r.bytes() == b.bytes(), r.bok(), Self::fvok(&b) ==> r.vok();
}
pub trait IntoBuf<B: Buf>: Buf {
    spec fn ivok(&self) -> bool;
    fn into(self) -> (r: B) requires self.bok() ensures r.bytes() == self.bytes(), r.bok(), self.ivok() ==> r.vok();
}
impl<T: Buf, B: FromBuf<T>> IntoBuf<B> for T {
    open spec fn ivok(&self) -> bool { B::fvok(self) }
    fn into(self) -> (r: B) { B::from(self) }
}
pub struct Chain<A, B> { pub a: A, pub b: B }
impl<A: Buf, B: Buf> Buf for Chain<A, B> {
    open spec fn bytes(&self) -> Seq<u8> { self.a.bytes() + self.b.bytes() }
    open spec fn bok(&self) -> bool { self.a.bok() && self.b.bok() && self.bytes().len() <= usize::MAX }
    fn remaining(&self) -> (r: usize) { self.a.remaining() + self.b.remaining() }
    fn chunk(&self) -> (r: &[u8]) {
        if self.a.remaining() > 0 {
            let r = self.a.chunk();
            proof { assert(self.bytes().take(r@.len() as int) =~= self.a.bytes().take(r@.len() as int)); }
            r
        } else {
            proof { assert(self.bytes() =~= self.b.bytes()); }
            self.b.chunk()
        }
    }
    fn advance(&mut self, cnt: usize)
        ensures old(self).a.vok() ==> final(self).a.vok()
    {
        let ghost o = *self;
        let n = self.a.remaining();
        if n != 0 {
            if n >= cnt {
                self.a.advance(cnt);
                proof { assert(self.bytes() =~= o.bytes().skip(cnt as int)); }
                return;
            }
            self.a.advance(n);
        }
        self.b.advance(cnt - n);
        proof { assert(self.bytes() =~= o.bytes().skip(cnt as int)); }
    }
    // the bytes crate's Chain lists the second part right after what the first
    // part listed: in order only if the first part listed everything
    open spec fn vok(&self) -> bool { self.a.vok() && self.b.vok() && self.a.whole() }
    open spec fn contig(&self) -> bool { false }
    open spec fn whole(&self) -> bool { self.a.whole() && self.b.whole() }
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (n: usize) {
        let ghost l = dst@.len();
        let n1 = self.a.chunks_vectored(dst);
        let ghost d1 = dst@;
        let n2 = self.b.chunks_vectored(vx_tail_mut(dst, n1));
        proof {
            assert(dst@.take(n1 + n2) =~= d1.take(n1 as int) + dst@.skip(n1 as int).take(n2 as int));
            lemma_iocat_add(d1.take(n1 as int), dst@.skip(n1 as int).take(n2 as int));
            if n1 == l {
                assert(dst@.skip(n1 as int).take(n2 as int) =~= Seq::<IoSlice>::empty());
                assert(iocat(Seq::<IoSlice>::empty()) =~= Seq::<u8>::empty());
                assert(iocat(dst@.take(n1 + n2)) =~= iocat(d1.take(n1 as int)));
                assert(self.bytes().take(iocat(d1.take(n1 as int)).len() as int) =~= self.a.bytes().take(iocat(d1.take(n1 as int)).len() as int));
            } else {
                lemma_chain_listed(self.a.bytes(), self.b.bytes(), d1, dst@, n1 as int, n2 as int);
                assert(self.b.bytes().take(self.b.bytes().len() as int) =~= self.b.bytes());
            }
        }
        n1 + n2
    }
}
pub struct Take<T> { pub inner: T, pub limit: usize }
pub open spec fn take_len(n: int, limit: int) -> int { if n < limit { n } else { limit } }
impl<T: Buf> Buf for Take<T> {
    open spec fn bytes(&self) -> Seq<u8> { self.inner.bytes().take(take_len(self.inner.bytes().len() as int, self.limit as int)) }
    open spec fn bok(&self) -> bool { self.inner.bok() }
    fn remaining(&self) -> (r: usize) { let n = self.inner.remaining(); if n < self.limit { n } else { self.limit } }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    fn advance(&mut self, cnt: usize) {
        let ghost o = *self;
        self.inner.advance(cnt);
        self.limit = self.limit - cnt;
        proof { assert(self.bytes() =~= o.bytes().skip(cnt as int)); }
    }
    open spec fn vok(&self) -> bool { self.inner.vok() }
    open spec fn contig(&self) -> bool { false }
    open spec fn whole(&self) -> bool { false }
    #[verifier::external_body]
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (n: usize) { unimplemented!() }
}
impl Buf for &'static [u8] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    open spec fn bok(&self) -> bool { true }
    fn remaining(&self) -> (r: usize) { self.len() }
    fn chunk(&self) -> (r: &[u8]) { proof { assert(self@.take(self@.len() as int) =~= self@); } self }
    #[verifier::external_body]
    fn advance(&mut self, cnt: usize) { unimplemented!() }
    open spec fn vok(&self) -> bool { true }
    open spec fn contig(&self) -> bool { true }
    open spec fn whole(&self) -> bool { true }
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (n: usize) { vx_one_chunk(self.remaining(), self.chunk(), dst, Ghost(self.bytes())) }
}
impl Buf for Bytes {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    open spec fn bok(&self) -> bool { true }
    #[verifier::external_body]
    fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, cnt: usize) { unimplemented!() }
    open spec fn vok(&self) -> bool { true }
    open spec fn contig(&self) -> bool { true }
    open spec fn whole(&self) -> bool { true }
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (n: usize) { vx_one_chunk(self.remaining(), self.chunk(), dst, Ghost(self.bytes())) }
}
} // verus!
