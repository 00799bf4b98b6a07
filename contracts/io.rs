//@ include prelude.rs
//@ include stream.rs
//@ include bufs.rs
//@ include buflist.rs
//@ include readbuf.rs
} // verus!
//@ include rwtraits.rs
verus! {
pub mod cmp {
    use vstd::prelude::*;
    pub use core::cmp::Ordering;
    pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
    pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
}
/// `AsRef<[u8]>`
pub trait VxAsRef: Sized { spec fn oct(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.oct(); }
impl VxAsRef for Vec<u8> { open spec fn oct(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
#[verifier::external_body]
pub fn vx_capacity(v: &Vec<u8>) -> (r: usize) ensures r >= v@.len() { unimplemented!() }
/// no vector is longer than isize::MAX octets (guaranteed by the language)
#[verifier::external_body]
pub proof fn ax_vec_len(s: &Vec<u8>) ensures s@.len() <= 0x7fff_ffff_ffff_ffff { }
/// `v.drain(0..n);`
#[verifier::external_body]
pub fn vx_drain(v: &mut Vec<u8>, a: usize, b: usize) requires a == 0, b <= old(v)@.len() ensures final(v)@ == old(v)@.skip(b as int) { unimplemented!() }
/// `[IoSlice::new(&[]); N]`
#[verifier::external_body]
pub fn vx_iovs<'a>(n: usize) -> (r: Vec<IoSlice<'a>>) ensures r@.len() == n { unimplemented!() }

// the part of a BytesMut behind its contents
impl BytesMut {
    #[verifier::external_body]
    pub fn vget(&self, i: usize) -> (r: u8) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    pub uninterp spec fn spare(&self) -> Seq<MaybeUninit<u8>>;
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self@.len() + self.spare().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@, final(self).spare().len() >= n { unimplemented!() }
    /// sound only if the octets taken in are initialised
    #[verifier::external_body]
    pub fn advance_mut(&mut self, n: usize)
        requires n <= old(self).spare().len(), minit(old(self).spare(), 0, n as int)
        ensures final(self)@ == old(self)@ + mval(old(self).spare()).take(n as int) { unimplemented!() }
}
/// `b.chunk_mut().as_uninit_slice_mut()` (reserves when nothing is left)
#[verifier::external_body]
pub fn vx_spare_mut(b: &mut BytesMut) -> (r: &mut [MaybeUninit<u8>])
    ensures r@.len() >= old(b).spare().len(), r@.len() > 0, final(b)@ == old(b)@, final(b).spare() == final(r)@, final(r)@.len() == r@.len() { unimplemented!() }

//@ source src/proto/h1/io.rs
//@ gsubst `Pin::new(&mut self.io)` => `self.io`
//@ gsubst `io::ErrorKind::$k.into()` => `io::Error::new(io::ErrorKind::$k, 0u8)`
//@ gsubst `[IoSlice::new(&[]); $n]` => `vx_iovs($n)`
//@ gsubst `const MAX_WRITEV_BUFS: usize = $n;` => `let MAX_WRITEV_BUFS: usize = $n;`
//@ gsubst `&iovs[..$n]` => `vx_sub(iovs.as_slice(), 0, $n)`
//@ gsubst `chunks_vectored(&mut iovs)` => `chunks_vectored(iovs.as_mut_slice())`
//@ gsubst `$x.chunk_mut().as_uninit_slice_mut()` => `vx_spare_mut(&mut $x)`
//@ gsubst `&mut dst[..$n]` => `vx_range_mut(dst, 0, $n)`
//@ gsubst `&mut dst[$n..]` => `vx_tail_mut(dst, $n)`
//@ gsubst `T: AsRef<[u8]>` => `T: VxAsRef`
//@ gsubst `&self.bytes.as_ref()[$a..]` => `vx_range(self.bytes.as_ref(), $a, self.bytes.as_ref().len())`
//@ gsubst `self.bytes.drain($a..$b)` => `vx_drain(&mut self.bytes, $a, $b)`
//@ gsubst `self.bytes.capacity()` => `vx_capacity(&self.bytes)`
//@ gsubst `+ Unpin` => ``
//@ gsubst `::std::cmp::$f` => `cmp::$f`
//@ gsubst `std::cmp::$f` => `cmp::$f`
//@ gsubst `self.read_buf[$i]` => `self.read_buf.vget($i)`
//@ gsubst `BB: Buf + Into<B>` => `BB: IntoBuf<B>`
//@ item const INIT_BUFFER_SIZE
//@ item const MINIMUM_MAX_BUFFER_SIZE
//@ item const DEFAULT_MAX_BUFFER_SIZE
//@ item const MAX_BUF_LIST_BUFFERS
//@ item enum ReadStrategy derive="Clone, Copy"
//@ item struct Cursor
//@ item enum WriteStrategy
//@ item struct WriteBuf attr="reject_recursive_types(B)"
//@ item struct Buffered attr="reject_recursive_types(B)"

// ---- C16: how much is asked for, and how much is kept ---------------------------
impl ReadStrategy {
    pub open spec fn smax(&self) -> int { match self { ReadStrategy::Adaptive { max, .. } => *max as int, ReadStrategy::Exact(n) => *n as int } }
    pub open spec fn snext(&self) -> int { match self { ReadStrategy::Adaptive { next, .. } => *next as int, ReadStrategy::Exact(n) => *n as int } }
    /// the adaptive size stays between its minimum and the maximum
    pub open spec fn sok(&self) -> bool { match self { ReadStrategy::Adaptive { next, max, .. } => 8192 <= *next <= *max, ReadStrategy::Exact(_) => true } }
}
//@ fn ReadStrategy::with_max
    requires max >= 8192 //#C16
    ensures r.sok(), r is Adaptive, r.smax() == max //#C16
//@ fn ReadStrategy::next
    ensures r == self.snext()
//@ fn ReadStrategy::max
    ensures r == self.smax()
//@ fn ReadStrategy::record
    requires old(self).sok()
    ensures final(self).sok(), final(self).smax() == old(self).smax(), //#C16
        // grows only when the peer filled what was asked for, and at most to twice as much
        final(self).snext() > old(self).snext() ==> bytes_read >= old(self).snext() && final(self).snext() <= 2 * old(self).snext(), //#C16
//@ fn incr_power_of_two
    ensures n <= r, r == 2 * n || r == usize::MAX && 2 * n > usize::MAX
//@ fn prev_power_of_two
    requires n >= 4
    ensures 1 <= r <= n
//@ rsubst `n.leading_zeros()` => `vx_leading_zeros(n)`
//@ ghost start
proof { assert forall|z: u32| z <= 61 && #[trigger] (n >> ((63 - z) as usize)) == 1 implies (0xffff_ffff_ffff_ffffusize >> ((z + 2) as usize)) < n by {
   assert(z <= 61 && n >> ((63 - z) as usize) == 1 ==> (0xffff_ffff_ffff_ffffusize >> ((z + 2) as usize)) < n) by (bit_vector); } }
//@ impl <Default for ReadStrategy> `impl ReadStrategy`
//@ fn default
    ensures r.sok(), r is Adaptive, r.smax() == 417792
//@ endimpl
#[verifier::external_body]
pub fn vx_leading_zeros(n: usize) -> (r: u32) ensures n > 0 ==> r <= 63 && n >> ((63 - r) as usize) == 1, n >= 4 ==> r <= 61 { unimplemented!() }

// ---- C13: the octets waiting to be written -------------------------------------
impl<T: VxAsRef> Cursor<T> {
    pub open spec fn cok(&self) -> bool { self.pos <= self.bytes.oct().len() <= 0x7fff_ffff_ffff_ffff }
}
//@ fn Cursor::new
    ensures r.bytes == bytes, r.pos == 0
//@ fn Cursor::maybe_unshift
    requires old(self).cok()
    ensures final(self).cok(), final(self).bytes@.skip(final(self).pos as int) == old(self).bytes@.skip(old(self).pos as int)
//@ ghost end
proof { assert(self.bytes@.skip(0) =~= self.bytes@); }
//@ fn Cursor::reset
    ensures final(self).pos == 0, final(self).bytes@.len() == 0
//@ impl <Buf for Cursor> `impl<T: VxAsRef> Buf for Cursor<T>`
    open spec fn bytes(&self) -> Seq<u8> { self.bytes.oct().skip(self.pos as int) }
    open spec fn bok(&self) -> bool { self.cok() }
    open spec fn vok(&self) -> bool { true }
    open spec fn contig(&self) -> bool { true }
    open spec fn whole(&self) -> bool { true }
    // no override in hyper: the default of bytes::Buf
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (n: usize) { vx_one_chunk(self.remaining(), self.chunk(), dst, Ghost(self.bytes())) }
//@ fn remaining
//@ fn chunk
//@ ghost start
proof { assert(self.bytes().take(self.bytes().len() as int) =~= self.bytes()); assert(self.bytes.oct().subrange(self.pos as int, self.bytes.oct().len() as int) =~= self.bytes()); }
//@ fn advance
    ensures final(self).bytes == old(self).bytes
//@ ghost end
proof { assert(self.bytes() =~= old(self).bytes().skip(cnt as int)); }
//@ endimpl

impl<B: Buf> WriteBuf<B> {
    /// with the flattening strategy nothing is queued
    pub open spec fn wok(&self) -> bool { self.headers.cok() && self.queue.bok() && (self.strategy is Flatten ==> self.queue.bufs@.len() == 0) && self.bytes().len() <= usize::MAX }
}
//@ fn WriteBuf::new
    ensures r.bok(), r.bytes().len() == 0, r.strategy == strategy, r.queue.bufs@.len() == 0
//@ fn WriteBuf::set_strategy
    requires old(self).queue.bufs@.len() == 0
    ensures final(self).strategy == strategy, old(self).bok() ==> final(self).bok(), final(self).bytes() == old(self).bytes(), final(self).queue == old(self).queue
//@ fn WriteBuf::headers_mut
    requires old(self).bok(), old(self).queue.bytes().len() == 0
    ensures *r == old(self).headers, final(self).headers == *final(r), final(self).queue == old(self).queue, final(self).strategy == old(self).strategy, final(self).max_buf_size == old(self).max_buf_size
//@ fn WriteBuf::buffer attr="loop_isolation(false)"
    requires old(self).bok(), buf.bok(), buf.ivok(), buf.bytes().len() > 0,
        old(self).bytes().len() + buf.bytes().len() <= 0x7fff_ffff_ffff_ffff
    ensures final(self).bok(), final(self).bytes() == old(self).bytes() + buf.bytes(), final(self).strategy == old(self).strategy //#C13
//@ loop 0
    invariant
        head.cok(), buf.bok(), head.bytes@.skip(head.pos as int) + buf.bytes() == old(self).headers.bytes() + buf0.bytes(),
        head.bytes@.len() - head.pos + buf.bytes().len() <= 0x7fff_ffff_ffff_ffff,
    decreases buf.bytes().len()
//@ ghost start
let ghost buf0 = buf;
proof { assert(self.queue.bufs@.len() == 0 ==> self.queue.bytes() =~= Seq::<u8>::empty()); 
    if self.strategy is Flatten { assert(self.bytes() + buf.bytes() =~= self.headers.bytes() + buf.bytes()); } }
//@ ghost loop 0 start
let ghost b1 = buf.bytes();
let ghost h1 = head.bytes@;
proof { ax_vec_len(&head.bytes); }
//@ ghost before `buf.advance`
proof { ax_vec_len(&head.bytes); assert(head.bytes@.skip(head.pos as int) + b1.skip(adv as int) =~= h1.skip(head.pos as int) + b1); }
//@ ghost before `return`
proof { assert(buf.bytes() =~= Seq::<u8>::empty()); assert(head.bytes@.skip(head.pos as int) + buf.bytes() =~= head.bytes@.skip(head.pos as int)); }
//@ fn WriteBuf::can_buffer
    requires self.bok()
//@ impl <Buf for WriteBuf> `impl<B: Buf> Buf for WriteBuf<B>`
    open spec fn bytes(&self) -> Seq<u8> { self.headers.bytes() + self.queue.bytes() }
    open spec fn bok(&self) -> bool { self.wok() }
    open spec fn vok(&self) -> bool { true }
    open spec fn contig(&self) -> bool { false }
    open spec fn whole(&self) -> bool { false }
//@ fn remaining
//@ fn chunk
//@ fn advance
    ensures final(self).strategy == old(self).strategy
//@ ghost end
proof { assert(self.bytes() =~= old(self).bytes().skip(cnt as int)); }
//@ fn chunks_vectored
//@ ghost start
broadcast use group_listed;
//@ endimpl

// ---- C17: message heads ---------------------------------------------------------------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum HKind { Syntax, Io, Incomplete, TooLarge }
/// crate::Error and error::Parse: only what kind of failure it is
pub struct HError { pub k: HKind }
impl HError {
    pub fn new_io(e: io::Error) -> (r: HError) ensures r.k is Io { HError { k: HKind::Io } }
    pub fn new_incomplete() -> (r: HError) ensures r.k is Incomplete { HError { k: HKind::Incomplete } }
    pub fn new_too_large() -> (r: HError) ensures r.k is TooLarge { HError { k: HKind::TooLarge } }
}
pub type ParseResult<T> = Result<Option<ParsedMessage<T>>, HError>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ParsedMessage<T> { p: T }
#[verifier::external_body]
pub struct HeaderMap { p: u8 }
#[verifier::external_body]
pub struct Method { p: u8 }
#[verifier::external_body]
pub struct ParserConfig { p: u8 }
impl ParserConfig { #[verifier::external_body] pub fn clone(&self) -> (r: ParserConfig) { unimplemented!() } }
#[verifier::external_body]
pub struct OnInformational { p: u8 }
/// the last octet of an empty line is the one before k
pub open spec fn blank_end(s: Seq<u8>, k: int) -> bool { 2 <= k <= s.len() && s[k - 1] == 0x0a && (s[k - 2] == 0x0a || (k >= 3 && s[k - 2] == 0x0d && s[k - 3] == 0x0a)) }
pub open spec fn blank_at(s: Seq<u8>, j: int) -> bool { 0 <= j && j + 1 < s.len() && s[j] == 0x0a && (s[j + 1] == 0x0a || (j + 2 < s.len() && s[j + 1] == 0x0d && s[j + 2] == 0x0a)) }
/// What a role makes of the octets received (assumed of Client::parse and
/// Server::parse, i.e. of httparse; exercised by the stand-in): `outcome` says
/// where the first complete head ends and what it says.
pub trait Heads: Sized {
    type Incoming;
    spec fn outcome(s: Seq<u8>) -> Option<(nat, ParsedMessage<Self::Incoming>)>;
    /// a head that is complete is not changed by what follows, nor complete before its end; it ends with an empty line
    proof fn law(s: Seq<u8>, k: int)
        requires 0 <= k <= s.len()
        ensures Self::outcome(s) is None ==> Self::outcome(s.take(k)) is None,
            Self::outcome(s) is Some ==> (Self::outcome(s)->0).0 <= s.len() && blank_end(s, (Self::outcome(s)->0).0 as int)
                && (k < (Self::outcome(s)->0).0 ==> Self::outcome(s.take(k)) is None)
                && (k >= (Self::outcome(s)->0).0 ==> Self::outcome(s.take(k)) == Self::outcome(s));
}
pub trait Http1Transaction: Heads {
    /// consumes exactly a complete head; otherwise at most interim heads, which leave the outcome of the rest as it is
    fn parse(bytes: &mut BytesMut, ctx: ParseContext<'_>) -> (r: ParseResult<Self::Incoming>)
        requires old(bytes)@.len() > 0
        ensures suffix(old(bytes)@, final(bytes)@), match r {
            Ok(Some(m)) => Self::outcome(old(bytes)@) == Some(((old(bytes)@.len() - final(bytes)@.len()) as nat, m)),
            Ok(None) => same_outcome::<Self>(old(bytes)@, final(bytes)@) && Self::outcome(final(bytes)@) is None,
            Err(e) => e.k is Syntax,
        };
}
/// after taking interim heads off `a`, `b` is left, and whatever comes next is read the same way
pub open spec fn same_outcome<S: Heads>(a: Seq<u8>, b: Seq<u8>) -> bool {
    forall|t: Seq<u8>| #![trigger S::outcome(a + t)] #![trigger S::outcome(b + t)] match S::outcome(b + t) {
        None => S::outcome(a + t) is None,
        Some((k, m)) => S::outcome(a + t) == Some(((k + a.len() - b.len()) as nat, m)),
    }
}
pub use HError as Error;
pub type Result<T, E = HError> = core::result::Result<T, E>;
//@ source src/proto/h1/mod.rs
//@ gsubst `crate::ext::OnInformational` => `OnInformational`
//@ item struct ParseContext
//@ source src/proto/h1/role.rs
//@ gsubst `bytes.iter().copied().enumerate()` => `bytes`
//@ gsubst `&bytes[$n..]` => `vx_range(bytes, $n, bytes.len())`
//@ gsubst `bytes[$i..].chunks($k).next() == Some(&$l[..])` => `vx_first_chunk_is(bytes, $i, $k, $l)`
//@ gsubst `bytes.get($i) == Some(&$l)` => `vx_get_is(bytes, $i, $l)`
#[verifier::external_body]
pub struct EnumIter<'a> { p: &'a u8 }
impl<'a> EnumIter<'a> {
    pub uninterp spec fn all(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, u8)>)
        ensures final(self).all() == old(self).all(), match r {
            None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos(),
            Some((i, b)) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && i == old(self).pos() && b == old(self).all()[i as int],
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn enum_iter<'a>(s: &'a [u8]) -> (r: EnumIter<'a>) ensures r.all() == s@, r.pos() == 0 { unimplemented!() }
/// `s[i..].chunks(k).next() == Some(l)`
#[verifier::external_body]
pub fn vx_first_chunk_is(s: &[u8], i: usize, k: usize, l: &[u8]) -> (r: bool)
    requires i <= s@.len(), k > 0
    ensures r == (i < s@.len() && l@.len() == (if i + k <= s@.len() { k as int } else { s@.len() - i }) && forall|j: int| 0 <= j < l@.len() ==> #[trigger] s@[i + j] == l@[j]) { unimplemented!() }
/// `s.get(i) == Some(&b)`
#[verifier::external_body]
pub fn vx_get_is(s: &[u8], i: usize, b: u8) -> (r: bool) ensures r == (i < s@.len() && s@[i as int] == b) { unimplemented!() }
//@ fn is_complete_fast for0=fn:enum_iter attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires prev_len <= bytes@.len()
    ensures
        !r ==> forall|k: int| prev_len < k <= bytes@.len() ==> !blank_end(bytes@, k), //#C17
//@ loop 0
    invariant
        vx_it0.all() == bytes@, vx_it0.pos() <= bytes@.len(), bytes@ == all0.skip(start as int),
        forall|j: int| start <= j < start + vx_it0.pos() ==> !#[trigger] blank_at(all0, j),
//@ ghost start
let ghost all0 = bytes@;
//@ ghost before-tail
proof { assert forall|k: int| prev_len < k <= all0.len() implies !blank_end(all0, k) by { assert(!blank_at(all0, k - 2) || k < 2); assert(!blank_at(all0, k - 3) || k < 3); } }
//@ ghost loop 0 start
proof { let j = start + i; assert(bytes@[i as int] == all0[j]); if i + 1 < bytes@.len() { assert(bytes@[i + 1] == all0[j + 1]); } if i + 2 < bytes@.len() { assert(bytes@[i + 2] == all0[j + 2]); assert(bytes@[i + 1 + 1] == all0[j + 2]); assert(bytes@[i + 1 + 0] == all0[j + 1]); } }
//@ fn parse_headers
    requires old(bytes)@.len() > 0 ==> true, match prev_len { Some(p) => p <= old(bytes)@.len() && T::outcome(old(bytes)@.take(p as int)) is None, None => true }
    ensures suffix(old(bytes)@, final(bytes)@), match r {
            Ok(Some(m)) => T::outcome(old(bytes)@) == Some(((old(bytes)@.len() - final(bytes)@.len()) as nat, m)), //#C17
            Ok(None) => same_outcome::<T>(old(bytes)@, final(bytes)@) && T::outcome(final(bytes)@) is None, //#C17
            Err(e) => e.k is Syntax,
        }
//@ ghost start
proof { T::law(bytes@, 0); assert(bytes@.skip(0) =~= bytes@);
    match prev_len { Some(p) => { T::law(bytes@, p as int); }, None => {} } }
//@ rsubst `is_complete_fast(bytes,` => `is_complete_fast(bytes.as_ref(),`
//@ end
//@ source src/proto/h1/io.rs
/// what of `g` precedes its last part `r`
pub open spec fn before(g: Seq<u8>, r: Seq<u8>) -> Seq<u8> { g.take(g.len() - r.len()) }
// ---- the buffered connection ------------------------------------------------------
impl<T: Read + Write, B: Buf> Buffered<T, B> {
    /// what was read and not yet consumed is the last part of what the transport gave
    pub open spec fn ok(&self) -> bool {
        &&& self.write_buf.bok() && self.read_buf_strategy.sok()
        &&& suffix(self.io.given(), self.read_buf@)
    }
    pub open spec fn room(&self) -> bool { self.read_buf_strategy.smax() > 0 }
    /// the part already looked at holds no complete head
    pub open spec fn pok<S: Http1Transaction>(&self) -> bool { match self.partial_len { Some(p) => p <= self.read_buf@.len() && S::outcome(self.read_buf@.take(p as int)) is None, None => true } }
    /// everything taken by the transport and everything still to be
    pub open spec fn out(&self) -> Seq<u8> { self.io.taken() + self.write_buf.bytes() }
    pub open spec fn consumed(&self) -> Seq<u8> { before(self.io.given(), self.read_buf@) }
    /// nothing changes on the reading side
    pub open spec fn rsame(o: Self, n: Self) -> bool { n.read_buf@ == o.read_buf@ && n.io.given() == o.io.given() && n.io.rfailed() == o.io.rfailed() && n.io.reof() == o.io.reof() && n.io.rstalled() == o.io.rstalled() && n.read_buf_strategy == o.read_buf_strategy && n.partial_len == o.partial_len && n.read_blocked == o.read_blocked }
    /// nothing changes on the writing side
    pub open spec fn wrsame(o: Self, n: Self) -> bool { n.write_buf == o.write_buf && n.io.taken() == o.io.taken() && n.io.flushed() == o.io.flushed() && n.io.closed() == o.io.closed() && n.io.wstalled() == o.io.wstalled() && n.flush_pipeline == o.flush_pipeline }
}
//@ fn Buffered::new
    ensures r.ok(), r.read_buf@.len() == 0, r.partial_len is None, r.io.given() == io.given(), r.out() == io.taken(), r.read_buf_strategy.smax() == 417792, !r.flush_pipeline
//@ ghost start
proof { assert(io.given().skip(io.given().len() as int) =~= Seq::<u8>::empty()); }
//@ fn Buffered::set_flush_pipeline
    requires old(self).ok(), old(self).write_buf.bytes().len() == 0
    ensures final(self).ok(), final(self).out() == old(self).out(), final(self).flush_pipeline == enabled
//@ fn Buffered::set_max_buf_size panics=runtime
    requires old(self).ok()
    ensures final(self).ok(), max >= 8192, final(self).read_buf_strategy is Adaptive, final(self).read_buf_strategy.smax() == max //#C16
//@ fn Buffered::set_read_buf_exact_size
    requires old(self).ok()
    ensures final(self).ok(), final(self).read_buf_strategy.smax() == sz
//@ fn Buffered::set_write_strategy_flatten
    requires old(self).ok(), old(self).write_buf.queue.bufs@.len() == 0
    ensures final(self).flush_pipeline == old(self).flush_pipeline, final(self).ok(), final(self).out() == old(self).out(), Self::rsame(*old(self), *final(self)), final(self).write_buf.strategy is Flatten
//@ fn Buffered::set_write_strategy_queue
    requires old(self).ok(), old(self).write_buf.queue.bufs@.len() == 0
    ensures final(self).flush_pipeline == old(self).flush_pipeline, final(self).ok(), final(self).out() == old(self).out(), Self::rsame(*old(self), *final(self)), final(self).write_buf.strategy is Queue
//@ fn Buffered::read_buf
    ensures r@ == self.read_buf@
//@ fn Buffered::read_buf_remaining_mut
    ensures r == self.read_buf.spare().len()
//@ fn Buffered::can_headers_buf
    requires self.ok()
    ensures r == (self.write_buf.queue.bytes().len() == 0)
//@ fn Buffered::headers_buf
    requires old(self).ok(), old(self).write_buf.queue.bytes().len() == 0
    ensures
        *r == old(self).write_buf.headers.bytes,
        // whatever is appended goes out after what was already waiting
        final(r)@.len() >= r@.len() && final(r)@.take(r@.len() as int) == r@ ==> final(self).ok() && final(self).out() == old(self).out() + final(r)@.skip(r@.len() as int), //#C13
        Self::rsame(*old(self), *final(self)),
//@ ghost start
proof { assert forall|v: Vec<u8>| #![trigger v@] v@.len() >= self.write_buf.headers.bytes@.len() && v@.take(self.write_buf.headers.bytes@.len() as int) == self.write_buf.headers.bytes@ implies
    v@.skip(self.write_buf.headers.pos as int) == self.write_buf.headers.bytes@.skip(self.write_buf.headers.pos as int) + v@.skip(self.write_buf.headers.bytes@.len() as int) && v@.len() <= 0x7fff_ffff_ffff_ffff by {
        ax_vec_len(&v); let o = self.write_buf.headers.bytes@; let p = self.write_buf.headers.pos as int; assert(v@.skip(p) =~= v@.take(o.len() as int).skip(p) + v@.skip(o.len() as int)); }
    assert(self.write_buf.queue.bytes() =~= Seq::<u8>::empty());
    assert forall|s: Seq<u8>| s + Seq::<u8>::empty() == s by { assert(s + Seq::<u8>::empty() =~= s); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| a + (b + c) == a + b + c by { assert(a + (b + c) =~= a + b + c); }
}
//@ fn Buffered::write_buf
    ensures *r == old(self).write_buf, final(self).write_buf == *final(r), final(self).io == old(self).io, Self::rsame(*old(self), *final(self))
//@ fn Buffered::buffer
    requires old(self).ok(), buf.bok(), buf.ivok(), buf.bytes().len() > 0, old(self).write_buf.bytes().len() + buf.bytes().len() <= 0x7fff_ffff_ffff_ffff
    ensures final(self).ok(), final(self).out() == old(self).out() + buf.bytes(), Self::rsame(*old(self), *final(self)) //#C13
//@ ghost end
proof { assert(self.out() =~= old(self).out() + buf.bytes()); }
//@ fn Buffered::has_buffered_write
    requires self.ok()
    ensures r == (self.write_buf.bytes().len() > 0)
//@ fn Buffered::can_buffer
    requires self.ok()
//@ fn Buffered::consume_leading_lines attr="loop_isolation(false)"
    requires old(self).ok()
    ensures final(self).ok(), final(self).io == old(self).io, Self::wrsame(*old(self), *final(self)),
        final(self).read_buf@.len() <= old(self).read_buf@.len(),
        final(self).read_buf@ == old(self).read_buf@.skip(old(self).read_buf@.len() - final(self).read_buf@.len()), //#C17
        forall|k: int| 0 <= k < old(self).read_buf@.len() - final(self).read_buf@.len() ==> (#[trigger] old(self).read_buf@[k] == 0x0d || old(self).read_buf@[k] == 0x0a), //#C17
//@ loop 0
    invariant i <= self.read_buf@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] self.read_buf@[k] == 0x0d || self.read_buf@[k] == 0x0a), *self == *old(self),
    decreases self.read_buf@.len() - i
//@ ghost start
proof { assert forall|k: int| 0 <= k <= self.read_buf@.len() implies suffix(self.io.given(), #[trigger] self.read_buf@.skip(k)) by { lemma_suffix(self.io.given(), self.read_buf@, Seq::empty(), k); }
   assert(self.read_buf@.skip(0) =~= self.read_buf@); }
//@ fn Buffered::poll_read_from_io
    requires old(self).ok()
    ensures
        final(self).ok(), Self::wrsame(*old(self), *final(self)), final(self).partial_len == old(self).partial_len,
        final(self).read_buf_strategy.smax() == old(self).read_buf_strategy.smax(),
        // never more than the maximum is kept
        old(self).read_buf@.len() <= old(self).read_buf_strategy.smax() ==> final(self).read_buf@.len() <= old(self).read_buf_strategy.smax(), //#C16
        final(self).read_blocked == (r is Pending), r is Pending ==> final(self).io.rstalled(), //#C17
        sgrew(old(self).io.given(), final(self).io.given()), //#C14,C17
        final(self).read_buf@ == old(self).read_buf@ + sdelta(old(self).io.given(), final(self).io.given()), //#C14,C17
        match r {
            Poll::Ready(Ok(n)) => n == final(self).read_buf@.len() - old(self).read_buf@.len() && final(self).io.rfailed() == old(self).io.rfailed()
                && (old(self).read_buf@.len() < old(self).read_buf_strategy.smax() ==> final(self).io.reof() == (old(self).io.reof() || n == 0)),
            Poll::Ready(Err(_)) => final(self).io.given() == old(self).io.given() && final(self).io.rfailed(),
            Poll::Pending => final(self).io.given() == old(self).io.given() && final(self).io.rfailed() == old(self).io.rfailed() && final(self).io.reof() == old(self).io.reof(),
        },
//@ ghost start
proof { let g = self.io.given(); let rb = self.read_buf@;
    assert forall|x: Seq<u8>, r2: Seq<u8>| sgrew(g, x) && r2 == rb + sdelta(g, x) implies #[trigger] suffix(x, r2) by { lemma_suffix(g, rb, sdelta(g, x), 0); }
    assert(rb + Seq::<u8>::empty() =~= rb); assert(g + Seq::<u8>::empty() =~= g); }
//@ ghost before `Poll::Ready(Ok(n))`
proof { lemma_suffix(old(self).io.given(), old(self).read_buf@, sdelta(old(self).io.given(), self.io.given()), 0);
assert(old(self).io.given() + sdelta(old(self).io.given(), self.io.given()) == self.io.given());
assert(old(self).read_buf@ + sdelta(old(self).io.given(), self.io.given()) == self.read_buf@);
assert(self.ok()); }
//@ fn Buffered::parse attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires old(self).ok(), old(self).pok::<S>()
    ensures
        final(self).ok(), (r is Ready && r->Ready_0 is Err) || final(self).pok::<S>(), Self::wrsame(*old(self), *final(self)), sgrew(old(self).io.given(), final(self).io.given()),
        suffix(old(self).read_buf@ + sdelta(old(self).io.given(), final(self).io.given()), final(self).read_buf@),
        // a head is acted on exactly when it is complete, and exactly it is consumed
        ({ let all = old(self).read_buf@ + sdelta(old(self).io.given(), final(self).io.given()); match r { //#C17
            Poll::Ready(Ok(m)) => S::outcome(all) is Some && ((all.len() - final(self).read_buf@.len()) as nat, m) == S::outcome(all)->0, //#C17
            Poll::Pending => S::outcome(all) is None && final(self).io.rstalled(), //#C17
            Poll::Ready(Err(e)) => e.k is Syntax || e.k is Io && final(self).io.rfailed() || e.k is Incomplete && (final(self).io.reof() || old(self).read_buf_strategy.smax() == 0) //#C17
                || e.k is TooLarge && S::outcome(all) is None && final(self).read_buf@.len() >= old(self).read_buf_strategy.smax(), //#C17
        } }), //#C17
        old(self).read_buf@.len() <= old(self).read_buf_strategy.smax() ==> final(self).read_buf@.len() <= old(self).read_buf_strategy.smax(), //#C16
        r is Pending ==> final(self).read_buf@.len() < old(self).read_buf_strategy.smax(), //#C16
//@ ghost start
proof { let rb = self.read_buf@; let g = self.io.given(); assert(sdelta(g, g) =~= Seq::<u8>::empty()); assert(g + Seq::<u8>::empty() =~= g); assert(rb + Seq::<u8>::empty() =~= rb); assert(rb.skip(0) =~= rb); }
//@ ghost loop 0 start
let ghost q = *self;
proof {
    let all = old(self).read_buf@ + sdelta(old(self).io.given(), q.io.given());
    assert forall|s: Seq<u8>| s + Seq::<u8>::empty() == s by { assert(s + Seq::<u8>::empty() =~= s); }
    let all = old(self).read_buf@ + sdelta(old(self).io.given(), q.io.given());
    // what the head parser leaves, and what the transport adds to it
    assert forall|b2: Seq<u8>| #[trigger] suffix(q.read_buf@, b2) implies suffix(q.io.given(), b2) && suffix(all, b2) by { lemma_sfx_trans(q.io.given(), q.read_buf@, b2); lemma_sfx_trans(all, q.read_buf@, b2); }
    assert forall|b2: Seq<u8>| #[trigger] same_outcome::<S>(q.read_buf@, b2) && suffix(q.read_buf@, b2) implies same_outcome::<S>(all, b2) by { lemma_same_trans::<S>(all, q.read_buf@, b2); }
    assert forall|b2: Seq<u8>, g2: Seq<u8>| #[trigger] suffix(q.read_buf@, b2) && #[trigger] sgrew(q.io.given(), g2) implies suffix(g2, b2 + sdelta(q.io.given(), g2))
        && suffix(old(self).read_buf@ + sdelta(old(self).io.given(), g2), b2 + sdelta(q.io.given(), g2)) && sgrew(old(self).io.given(), g2) && (b2 + sdelta(q.io.given(), g2)).take(b2.len() as int) == b2
        && (same_outcome::<S>(all, b2) ==> same_outcome::<S>(old(self).read_buf@ + sdelta(old(self).io.given(), g2), b2 + sdelta(q.io.given(), g2))) by {
        lemma_parse_step(old(self).read_buf@, old(self).io.given(), q.read_buf@, q.io.given(), b2, g2);
        let d = sdelta(q.io.given(), g2);
        assert((b2 + d).take(b2.len() as int) =~= b2);
        assert(old(self).read_buf@ + sdelta(old(self).io.given(), g2) =~= all + d);
        if same_outcome::<S>(all, b2) { lemma_same_add::<S>(all, b2, d); }
    }
    assert(S::outcome(all + Seq::<u8>::empty()) == S::outcome(all));
    assert(S::outcome(q.read_buf@ + Seq::<u8>::empty()) == S::outcome(q.read_buf@));
}
//@ rsubst `super::role::parse_headers::<S>` => `parse_headers::<S>`
//@ rsubst `crate::Error::new_too_large()` => `HError::new_too_large()`
//@ rsubst `crate::Error::new_incomplete()` => `HError::new_incomplete()`
//@ loop 0
    invariant
        self.ok(), self.pok::<S>(), Self::wrsame(*old(self), *self), sgrew(old(self).io.given(), self.io.given()),
        self.read_buf_strategy.smax() == old(self).read_buf_strategy.smax(),
        suffix(old(self).read_buf@ + sdelta(old(self).io.given(), self.io.given()), self.read_buf@),
        same_outcome::<S>(old(self).read_buf@ + sdelta(old(self).io.given(), self.io.given()), self.read_buf@),
        old(self).read_buf@.len() <= old(self).read_buf_strategy.smax() ==> self.read_buf@.len() <= old(self).read_buf_strategy.smax(),
//@ fn Buffered::into_inner
    ensures r.0 == self.io, r.1@ == self.read_buf@ //#C14
//@ fn Buffered::is_read_blocked
    ensures r == self.read_blocked
//@ fn Buffered::poll_flush attr="loop_isolation(false)"
    requires old(self).ok()
    ensures
        final(self).ok(), Self::rsame(*old(self), *final(self)),
        final(self).out() == old(self).out(), //#C13
        sgrew(old(self).io.taken(), final(self).io.taken()), //#C13
        rok(r) ==> (final(self).write_buf.bytes().len() == 0 && final(self).io.flushed()) || (old(self).flush_pipeline && old(self).read_buf@.len() > 0), //#C13
        // it waits only for the transport
        r is Pending ==> final(self).io.wstalled(), //#C13
//@ loop 0
    invariant
        self.ok(), Self::rsame(*old(self), *self), self.out() == old(self).out(), sgrew(old(self).io.taken(), self.io.taken()),
        self.write_buf.bytes().len() > 0,
    decreases self.write_buf.bytes().len() //#C13
//@ ghost loop 0 start
let ghost o = *self;

//@ ghost after `self.write_buf.advance(n);`
proof { assert(self.out() =~= o.out()); assert(self.io.taken() =~= old(self).io.taken() + sdelta(old(self).io.taken(), self.io.taken())); }
//@ fn Buffered::poll_flush_flattened attr="loop_isolation(false)"
    requires old(self).ok(), old(self).write_buf.strategy is Flatten
    ensures
        final(self).ok(), Self::rsame(*old(self), *final(self)), final(self).write_buf.strategy is Flatten,
        final(self).out() == old(self).out(), //#C13
        sgrew(old(self).io.taken(), final(self).io.taken()), //#C13
        rok(r) ==> final(self).write_buf.bytes().len() == 0 && final(self).io.flushed(), //#C13
        r is Pending ==> final(self).io.wstalled(), //#C13
//@ loop 0
    invariant
        self.ok(), Self::rsame(*old(self), *self), self.out() == old(self).out(), sgrew(old(self).io.taken(), self.io.taken()),
        self.write_buf.strategy is Flatten,
    decreases self.write_buf.bytes().len() //#C13
//@ ghost loop 0 start
let ghost o = *self;

//@ ghost after `self.write_buf.headers.advance(n);`
proof { assert(self.write_buf.queue.bytes() =~= Seq::<u8>::empty()); assert(self.out() =~= o.out()); assert(self.io.taken() =~= old(self).io.taken() + sdelta(old(self).io.taken(), self.io.taken())); }
//@ fn Buffered::poll_shutdown
    requires old(self).ok()
    ensures
        final(self).ok(), Self::rsame(*old(self), *final(self)), final(self).out() == old(self).out(),
        rok(r) ==> final(self).io.closed() && final(self).write_buf.bytes().len() == 0, //#C13
        r is Pending ==> final(self).io.wstalled(), //#C13
//@ fn Buffered::end_pipeline optional=1
    ensures final(self).ok() == old(self).ok(), !final(self).flush_pipeline, Self::rsame(*old(self), *final(self)), final(self).out() == old(self).out(), final(self).write_buf.bytes() == old(self).write_buf.bytes(), final(self).io == old(self).io
//@ end
pub proof fn lemma_sfx_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires suffix(a, b), suffix(b, c)
    ensures suffix(a, c)
{ assert(a.skip(a.len() - c.len()) =~= a.skip(a.len() - b.len()).skip(b.len() - c.len())); }
pub proof fn lemma_same_trans<S: Heads>(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires same_outcome::<S>(a, b), same_outcome::<S>(b, c), c.len() <= b.len() <= a.len()
    ensures same_outcome::<S>(a, c)
{ assert forall|t: Seq<u8>| #![trigger S::outcome(a + t)] #![trigger S::outcome(c + t)] match S::outcome(c + t) { None => S::outcome(a + t) is None, Some((k, m)) => S::outcome(a + t) == Some(((k + a.len() - c.len()) as nat, m)) } by { let x = S::outcome(b + t); } }
pub proof fn lemma_same_add<S: Heads>(a: Seq<u8>, b: Seq<u8>, d: Seq<u8>)
    requires same_outcome::<S>(a, b)
    ensures same_outcome::<S>(a + d, b + d)
{ assert forall|t: Seq<u8>| #![trigger S::outcome(a + d + t)] #![trigger S::outcome(b + d + t)] match S::outcome(b + d + t) { None => S::outcome(a + d + t) is None, Some((k, m)) => S::outcome(a + d + t) == Some(((k + (a + d).len() - (b + d).len()) as nat, m)) } by {
    assert(a + d + t =~= a + (d + t)); assert(b + d + t =~= b + (d + t)); let x = S::outcome(b + (d + t)); } }
pub proof fn lemma_parse_step(rb0: Seq<u8>, g0: Seq<u8>, rb1: Seq<u8>, g1: Seq<u8>, b2: Seq<u8>, g2: Seq<u8>)
    requires sgrew(g0, g1), suffix(rb0 + sdelta(g0, g1), rb1), suffix(g1, rb1), suffix(rb1, b2), sgrew(g1, g2)
    ensures suffix(g2, b2 + sdelta(g1, g2)), suffix(rb0 + sdelta(g0, g2), b2 + sdelta(g1, g2)), sgrew(g0, g2), sdelta(g0, g2) == sdelta(g0, g1) + sdelta(g1, g2)
{
    let d = sdelta(g1, g2);
    assert(sdelta(g0, g2) =~= sdelta(g0, g1) + d);
    assert(g2 =~= g0 + sdelta(g0, g2));
    lemma_sfx_trans(g1, rb1, b2); lemma_suffix(g1, b2, d, 0);
    lemma_sfx_trans(rb0 + sdelta(g0, g1), rb1, b2); lemma_suffix(rb0 + sdelta(g0, g1), b2, d, 0);
    assert(rb0 + sdelta(g0, g1) + d =~= rb0 + sdelta(g0, g2));
}
pub open spec fn mem_step(g: Seq<u8>, rb: Seq<u8>, g2: Seq<u8>, rb2: Seq<u8>) -> bool {
    let rb1 = rb + sdelta(g, g2); suffix(g, rb) && sgrew(g, g2) && rb2.len() <= rb1.len() && rb2 == rb1.skip(rb1.len() - rb2.len())
}
pub open spec fn mem_post(g: Seq<u8>, rb: Seq<u8>, g2: Seq<u8>, rb2: Seq<u8>) -> bool {
    let rb1 = rb + sdelta(g, g2); let a = before(g, rb); let b = before(g2, rb2);
    sgrew(a, b) && sdelta(a, b) == rb1.take(rb1.len() - rb2.len())
}
pub proof fn lemma_mem(g: Seq<u8>, rb: Seq<u8>, g2: Seq<u8>, rb2: Seq<u8>)
    requires mem_step(g, rb, g2, rb2)
    ensures suffix(g2, rb2), mem_post(g, rb, g2, rb2)
{
    let d = sdelta(g, g2); let rb1 = rb + d;
    lemma_suffix(g, rb, d, 0); lemma_suffix(g2, rb1, Seq::empty(), rb1.len() - rb2.len());
    let a = before(g, rb); let b = before(g2, rb2);
    assert(a =~= g2.take(g2.len() - rb1.len()));
    assert(sdelta(a, b) =~= g2.skip(g2.len() - rb1.len()).take(rb1.len() - rb2.len()));
    assert(b =~= a + sdelta(a, b));
}
//@ impl <MemRead for Buffered> `impl<T: Read + Write, B: Buf> MemRead for Buffered<T, B>`
    open spec fn hist(&self) -> Seq<u8> { self.consumed() }
    open spec fn failed(&self) -> bool { self.io.rfailed() }
    open spec fn eof(&self) -> bool { self.io.reof() }
    open spec fn mok(&self) -> bool { self.ok() && self.room() }
//@ fn read_mem
//@ ghost start
proof { let g = self.io.given(); let rb = self.read_buf@;
    assert forall|g2: Seq<u8>, rb2: Seq<u8>| #![trigger suffix(g2, rb2)] #![trigger before(g2, rb2)] mem_step(g, rb, g2, rb2) implies suffix(g2, rb2) && mem_post(g, rb, g2, rb2) by { lemma_mem(g, rb, g2, rb2); }
    assert(g + Seq::<u8>::empty() =~= g); assert(rb + Seq::<u8>::empty() =~= rb); assert(rb.skip(0) =~= rb); assert(sdelta(g, g) =~= Seq::<u8>::empty());
}
//@ endimpl
//@ end
} // verus!
verus! {
//VX-AUTO
}
fn main() {}
