//@ include prelude.rs
//@ include bufs.rs
//@ include http.rs
//@ include headwrite.rs
verus! {
use header::*;
//@ source src/common/buf.rs
//@ gsubst `$s.iter().map(|$v| $v.len()).sum()` => `vx_sum_len($s)`
//@ fn slices_len
    requires iocat(slices@).len() <= usize::MAX
    ensures r == iocat(slices@).len()
//@ end
//@ source src/proto/h1/encode.rs
//@ gsubst `&dst[..$n]` => `vx_sub(dst, 0, $n)`
//@ gsubst `&mut dst[$n..]` => `vx_tail_mut(dst, $n)`
//@ gsubst `$b.first_ref()` => `&$b.a`
//@ gsubst `$b.last_ref()` => `$b.b`
//@ item enum Kind
//@ item struct Encoder
//@ item enum BufKind
//@ item struct EncodedBuf
//@ item struct NotEof
//@ item type StaticBuf
//@ item const USIZE_BYTES
//@ item const CHUNK_SIZE_MAX_BYTES
//@ item struct ChunkSize
//@ include wirespec.rs
// ---- specification ---------------------------------------------------------
/// no buffer a caller hands over can exceed the address space
pub open spec fn fits<B: Buf>(b: B) -> bool { b.bok() && b.vok() && 0 < b.bytes().len() < 0x7fff_ffff_ffff_ffff }
/// octets still allowed
pub open spec fn cap(k: Kind, m: Seq<u8>) -> Seq<u8> {
    match k { Kind::Length(n) => if m.len() > n { m.take(n as int) } else { m }, _ => m }
}
pub open spec fn wire(k: Kind, m: Seq<u8>) -> Seq<u8> { if k is Chunked { chunk_of(m) } else { cap(k, m) } }
pub open spec fn after(k: Kind, m: Seq<u8>) -> Kind {
    match k { Kind::Length(n) => Kind::Length((n - cap(k, m).len()) as u64), k => k }
}
/// a message body may end here
pub open spec fn complete(k: Kind) -> bool { match k { Kind::Length(n) => n == 0, _ => true } }

impl ChunkSize {
    pub open spec fn cok(&self) -> bool { self.pos <= self.len && self.len <= 18 }
    pub open spec fn cbytes(&self) -> Seq<u8> { self.bytes@.subrange(self.pos as int, self.len as int) }
    /// `write!(self, "{len:X}\r\n")`: core::fmt writes the upper-case hexadecimal
    /// digits and the literal through ChunkSize::write_str. Assumed here; decided
    /// for every usize by the Kani harness size_line (C08).
    #[verifier::external_body]
    pub fn vx_write_hex_line(&mut self, len: usize)
        requires old(self).pos == 0, old(self).len == 0
        ensures final(self).cok(), final(self).cbytes() == hex(len as nat) + crlf() { unimplemented!() }
}
//@ fn ChunkSize::new
    ensures r.cok(), r.bytes() == hex(len as nat) + crlf()
//@ rsubst `write!(&mut size, "{len:X}\r\n").expect("CHUNK_SIZE_MAX_BYTES should fit any usize")` => `size.vx_write_hex_line(len)`
//@ impl <Buf for ChunkSize> `impl Buf for ChunkSize`
    open spec fn bytes(&self) -> Seq<u8> { self.cbytes() }
    open spec fn bok(&self) -> bool { self.cok() }
    open spec fn vok(&self) -> bool { true }
    open spec fn contig(&self) -> bool { true }
    open spec fn whole(&self) -> bool { true }
    // no override in hyper: the default of bytes::Buf
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (n: usize) { vx_one_chunk(self.remaining(), self.chunk(), dst, Ghost(self.bytes())) }
//@ fn remaining
//@ fn chunk
//@ fn advance
//@ endimpl

//@ fn Encoder::new
    ensures r.kind == kind, !r.is_last
//@ fn Encoder::chunked
    ensures r.kind == Kind::Chunked(None), !r.is_last
//@ fn Encoder::length
    ensures r.kind == Kind::Length(len), !r.is_last
//@ fn Encoder::close_delimited
    ensures r.kind is CloseDelimited, !r.is_last
//@ fn Encoder::into_chunked_with_trailing_fields
    ensures r.is_last == self.is_last, r.kind == (if self.kind is Chunked { Kind::Chunked(Some(trailers)) } else { self.kind })
//@ fn Encoder::is_eof
    ensures r == (self.kind == Kind::Length(0))
//@ fn Encoder::set_last
    ensures r.kind == self.kind, r.is_last == is_last
//@ fn Encoder::is_last
    ensures r == self.is_last
//@ fn Encoder::is_close_delimited
    ensures r == (self.kind is CloseDelimited)
//@ fn Encoder::is_chunked
    ensures r == (self.kind is Chunked)
//@ fn Encoder::end ret=r
    ensures match r {
        Ok(None) => complete(self.kind) && !(self.kind is Chunked), //#C07
        Ok(Some(b)) => self.kind is Chunked && b.kind is ChunkedEnd && b.kind->ChunkedEnd_0@ == last_chunk(),
        Err(NotEof(n)) => !complete(self.kind) && self.kind == Kind::Length(n), //#C07
    }
//@ ghost start
proof { assert((&[48u8, 13, 10, 13, 10])@ =~= last_chunk()); }
//@ impl <Buf for EncodedBuf> `impl<B: Buf> Buf for EncodedBuf<B>`
    open spec fn bytes(&self) -> Seq<u8> {
        match self.kind { BufKind::Exact(b) => b.bytes(), BufKind::Limited(b) => b.bytes(), BufKind::Chunked(b) => b.bytes(),
            BufKind::ChunkedEnd(b) => b.bytes(), BufKind::Trailers(b) => b.bytes() }
    }
    open spec fn bok(&self) -> bool {
        match self.kind { BufKind::Exact(b) => b.bok(), BufKind::Limited(b) => b.bok(), BufKind::Chunked(b) => b.bok(),
            BufKind::ChunkedEnd(b) => b.bok(), BufKind::Trailers(b) => b.bok() }
    }
    open spec fn vok(&self) -> bool {
        match self.kind { BufKind::Exact(b) => b.vok(), BufKind::Limited(b) => b.vok(), BufKind::Chunked(b) => b.a.vok(),
            BufKind::ChunkedEnd(b) => true, BufKind::Trailers(b) => true }
    }
    open spec fn contig(&self) -> bool { false }
    open spec fn whole(&self) -> bool { false }
//@ fn remaining
//@ fn chunk
//@ fn advance
//@ fn chunks_vectored
//@ ghost start
broadcast use group_listed;
//@ endimpl
//@ impl <From<B> for EncodedBuf> `impl<B: Buf> FromBuf<B> for EncodedBuf<B>`
    open spec fn fvok(b: &B) -> bool { b.vok() }
//@ fn from
//@ endimpl
//@ impl <From<Take<B>> for EncodedBuf> `impl<B: Buf> FromBuf<Take<B>> for EncodedBuf<B>`
    open spec fn fvok(b: &Take<B>) -> bool { b.vok() }
//@ fn from
//@ endimpl
//@ impl <From<Chain<Chain<ChunkSize,B>,StaticBuf>> for EncodedBuf> `impl<B: Buf> FromBuf<Chain<Chain<ChunkSize, B>, StaticBuf>> for EncodedBuf<B>`
    open spec fn fvok(b: &Chain<Chain<ChunkSize, B>, StaticBuf>) -> bool { b.a.vok() }
//@ fn from
//@ endimpl
//@ end

//@ fn Encoder::encode
    requires fits(msg)
    ensures
        r.bok(), r.vok(),
        old(self).kind is Chunked ==> r.bytes() == wire(old(self).kind, msg.bytes()), //#C08
        !(old(self).kind is Chunked) ==> r.bytes() == wire(old(self).kind, msg.bytes()), //#C07
        final(self).kind == after(old(self).kind, msg.bytes()),
        final(self).is_last == old(self).is_last,
//@ ghost start
proof { assert((&[13u8, 10])@ =~= crlf()); lemma_hex_len(msg.bytes().len()); }
//@ ghost before-tail
proof { if old(self).kind is Chunked { assert(kind->Chunked_0.bytes() =~= chunk_of(msg.bytes())); assert(kind->Chunked_0.a.bytes().len() <= 18 + msg.bytes().len()); } }
//@ end
pub open spec fn pow16(k: nat) -> nat decreases k { if k == 0 { 1 } else { 16 * pow16((k - 1) as nat) } }
pub proof fn lemma_hex_len_k(n: nat, k: nat)
    requires n < pow16(k), k >= 1
    ensures 1 <= hex(n).len() <= k
    decreases k
{
    if n >= 16 {
        if k == 1 { assert(pow16(1) == 16) by { reveal_with_fuel(pow16, 2); } }
        else { assert(n / 16 < pow16((k - 1) as nat)); lemma_hex_len_k(n / 16, (k - 1) as nat); }
    }
}
pub proof fn lemma_hex_len(n: nat)
    requires n <= u64::MAX
    ensures 1 <= hex(n).len() <= 16
{
    assert(pow16(16) == 0x1_0000_0000_0000_0000) by(compute);
    lemma_hex_len_k(n, 16);
}

/// io.rs WriteBuf as this file sees it; its contract is discharged in unit `io`.
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct WriteBuf<B> { b: Vec<B> }
impl<B: Buf> WriteBuf<B> {
    pub uninterp spec fn wbytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn buffer<BB: IntoBuf<B>>(&mut self, buf: BB)
        requires buf.bok(), buf.ivok(), buf.bytes().len() > 0
        ensures final(self).wbytes() == old(self).wbytes() + buf.bytes() { unimplemented!() }
}
/// the whole remaining body in one go
pub open spec fn wire_end(k: Kind, m: Seq<u8>) -> Seq<u8> { if k is Chunked { chunk_of(m) + last_chunk() } else { cap(k, m) } }
pub open spec fn exact(k: Kind, m: Seq<u8>) -> bool { match k { Kind::Chunked(_) => true, Kind::Length(n) => m.len() >= n, _ => false } }
//@ fn Encoder::encode_and_end
    requires fits(msg), self.kind != Kind::Length(0)
    ensures
        self.kind is Chunked ==> final(dst).wbytes() == old(dst).wbytes() + wire_end(self.kind, msg.bytes()), //#C08
        !(self.kind is Chunked) ==> final(dst).wbytes() == old(dst).wbytes() + wire_end(self.kind, msg.bytes()), //#C07
        r == (!self.is_last && exact(self.kind, msg.bytes())), //#C07,C12
//@ ghost start
proof {
    lemma_hex_len(msg.bytes().len());
    assert((&[13u8, 10, 48, 13, 10, 13, 10])@ =~= crlf() + last_chunk());
    assert(hex(msg.bytes().len()) + crlf() + msg.bytes() + (crlf() + last_chunk()) =~= wire_end(Kind::Chunked(None), msg.bytes()));
}
//@ end

// ---- C09: trailers ----------------------------------------------------------
/// fields that frame, route, authenticate or describe content: never trailers
pub open spec fn permitted(n: HeaderName) -> bool {
    n != AUTHORIZATION && n != CACHE_CONTROL && n != CONTENT_ENCODING && n != CONTENT_LENGTH && n != CONTENT_RANGE && n != CONTENT_TYPE
        && n != HOST && n != MAX_FORWARDS && n != SET_COOKIE && n != TE && n != TRAILER && n != TRANSFER_ENCODING
}
//@ fn is_valid_trailer_field
    ensures r == permitted(*name) //#C09
//@ end
/// std::collections::HashSet<&HeaderName>, only membership is used
#[verifier::external_body]
pub struct NameSet { p: u8 }
impl NameSet {
    pub uninterp spec fn names(&self) -> Seq<HeaderName>;
    #[verifier::external_body]
    pub fn of(v: &Vec<HeaderName>) -> (r: NameSet) ensures r.names() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, n: &HeaderName) -> (r: bool) ensures r == self.names().contains(*n) { unimplemented!() }
}
pub open spec fn sendable(n: HeaderName, allowed: Seq<HeaderName>) -> bool { allowed.contains(n) && permitted(n) }
/// the lines that may go out, in order
pub open spec fn kept_lines(ls: Seq<(HeaderName, HeaderValue)>, allowed: Seq<HeaderName>) -> Seq<(HeaderName, HeaderValue)>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else if sendable(ls.last().0, allowed) { kept_lines(ls.drop_last(), allowed).push(ls.last()) } else { kept_lines(ls.drop_last(), allowed) }
}
/// ... collected by name
pub open spec fn collect(ls: Seq<(HeaderName, HeaderValue)>) -> Seq<Ent>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { hm_append(collect(ls.drop_last()), ls.last().0, ls.last().1) }
}
pub proof fn lemma_collect_push(ls: Seq<(HeaderName, HeaderValue)>, x: (HeaderName, HeaderValue))
    ensures collect(ls.push(x)) == hm_append(collect(ls), x.0, x.1)
{ assert(ls.push(x).drop_last() =~= ls); }
/// the trailer section written for `t`, given the declared names
pub open spec fn trailer_lines(t: Seq<Ent>, allowed: Seq<HeaderName>) -> Seq<(HeaderName, HeaderValue)> { hm_lines(collect(kept_lines(hm_lines(t), allowed))) }
pub open spec fn trailer_section(ls: Seq<(HeaderName, HeaderValue)>, title: bool) -> Seq<u8> { seq![0x30u8, 0x0d, 0x0a] + render(ls, title) + crlf() }
pub proof fn lemma_append_lines(m: Seq<Ent>, n: HeaderName, v: HeaderValue)
    ensures hm_lines(hm_append(m, n, v)).to_multiset() == hm_lines(m).to_multiset().insert((n, v))
    decreases m.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let e = hm_append(m, n, v);
    let l = (n, v);
    let nl = Seq::<(HeaderName, HeaderValue)>::empty();
    if m.len() == 0 {
        assert(e.drop_last() =~= Seq::<Ent>::empty());
        assert(ent_lines(e.last()) =~= nl.push(l));
        assert(hm_lines(e) =~= hm_lines(m).push(l));
    } else if m.last().name == n {
        assert(e.drop_last() =~= m.drop_last());
        assert(e.last() == (Ent { name: n, vals: m.last().vals.push(v) }));
        assert(e.last().vals.len() == m.last().vals.len() + 1);
        assert(ent_lines(e.last()) =~= ent_lines(m.last()).push(l));
        assert(hm_lines(e) == hm_lines(e.drop_last()) + ent_lines(e.last()));
        assert(hm_lines(e) =~= hm_lines(m).push(l));
    } else if hm_has(m.drop_last(), n) {
        lemma_append_lines(m.drop_last(), n, v);
        assert(e.drop_last() =~= hm_append(m.drop_last(), n, v));
        vstd::seq_lib::lemma_multiset_commutative(hm_lines(e.drop_last()), ent_lines(m.last()));
        vstd::seq_lib::lemma_multiset_commutative(hm_lines(m.drop_last()), ent_lines(m.last()));
        assert(hm_lines(e).to_multiset() =~= hm_lines(m).to_multiset().insert(l));
    } else {
        assert(e.drop_last() =~= m);
        assert(ent_lines(e.last()) =~= nl.push(l));
        assert(hm_lines(e) =~= hm_lines(m).push(l));
    }
}
pub proof fn lemma_collect(ls: Seq<(HeaderName, HeaderValue)>)
    ensures hm_lines(collect(ls)).to_multiset() == ls.to_multiset(), hm_lines(collect(ls)).len() == ls.len()
    decreases ls.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if ls.len() > 0 {
        lemma_collect(ls.drop_last());
        lemma_append_lines(collect(ls.drop_last()), ls.last().0, ls.last().1);
        assert(ls =~= ls.drop_last().push(ls.last()));
    }
    hm_lines(collect(ls)).to_multiset_ensures();
    ls.to_multiset_ensures();
}
pub proof fn lemma_kept(ls: Seq<(HeaderName, HeaderValue)>, allowed: Seq<HeaderName>)
    ensures
        forall|x: (HeaderName, HeaderValue)| #[trigger] kept_lines(ls, allowed).to_multiset().count(x) == (if sendable(x.0, allowed) { ls.to_multiset().count(x) } else { 0 }),
    decreases ls.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    ls.to_multiset_ensures();
    if ls.len() > 0 {
        lemma_kept(ls.drop_last(), allowed);
        let (p, x) = (ls.drop_last(), ls.last());
        assert(ls =~= p.push(x));
        assert(ls.to_multiset() =~= p.to_multiset().insert(x));
        let k = kept_lines(p, allowed);
        assert(k.push(x).to_multiset() =~= k.to_multiset().insert(x));
        assert forall|y: (HeaderName, HeaderValue)| #[trigger] kept_lines(ls, allowed).to_multiset().count(y) == (if sendable(y.0, allowed) { ls.to_multiset().count(y) } else { 0 }) by {
            assert(k.to_multiset().count(y) == (if sendable(y.0, allowed) { p.to_multiset().count(y) } else { 0 }));
        }
    } else {
        assert(ls =~= kept_lines(ls, allowed));
        assert forall|y: (HeaderName, HeaderValue)| #[trigger] kept_lines(ls, allowed).to_multiset().count(y) == (if sendable(y.0, allowed) { ls.to_multiset().count(y) } else { 0 }) by { assert(ls.to_multiset() =~= vstd::multiset::Multiset::empty()); }
    }
}
/// C09: every line written was supplied, declared and permitted; every such
/// line supplied is written, and no more often than it was supplied.
pub proof fn theorem_trailers(t: Seq<Ent>, allowed: Seq<HeaderName>)
    ensures
        forall|x: (HeaderName, HeaderValue)| #[trigger] trailer_lines(t, allowed).to_multiset().count(x) == (if sendable(x.0, allowed) { hm_lines(t).to_multiset().count(x) } else { 0 }),
{
    lemma_kept(hm_lines(t), allowed);
    lemma_collect(kept_lines(hm_lines(t), allowed));
}
pub proof fn lemma_render_empty(ls: Seq<(HeaderName, HeaderValue)>, title: bool)
    ensures (render(ls, title).len() == 0) == (ls.len() == 0)
{
    if ls.len() > 0 { assert(hline(nm(ls.last().0, title), ls.last().1@).len() > 0); }
}
//@ fn Encoder::encode_trailers for0=into attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures //#C09
        (r is None) == (!(self.kind is Chunked) || self.kind->Chunked_0 is None || trailer_lines(trailers@, self.kind->Chunked_0->0@).len() == 0), //#C09
        r is Some ==> r->0.kind is Trailers && r->0.kind->Trailers_0.bok() && r->0.kind->Trailers_0.bytes() == trailer_section(trailer_lines(trailers@, self.kind->Chunked_0->0@), title_case_headers), //#C09
//@ rsubst `let allowed_set: HashSet<&HeaderName> = allowed_trailer_fields.iter().collect()` => `let allowed_set = NameSet::of(allowed_trailer_fields)`
//@ loop 0
    invariant
        vx_it0.lines() == hm_lines(trailers@), vx_it0.pos() <= vx_it0.lines().len(),
        allowed_set.names() == allowed_trailer_fields@,
        vx_it0.pos() > 0 ==> cur_name == Some(vx_it0.lines()[vx_it0.pos() - 1].0),
        allowed_trailers@ == collect(kept_lines(vx_it0.lines().take(vx_it0.pos() as int), allowed_trailer_fields@)),
//@ ghost loop 0 start
proof { let k = vx_it0.pos() as int; assert(vx_it0.lines().take(k).drop_last() =~= vx_it0.lines().take(k - 1)); assert(vx_it0.lines().take(k).last() == vx_it0.lines()[k - 1]); lemma_collect_push(kept_lines(vx_it0.lines().take(k - 1), allowed_trailer_fields@), vx_it0.lines()[k - 1]); }
//@ ghost before `let mut buf`
proof {
    let ls = hm_lines(trailers@);
    assert(ls.take(ls.len() as int) =~= ls);
    lemma_render_empty(trailer_lines(trailers@, allowed_trailer_fields@), title_case_headers);
    assert((&[48u8, 13, 10])@ =~= seq![0x30u8, 0x0d, 0x0a]);
    assert((&[13u8, 10])@ =~= crlf());
}
//@ end

} // verus!
verus! {
//VX-AUTO
}
fn main() {}
