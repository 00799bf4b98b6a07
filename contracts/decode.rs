//@ include prelude.rs
//@ include stream.rs
verus! {
//@ source src/proto/h1/decode.rs
//@ item const CHUNKED_EXTENSIONS_LIMIT
//@ item const TRAILER_LIMIT
//@ item enum ChunkedState derive="PartialEq, Eq, Structural, Clone, Copy"
//@ item struct StepArgs
//@ item struct IncompleteBody
//@ item macro byte replace="buf[0] => buf.vget(0)"
//@ item macro or_overflow
//@ item macro put_u8

//@ include chunkspec.rs
// ---- abstraction of the code's state ------------------------------------
pub open spec fn absst(s: ChunkedState) -> S {
    match s {
        ChunkedState::Start => S::Start, ChunkedState::Size => S::Size, ChunkedState::SizeLws => S::Lws,
        ChunkedState::Extension => S::Ext, ChunkedState::SizeLf => S::SizeLf, ChunkedState::Body => S::Body,
        ChunkedState::BodyCr => S::BodyCr, ChunkedState::BodyLf => S::BodyLf, ChunkedState::Trailer => S::Trailer,
        ChunkedState::TrailerLf => S::TrailerLf, ChunkedState::EndCr => S::EndCr, ChunkedState::EndLf => S::EndLf,
        ChunkedState::End => S::End,
    }
}
pub open spec fn trv(t: Option<BytesMut>) -> Option<Seq<u8>> { match t { None => None, Some(b) => Some(b@) } }
pub open spec fn abs(s: ChunkedState, size: u64, ext: u64, tr: Option<BytesMut>, cnt: usize) -> A {
    A { st: absst(s), size: size as nat, ext: ext as nat, tr: trv(tr), cnt: cnt as nat }
}

pub open spec fn delta<R: MemRead>(o: R, n: R) -> Seq<u8> { sdelta(o.hist(), n.hist()) }
pub open spec fn grew<R: MemRead>(o: R, n: R) -> bool { sgrew(o.hist(), n.hist()) && n.mok() }
pub open spec fn quiet<R: MemRead>(o: R, n: R) -> bool { n.failed() == o.failed() && n.eof() == o.eof() }
pub open spec fn anylim() -> Lim { Lim { hdrs: 0, bytes: 0 } }
pub open spec fn mk(st: S, size: u64) -> A { A { st: st, size: size as nat, ext: 0, tr: None, cnt: 0 } }
pub open spec fn mkt(st: S, tr: Option<BytesMut>, cnt: usize) -> A { A { st: st, size: 0, ext: 0, tr: trv(tr), cnt: cnt as nat } }
pub open spec fn lim(h: usize, b: usize) -> Lim { Lim { hdrs: h as nat, bytes: b as nat } }

/// Contract of a step that looks at one octet: at most one octet is consumed,
/// and the next state is the coding's; an error means a transport failure, a
/// premature end, or an octet the coding rejects; "not ready" changes nothing.
pub open spec fn bstep<R: MemRead>(o: R, n: R, r: Poll<Result<ChunkedState, io::Error>>, a: A, post: A, l: Lim) -> bool {
    grew(o, n) && match r {
        Poll::Pending => delta(o, n).len() == 0 && quiet(o, n) && post == a,
        Poll::Ready(Ok(st)) => delta(o, n).len() == 1 && quiet(o, n) && astep(a, delta(o, n)[0], l) == Some(with_st(post, absst(st))),
        Poll::Ready(Err(e)) => (delta(o, n).len() == 0 && (n.failed() || (n.eof() && e.k is UnexpectedEof)))
            || (delta(o, n).len() == 1 && astep(a, delta(o, n)[0], l) is None),
    }
}
/// Contract of a whole step, payload included.
pub open spec fn stepped<R: MemRead>(o: R, n: R, r: Poll<Result<ChunkedState, io::Error>>, a: A, post: A, out: Seq<u8>, l: Lim) -> bool {
    grew(o, n) && match r {
        Poll::Pending => delta(o, n).len() == 0 && quiet(o, n) && post == a && out.len() == 0,
        Poll::Ready(Ok(st)) => (delta(o, n).len() > 0 || a.st is End) && quiet(o, n)
            && run(a, delta(o, n), l) == Some((with_st(post, absst(st)), out)) && wf(with_st(post, absst(st))),
        Poll::Ready(Err(e)) => (delta(o, n).len() == 0 && (n.failed() || (n.eof() && e.k is UnexpectedEof)))
            || run(a, delta(o, n), l) is None,
    }
}

//@ fn ChunkedState::new
    ensures r is Start
//@ fn ChunkedState::read_start
    requires old(rdr).mok(), *old(size) == 0
    ensures bstep(*old(rdr), *final(rdr), r, mk(S::Start, *old(size)), mk(S::Start, *final(size)), anylim())
//@ fn ChunkedState::read_size
    requires old(rdr).mok()
    ensures bstep(*old(rdr), *final(rdr), r, mk(S::Size, *old(size)), mk(S::Size, *final(size)), anylim())
//@ fn ChunkedState::read_size_lws
    requires old(rdr).mok()
    ensures bstep(*old(rdr), *final(rdr), r, mk(S::Lws, 0), mk(S::Lws, 0), anylim())
//@ fn ChunkedState::read_extension
    requires old(rdr).mok(), *old(extensions_cnt) < 16384
    ensures bstep(*old(rdr), *final(rdr), r, A { ext: *old(extensions_cnt) as nat, ..mk(S::Ext, 0) }, A { ext: *final(extensions_cnt) as nat, ..mk(S::Ext, 0) }, anylim())
//@ fn ChunkedState::read_size_lf
    requires old(rdr).mok()
    ensures bstep(*old(rdr), *final(rdr), r, mk(S::SizeLf, size), mk(S::SizeLf, size), anylim())
//@ fn ChunkedState::read_body_cr
    requires old(rdr).mok()
    ensures bstep(*old(rdr), *final(rdr), r, mk(S::BodyCr, 0), mk(S::BodyCr, 0), anylim())
//@ fn ChunkedState::read_body_lf
    requires old(rdr).mok()
    ensures bstep(*old(rdr), *final(rdr), r, mk(S::BodyLf, 0), mk(S::BodyLf, 0), anylim())
//@ fn ChunkedState::read_body
    requires old(rdr).mok(), *old(rem) > 0, *old(buf) is None
    ensures grew(*old(rdr), *final(rdr)), match r {
        Poll::Pending => delta(*old(rdr), *final(rdr)).len() == 0 && quiet(*old(rdr), *final(rdr)) && *final(rem) == *old(rem) && *final(buf) is None,
        Poll::Ready(Ok(st)) => quiet(*old(rdr), *final(rdr)) && *final(buf) is Some && final(buf)->0@ == delta(*old(rdr), *final(rdr))
            && 0 < delta(*old(rdr), *final(rdr)).len() <= *old(rem) && *final(rem) == *old(rem) - delta(*old(rdr), *final(rdr)).len()
            && st == (if *final(rem) == 0 { ChunkedState::BodyCr } else { ChunkedState::Body }),
        Poll::Ready(Err(e)) => *final(buf) is None && delta(*old(rdr), *final(rdr)).len() == 0
            && (final(rdr).failed() || (final(rdr).eof() && e.k is UnexpectedEof)),
    }
//@ fn ChunkedState::read_trailer
    requires old(rdr).mok(), *old(trailers_buf) is Some
    ensures bstep(*old(rdr), *final(rdr), r, mkt(S::Trailer, *old(trailers_buf), 0), mkt(S::Trailer, *final(trailers_buf), 0), lim(0, h1_max_header_size)),
        *final(trailers_buf) is Some,
//@ fn ChunkedState::read_trailer_lf
    requires old(rdr).mok(), *old(trailers_buf) is Some
    ensures bstep(*old(rdr), *final(rdr), r, mkt(S::TrailerLf, *old(trailers_buf), *old(trailers_cnt)), mkt(S::TrailerLf, *final(trailers_buf), *final(trailers_cnt)), lim(h1_max_headers, h1_max_header_size)),
        *final(trailers_buf) is Some,
//@ fn ChunkedState::read_end_cr
    requires old(rdr).mok()
    ensures bstep(*old(rdr), *final(rdr), r, mkt(S::EndCr, *old(trailers_buf), 0), mkt(S::EndCr, *final(trailers_buf), 0), lim(0, h1_max_header_size))
//@ fn ChunkedState::read_end_lf
    requires old(rdr).mok()
    ensures bstep(*old(rdr), *final(rdr), r, mkt(S::EndLf, *old(trailers_buf), 0), mkt(S::EndLf, *final(trailers_buf), 0), lim(0, h1_max_header_size))
//@ fn ChunkedState::step
    requires old(body).mok(),
        wf(abs(*self, *old(vx_arg3.chunk_size), *old(vx_arg3.extensions_cnt), *old(vx_arg3.trailers_buf), *old(vx_arg3.trailers_cnt))),
        *old(vx_arg3.chunk_buf) is None,
    ensures
        stepped(*old(body), *final(body), r,
            abs(*self, *old(vx_arg3.chunk_size), *old(vx_arg3.extensions_cnt), *old(vx_arg3.trailers_buf), *old(vx_arg3.trailers_cnt)),
            abs(*self, *final(vx_arg3.chunk_size), *final(vx_arg3.extensions_cnt), *final(vx_arg3.trailers_buf), *final(vx_arg3.trailers_cnt)),
            obytes(*final(vx_arg3.chunk_buf)),
            lim(vx_arg3.max_headers_cnt, vx_arg3.max_headers_bytes)),
        *final(vx_arg3.chunk_buf) is Some ==> isok(r) && obytes(*final(vx_arg3.chunk_buf)).len() > 0
            && (r->Ready_0->Ok_0 is Body || r->Ready_0->Ok_0 is BodyCr),
//@ ghost start
broadcast use {lemma_run1, lemma_runb};
//@ end

// ---- Decoder ------------------------------------------------------------
#[verifier::external_body]
pub struct HeaderMap { p: u8 }
/// http_body::Frame
pub enum Frame<T> { Data(T), Trailers(HeaderMap) }
impl<T> Frame<T> {
    pub fn data(b: T) -> (r: Frame<T>) ensures r == Frame::Data(b) { Frame::Data(b) }
    pub fn trailers(h: HeaderMap) -> (r: Frame<T>) ensures r == Frame::<T>::Trailers(h) { Frame::Trailers(h) }
}
/// What httparse/http make of a complete trailer section (uninterpreted).
pub uninterp spec fn trailers_of(b: Seq<u8>, cnt: nat) -> Option<HeaderMap>;
//@ item enum Kind
//@ item struct Decoder
use Kind::{Chunked, Eof, Length};

//@ source src/proto/h1/role.rs
//@ item const DEFAULT_MAX_HEADERS
//@ source src/body/length.rs
//@ item struct DecodedLength derive="PartialEq, Eq, Structural, Clone, Copy"
//@ item implconst DecodedLength::CLOSE_DELIMITED,CHUNKED,ZERO
//@ fn DecodedLength::danger_len
    requires self.0 < u64::MAX - 1
    ensures r == self.0
//@ source src/proto/h1/decode.rs

pub open spec fn kabs(k: Kind) -> A
{
    abs(k->state, k->chunk_len, k->extensions_cnt, k->trailers_buf, k->trailers_cnt)
}
pub open spec fn klim(k: Kind) -> Lim {
    lim(match k->h1_max_headers { Some(n) => n, None => 100 }, match k->h1_max_header_size { Some(n) => n, None => 16384 })
}
pub open spec fn dwf(d: Decoder) -> bool { d.kind is Chunked ==> wf(kabs(d.kind)) }
/// The decoder has reached the end of the message body.
pub open spec fn at_end(d: Decoder) -> bool {
    match d.kind { Kind::Length(n) => n == 0, Kind::Chunked { state, .. } => state is End, Kind::Eof(b) => b }
}

//@ fn Decoder::length
    ensures r.kind == Kind::Length(x)
//@ fn Decoder::chunked
    ensures r.kind is Chunked, kabs(r.kind) == start_state(), r.kind->h1_max_headers == h1_max_headers, r.kind->h1_max_header_size == h1_max_header_size, dwf(r)
//@ fn Decoder::eof
    ensures r.kind == Kind::Eof(false)
//@ fn Decoder::new
    ensures
        len.0 == u64::MAX ==> r.kind == Kind::Eof(false),
        len.0 == u64::MAX - 1 ==> r.kind is Chunked && kabs(r.kind) == start_state() && r.kind->h1_max_headers == h1_max_headers && r.kind->h1_max_header_size == h1_max_header_size,
        len.0 < u64::MAX - 1 ==> r.kind == Kind::Length(len.0),
        dwf(r),
//@ fn Decoder::is_eof
    ensures r == at_end(*self)

//@ fn decode_trailers trusted=1
    ensures match r { Ok(h) => trailers_of(old(buf)@, count as nat) == Some(h), Err(_) => trailers_of(old(buf)@, count as nat) is None }

//@ fn Decoder::decode combin=map_ok attr="exec_allows_no_decreases_clause;loop_isolation(false);spinoff_prover"
    requires old(body).mok(), dwf(*old(self))
    ensures
        grew(*old(body), *final(body)),
        old(self).kind is Length ==> final(self).kind is Length && ({ //#C03
            let n = old(self).kind->Length_0; let m = final(self).kind->Length_0; let d = delta(*old(body), *final(body)); //#C03
            match r { //#C03
                Poll::Pending => m == n && d.len() == 0 && n > 0, //#C03
                Poll::Ready(Ok(Frame::Data(b))) => b@ == d && d.len() <= n && m == n - d.len() && (n > 0 ==> d.len() > 0) && quiet(*old(body), *final(body)), //#C03
                Poll::Ready(Ok(Frame::Trailers(_))) => false, //#C03
                Poll::Ready(Err(e)) => n > 0 && d.len() == 0 && m == n && (final(body).failed() || (final(body).eof() && e.k is UnexpectedEof)), //#C03
            } //#C03
        }), //#C03
        old(self).kind is Eof ==> final(self).kind is Eof && ({ //#C03
            let o = old(self).kind->Eof_0; let m = final(self).kind->Eof_0; let d = delta(*old(body), *final(body)); //#C03
            match r { //#C03
                Poll::Pending => !o && !m && d.len() == 0, //#C03
                Poll::Ready(Ok(Frame::Data(b))) => b@ == d && (o ==> m && d.len() == 0) && (!o ==> (m <==> d.len() == 0) && (m ==> final(body).eof())), //#C03
                Poll::Ready(Ok(Frame::Trailers(_))) => false, //#C03
                Poll::Ready(Err(_)) => !o && !m && d.len() == 0 && final(body).failed(), //#C03
            } //#C03
        }), //#C03
        old(self).kind is Chunked ==> final(self).kind is Chunked, //#C01,C02
        old(self).kind is Chunked ==> klim(final(self).kind) == klim(old(self).kind), //#C01,C02
        old(self).kind is Chunked ==> ({ //#C01,C02
            let a = kabs(old(self).kind); let p = kabs(final(self).kind); let l = klim(old(self).kind); //#C01,C02
            let q = run(a, delta(*old(body), *final(body)), l); //#C01,C02
            match r { //#C01,C02
                Poll::Pending => q == Some((p, Seq::<u8>::empty())) && wf(p) && quiet(*old(body), *final(body)), //#C01,C02
                Poll::Ready(Ok(Frame::Data(b))) => quiet(*old(body), *final(body)) && wf(p) && q == Some((p, b@)) //#C01,C02
                    && (b@.len() == 0 <==> p.st is End) && (p.st is End ==> p.tr is None), //#C01,C02
                Poll::Ready(Ok(Frame::Trailers(h))) => quiet(*old(body), *final(body)) && at_end(*final(self)) && p.tr is None //#C01,C02
                    && (match q { None => false, Some((e, out)) => out.len() == 0 && e.st is End && e.tr is Some && trailers_of(e.tr->0, e.cnt) == Some(h) }), //#C01,C02
                Poll::Ready(Err(_)) => final(body).failed() || final(body).eof() || (match q { //#C01,C02
                    None => true, Some((e, _)) => e.st is End && e.tr is Some && trailers_of(e.tr->0, e.cnt) is None }), //#C01,C02
            } //#C01,C02
        }), //#C01,C02
//@ loop 0
    invariant
        dwf(*old(self)), old(self).kind is Chunked,
        h1_max_headers == klim(old(self).kind).hdrs, h1_max_header_size == klim(old(self).kind).bytes,
        grew(*old(body), *body), quiet(*old(body), *body),
        wf(abs(*state, *chunk_len, *extensions_cnt, *trailers_buf, *trailers_cnt)),
        run(kabs(old(self).kind), delta(*old(body), *body), klim(old(self).kind))
            == Some((abs(*state, *chunk_len, *extensions_cnt, *trailers_buf, *trailers_cnt), Seq::<u8>::empty())),
//@ ghost start
hide(astep);
proof { lemma_run_zero(kabs(self.kind), klim(self.kind)); }
//@ ghost loop 0 start
let ghost b1 = *body;
proof {
    assert forall|n: R| #[trigger] grew(b1, n) implies grew(*old(body), n) && delta(*old(body), n) == delta(*old(body), b1) + delta(b1, n) by {
        lemma_grew(*old(body), b1, n);
    }
    let l = klim(old(self).kind);
    assert forall|t: Seq<u8>| run(kabs(old(self).kind), #[trigger] (delta(*old(body), b1) + t), l) == then(run(kabs(old(self).kind), delta(*old(body), b1), l), t, l) by {
        lemma_run_append(kabs(old(self).kind), delta(*old(body), b1), t, l);
    }
    lemma_empty_left();
}
//@ end
pub proof fn lemma_grew<R: MemRead>(o: R, m: R, n: R)
    requires grew(o, m), grew(m, n)
    ensures grew(o, n), delta(o, n) == delta(o, m) + delta(m, n) //#C01,C02
{ //#C01,C02
    assert(delta(o, n) =~= delta(o, m) + delta(m, n)); //#C01,C02
    assert(n.hist() =~= o.hist() + delta(o, n)); //#C01,C02
} //#C01,C02
pub proof fn lemma_empty_left() //#C01,C02
    ensures forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s //#C01,C02
{ //#C01,C02
    assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } //#C01,C02
} //#C01,C02

/// Reachability witness: the contracts are not vacuous (a stream runs to the end).
pub proof fn witness_end()
    ensures
        (match run(start_state(), seq![0x31u8, 0x0d, 0x0a, 0x7a, 0x0d, 0x0a, 0x30, 0x0d, 0x0a, 0x0d, 0x0a], Lim { hdrs: 100, bytes: 16384 }) {
            Some((a, o)) => a.st is End && o == seq![0x7au8], None => false }),
        run(start_state(), seq![0x67u8], Lim { hdrs: 100, bytes: 16384 }) is None,
{
    let l = Lim { hdrs: 100, bytes: 16384 };
    let s = seq![0x31u8, 0x0d, 0x0a, 0x7a, 0x0d, 0x0a, 0x30, 0x0d, 0x0a, 0x0d, 0x0a];
    reveal_with_fuel(run, 13);
    assert(s.take(11) =~= s);
    assert(s.take(11).drop_last() =~= s.take(10)); assert(s.take(10).drop_last() =~= s.take(9));
    assert(s.take(9).drop_last() =~= s.take(8)); assert(s.take(8).drop_last() =~= s.take(7));
    assert(s.take(7).drop_last() =~= s.take(6)); assert(s.take(6).drop_last() =~= s.take(5));
    assert(s.take(5).drop_last() =~= s.take(4)); assert(s.take(4).drop_last() =~= s.take(3));
    assert(s.take(3).drop_last() =~= s.take(2)); assert(s.take(2).drop_last() =~= s.take(1)); assert(s.take(1).drop_last() =~= s.take(0));
    match run(start_state(), s, l) { Some((a, o)) => { assert(o =~= seq![0x7au8]); }, None => {} }
    lemma_run_one(start_state(), 0x67, l);
}

pub open spec fn obytes(b: Option<Bytes>) -> Seq<u8> { match b { Some(b) => b@, None => Seq::empty() } } //#C01,C02
pub open spec fn isok<T>(r: Poll<Result<T, io::Error>>) -> bool { r is Ready && r->Ready_0 is Ok } //#C01,C02
} // verus! //#C01,C02
verus! { //#C01,C02
//VX-AUTO //#C01,C02
} //#C01,C02
fn main() {} //#C01,C02
