//@ include prelude.rs
// Lemmas only (no code): what the encoder's contracts say about the octets it
// writes, put together over sequences of buffers.
verus! {
pub open spec fn crlf() -> Seq<u8> { seq![0x0du8, 0x0a] }
//@ include chunkspec.rs
//@ include wirespec.rs
// ---- C08: what is written decodes to what was given ------------------------
/// all chunks of a body
pub open spec fn chunks(ms: Seq<Seq<u8>>) -> Seq<u8> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { chunks(ms.drop_last()) + chunk_of(ms.last()) } }
pub open spec fn flat(ms: Seq<Seq<u8>>) -> Seq<u8> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { flat(ms.drop_last()) + ms.last() } }
pub open spec fn at(st: S, size: nat) -> A { A { st: st, size: size, ext: 0, tr: None, cnt: 0 } }
pub proof fn lemma_run_hex(n: nat, l: Lim)
    requires n <= u64::MAX
    ensures run(start_state(), hex(n), l) == Some((at(S::Size, n), Seq::<u8>::empty()))
    decreases n
{
    let e = Seq::<u8>::empty();
    if n < 16 {
        lemma_run_one(start_state(), hexd(n), l);
        assert(hex(n) =~= seq![hexd(n)]);
    } else {
        lemma_run_hex(n / 16, l);
        lemma_run_append(start_state(), hex(n / 16), seq![hexd(n % 16)], l);
        lemma_run_one(at(S::Size, n / 16), hexd(n % 16), l);
        assert(hex(n) =~= hex(n / 16) + seq![hexd(n % 16)]);
        assert(hexval(hexd(n % 16)) == Some(n % 16));
        assert(e + e =~= e);
    }
}
pub proof fn lemma_run_two(a: A, x: u8, y: u8, l: Lim)
    ensures run(a, seq![x, y], l) == then(run(a, seq![x], l), seq![y], l)
{
    assert(seq![x, y] =~= seq![x] + seq![y]);
    lemma_run_append(a, seq![x], seq![y], l);
}
/// the end of a size line
pub proof fn lemma_run_size_end(n: nat, l: Lim)
    requires 0 < n
    ensures run(at(S::Size, n), crlf(), l) == Some((at(S::Body, n), Seq::<u8>::empty()))
{
    let e = Seq::<u8>::empty();
    lemma_run_two(at(S::Size, n), 0x0d, 0x0a, l);
    lemma_run_one(at(S::Size, n), 0x0d, l);
    lemma_run_one(at(S::SizeLf, n), 0x0a, l);
    assert(e + e =~= e);
}
pub proof fn lemma_run_size_line(n: nat, l: Lim)
    requires 0 < n <= u64::MAX
    ensures run(start_state(), hex(n) + crlf(), l) == Some((at(S::Body, n), Seq::<u8>::empty()))
{
    hide(hex);
    hide(run);
    let e = Seq::<u8>::empty();
    lemma_run_hex(n, l);
    lemma_run_append(start_state(), hex(n), crlf(), l);
    lemma_run_size_end(n, l);
    assert(e + e =~= e);
}
pub proof fn lemma_run_data_end(l: Lim)
    ensures run(at(S::BodyCr, 0), crlf(), l) == Some((start_state(), Seq::<u8>::empty()))
{
    let e = Seq::<u8>::empty();
    lemma_run_two(at(S::BodyCr, 0), 0x0d, 0x0a, l);
    lemma_run_one(at(S::BodyCr, 0), 0x0d, l);
    lemma_run_one(at(S::BodyLf, 0), 0x0a, l);
    assert(e + e =~= e);
}
pub proof fn lemma_run_chunk(m: Seq<u8>, l: Lim)
    requires 0 < m.len() <= u64::MAX
    ensures run(start_state(), chunk_of(m), l) == Some((start_state(), m))
{
    let n = m.len();
    let e = Seq::<u8>::empty();
    let sl = hex(n) + crlf();
    lemma_run_size_line(n, l);
    lemma_run_append(start_state(), sl, m, l);
    lemma_run_body(at(S::Body, n), m, l);
    assert(e + m =~= m);
    lemma_run_append(start_state(), sl + m, crlf(), l);
    lemma_run_data_end(l);
    assert(m + e =~= m);
    assert(chunk_of(m) == sl + m + crlf());
}
pub proof fn lemma_run_last(l: Lim)
    ensures run(start_state(), last_chunk(), l) == Some((at(S::End, 0), Seq::<u8>::empty()))
{
    let e = Seq::<u8>::empty();
    assert(last_chunk() =~= seq![0x30u8] + crlf() + crlf());
    lemma_run_append(start_state(), seq![0x30u8] + crlf(), crlf(), l);
    lemma_run_append(start_state(), seq![0x30u8], crlf(), l);
    lemma_run_one(start_state(), 0x30, l);
    lemma_run_zero_line(l);
    lemma_run_final_line(l);
    assert(e + e =~= e);
}
pub proof fn lemma_run_zero_line(l: Lim)
    ensures run(at(S::Size, 0), crlf(), l) == Some((at(S::EndCr, 0), Seq::<u8>::empty()))
{
    let e = Seq::<u8>::empty();
    lemma_run_two(at(S::Size, 0), 0x0d, 0x0a, l);
    lemma_run_one(at(S::Size, 0), 0x0d, l);
    lemma_run_one(at(S::SizeLf, 0), 0x0a, l);
    assert(e + e =~= e);
}
pub proof fn lemma_run_final_line(l: Lim)
    ensures run(at(S::EndCr, 0), crlf(), l) == Some((at(S::End, 0), Seq::<u8>::empty()))
{
    let e = Seq::<u8>::empty();
    lemma_run_two(at(S::EndCr, 0), 0x0d, 0x0a, l);
    lemma_run_one(at(S::EndCr, 0), 0x0d, l);
    lemma_run_one(at(S::EndLf, 0), 0x0a, l);
    assert(e + e =~= e);
}
/// Round trip: the chunks then the last chunk decode, for every sequence of
/// non-empty buffers, to their concatenation, and the body ends exactly there.
pub proof fn lemma_roundtrip(ms: Seq<Seq<u8>>, l: Lim)
    requires forall|i: int| 0 <= i < ms.len() ==> 0 < (#[trigger] ms[i]).len() <= u64::MAX
    ensures
        run(start_state(), chunks(ms), l) == Some((start_state(), flat(ms))),
        run(start_state(), chunks(ms) + last_chunk(), l) == Some((at(S::End, 0), flat(ms))),
    decreases ms.len()
{
    let e = Seq::<u8>::empty();
    if ms.len() == 0 { lemma_run_zero(start_state(), l); }
    else {
        assert forall|i: int| 0 <= i < ms.drop_last().len() implies 0 < (#[trigger] ms.drop_last()[i]).len() <= u64::MAX by { assert(ms.drop_last()[i] == ms[i]); }
        lemma_roundtrip(ms.drop_last(), l);
        lemma_run_chunk(ms.last(), l);
        lemma_run_append(start_state(), chunks(ms.drop_last()), chunk_of(ms.last()), l);
    }
    lemma_run_append(start_state(), chunks(ms), last_chunk(), l);
    lemma_run_last(l);
    assert(flat(ms) + e =~= flat(ms));
}
// ---- C07: any sequence of encodes under a declared length --------------------
pub open spec fn len_wire(n: nat, ms: Seq<Seq<u8>>) -> (Seq<u8>, nat)
    decreases ms.len()
{
    if ms.len() == 0 { (Seq::empty(), n) } else {
        let (w, left) = len_wire(n, ms.drop_last());
        let k = if ms.last().len() > left { left } else { ms.last().len() };
        (w + ms.last().take(k as int), (left - k) as nat)
    }
}
/// never more than declared, always a prefix of what was given, and nothing is
/// owed exactly when the declared number of octets has been written
pub proof fn lemma_len_wire(n: nat, ms: Seq<Seq<u8>>)
    ensures ({ let (w, left) = len_wire(n, ms); &&& w.len() + left == n &&& w == flat(ms).take(w.len() as int) &&& w.len() <= flat(ms).len()
        &&& (left > 0 ==> w == flat(ms)) })
    decreases ms.len()
{
    if ms.len() == 0 { assert(flat(ms).take(0) =~= Seq::empty()); }
    else {
        lemma_len_wire(n, ms.drop_last());
        let (w0, l0) = len_wire(n, ms.drop_last());
        let (w, left) = len_wire(n, ms);
        let f0 = flat(ms.drop_last());
        if l0 > 0 { assert(w =~= flat(ms).take(w.len() as int)); if left > 0 { assert(w =~= flat(ms)); } }
        else { assert(w =~= w0); assert(flat(ms).take(w.len() as int) =~= f0.take(w.len() as int)); }
    }
}
} // verus!
fn main() {}
