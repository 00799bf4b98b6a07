// ---- specification: the chunked coding, one octet at a time ------------
// RFC 9112 s7.1 with hyper's documented limits; independent of the code's
// control flow.
pub enum S { Start, Size, Lws, Ext, SizeLf, Body, BodyCr, BodyLf, Trailer, TrailerLf, EndCr, EndLf, End }
/// Abstract decoder state. size: value of the size digits read so far / payload
/// octets of the chunk still to come. ext: extension octets so far (whole body).
/// tr: trailer section octets so far, if any. cnt: complete trailer lines.
pub struct A { pub st: S, pub size: nat, pub ext: nat, pub tr: Option<Seq<u8>>, pub cnt: nat }
pub struct Lim { pub hdrs: nat, pub bytes: nat }

pub open spec fn hexval(b: u8) -> Option<nat> {
    if 0x30 <= b <= 0x39 { Some((b - 0x30) as nat) }
    else if 0x61 <= b <= 0x66 { Some((b - 0x61 + 10) as nat) }
    else if 0x41 <= b <= 0x46 { Some((b - 0x41 + 10) as nat) }
    else { None }
}
pub open spec fn with_st(a: A, st: S) -> A { A { st: st, ..a } }
pub open spec fn digit(a: A, v: nat) -> Option<A> {
    if a.size * 16 + v <= u64::MAX { Some(A { st: S::Size, size: a.size * 16 + v, ..a }) } else { None }
}
pub open spec fn tput(a: A, st: S, b: u8, l: Lim) -> Option<A> {
    if a.tr->0.len() + 1 < l.bytes { Some(A { st: st, tr: Some(a.tr->0.push(b)), ..a }) } else { None }
}
/// One octet. None: the stream is rejected.
pub open spec fn astep(a: A, b: u8, l: Lim) -> Option<A> {
    match a.st {
        S::Start => match hexval(b) { Some(v) => digit(a, v), None => None },
        S::Size => match hexval(b) {
            Some(v) => digit(a, v),
            None => if b == 0x09 || b == 0x20 { Some(with_st(a, S::Lws)) }
                else if b == 0x3b { Some(with_st(a, S::Ext)) }
                else if b == 0x0d { Some(with_st(a, S::SizeLf)) } else { None },
        },
        S::Lws => if b == 0x09 || b == 0x20 { Some(a) } else if b == 0x3b { Some(with_st(a, S::Ext)) }
                else if b == 0x0d { Some(with_st(a, S::SizeLf)) } else { None },
        S::Ext => if b == 0x0d { Some(with_st(a, S::SizeLf)) } else if b == 0x0a { None }
                else if a.ext + 1 < 16384 { Some(A { ext: a.ext + 1, ..a }) } else { None },
        S::SizeLf => if b == 0x0a { Some(with_st(a, if a.size == 0 { S::EndCr } else { S::Body })) } else { None },
        S::Body => Some(A { size: (a.size - 1) as nat, st: if a.size == 1 { S::BodyCr } else { S::Body }, ..a }),
        S::BodyCr => if b == 0x0d { Some(with_st(a, S::BodyLf)) } else { None },
        S::BodyLf => if b == 0x0a { Some(with_st(a, S::Start)) } else { None },
        S::EndCr => match a.tr {
            None => if b == 0x0d { Some(with_st(a, S::EndLf)) } else { Some(A { st: S::Trailer, tr: Some(seq![b]), ..a }) },
            Some(_) => tput(a, if b == 0x0d { S::EndLf } else { S::Trailer }, b, l),
        },
        S::Trailer => tput(a, if b == 0x0d { S::TrailerLf } else { S::Trailer }, b, l),
        S::TrailerLf => if b == 0x0a && a.cnt < l.hdrs {
                match tput(a, S::EndCr, b, l) { Some(x) => Some(A { cnt: a.cnt + 1, ..x }), None => None }
            } else { None },
        S::EndLf => if b == 0x0a {
                match a.tr { None => Some(with_st(a, S::End)), Some(_) => tput(a, S::End, b, l) }
            } else { None },
        S::End => None,
    }
}
/// payload octets an octet contributes
pub open spec fn emit(a: A, b: u8) -> Seq<u8> { if a.st is Body { seq![b] } else { Seq::empty() } }

pub open spec fn wf(a: A) -> bool {
    &&& (a.st is Start ==> a.size == 0)
    &&& (a.st is Body ==> a.size > 0)
    &&& (a.st is BodyCr || a.st is BodyLf || a.st is EndCr || a.st is EndLf || a.st is Trailer || a.st is TrailerLf || a.st is End ==> a.size == 0)
    &&& (a.st is Trailer || a.st is TrailerLf ==> a.tr is Some)
    &&& a.size <= u64::MAX && a.ext < 16384
    &&& (a.tr is Some ==> a.tr->0.len() >= 1)
}

/// Running the coding over a whole stream: final state and payload, or None.
pub open spec fn run(a: A, s: Seq<u8>, l: Lim) -> Option<(A, Seq<u8>)>
    decreases s.len()
{
    if s.len() == 0 { Some((a, Seq::empty())) } else {
        match run(a, s.drop_last(), l) {
            None => None,
            Some((m, out)) => match astep(m, s.last(), l) {
                None => None,
                Some(n) => Some((n, out + emit(m, s.last()))),
            },
        }
    }
}

pub open spec fn then(x: Option<(A, Seq<u8>)>, s: Seq<u8>, l: Lim) -> Option<(A, Seq<u8>)> {
    match x { None => None, Some((a, o)) => match run(a, s, l) { None => None, Some((b, p)) => Some((b, o + p)) } }
}

/// Fragmentation does not matter.
pub proof fn lemma_run_append(a: A, s: Seq<u8>, t: Seq<u8>, l: Lim)
    ensures run(a, s + t, l) == then(run(a, s, l), t, l)
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
        match run(a, s, l) { None => {}, Some((b, o)) => { assert(o + Seq::<u8>::empty() =~= o); } }
    } else {
        lemma_run_append(a, s, t.drop_last(), l);
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        match run(a, s, l) {
            None => {},
            Some((b, o)) => match run(b, t.drop_last(), l) {
                None => {},
                Some((m, p)) => match astep(m, t.last(), l) {
                    None => {},
                    Some(n) => { assert((o + p) + emit(m, t.last()) =~= o + (p + emit(m, t.last()))); }
                }
            }
        }
    }
}

/// Payload octets are passed through unchanged.
pub proof fn lemma_run_body(a: A, s: Seq<u8>, l: Lim)
    requires a.st is Body, a.size > 0, 0 < s.len() <= a.size
    ensures run(a, s, l) == Some((A { size: (a.size - s.len()) as nat, st: if s.len() == a.size { S::BodyCr } else { S::Body }, ..a }, s))
    decreases s.len()
{
    reveal_with_fuel(run, 2);
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::empty());
        assert(Seq::<u8>::empty() + seq![s.last()] =~= s);
    } else {
        lemma_run_body(a, s.drop_last(), l);
        assert(s.drop_last() + seq![s.last()] =~= s);
    }
}

pub proof fn lemma_run_one(a: A, b: u8, l: Lim)
    ensures run(a, seq![b], l) == (match astep(a, b, l) { None => None, Some(n) => Some((n, emit(a, b))) })
{
    reveal_with_fuel(run, 2);
    assert(seq![b].drop_last() =~= Seq::<u8>::empty());
    assert(Seq::<u8>::empty() + emit(a, b) =~= emit(a, b));
}
pub broadcast proof fn lemma_run1(a: A, s: Seq<u8>, l: Lim)
    requires s.len() == 1
    ensures #[trigger] run(a, s, l) == (match astep(a, s[0], l) { None => None, Some(n) => Some((n, emit(a, s[0]))) })
{
    assert(s =~= seq![s[0]]);
    lemma_run_one(a, s[0], l);
}
pub broadcast proof fn lemma_runb(a: A, s: Seq<u8>, l: Lim)
    requires a.st is Body, a.size > 0, 0 < s.len() <= a.size
    ensures #[trigger] run(a, s, l) == Some((A { size: (a.size - s.len()) as nat, st: if s.len() == a.size { S::BodyCr } else { S::Body }, ..a }, s))
{
    lemma_run_body(a, s, l);
}
pub proof fn lemma_run_zero(a: A, l: Lim) ensures run(a, Seq::empty(), l) == Some((a, Seq::<u8>::empty())) {}


/// the automaton at the start of a body
pub open spec fn start_state() -> A { A { st: S::Start, size: 0, ext: 0, tr: None, cnt: 0 } }
