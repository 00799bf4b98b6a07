//@ include prelude.rs
//@ include http.rs
//@ include hdrspec.rs
//@ include headwrite.rs
//@ include httpcore.rs
//@ include outhead.rs
verus! {
pub struct Server {}
pub mod headers { pub use super::{content_length_parse, content_length_parse_all, content_length_parse_all_values, connection_close, connection_keep_alive, connection_any_close, transfer_encoding_is_chunked, is_chunked, is_chunked_}; }
pub use core::result::Result;
#[verifier::external_body]
pub fn vx_debug() -> bool { unimplemented!() }
// ---- http (assumed contracts) ---------------------------------------------------------------
/// the octets of the field names written from literals
#[verifier::external_body]
pub proof fn axiom_names()
    ensures
        name_str(CONTENT_LENGTH) == lit("content-length"@), name_str(TRANSFER_ENCODING) == lit("transfer-encoding"@),
        name_str(CONNECTION) == lit("connection"@), name_str(TRAILER) == lit("trailer"@), name_str(DATE) == lit("date"@),
{}
/// text a header holds
pub open spec fn hvok(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == 0x09 || 0x20 <= v[i] && v[i] != 0x7f }
#[verifier::external_body]
pub proof fn axiom_hvok(v: HeaderValue) ensures hvok(v@) {}
/// a HeaderMap holds each name once, with at least one value
#[verifier::external_body]
pub proof fn axiom_hm_wf(h: HeaderMap) ensures hm_wf(h@) {}
impl HeaderMap {
    /// by-value iteration of all lines; the name comes with the first value of it only.
    /// Dropping it, or running it out, leaves the map empty.
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Drain)
        ensures r.lines() == hm_lines(old(self)@), r.pos() == 0, final(self)@ == Seq::<Ent>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct Drain { p: u8 }
/// no earlier line has this name
pub open spec fn first(l: Seq<(HeaderName, HeaderValue)>, p: int) -> bool { forall|i: int| 0 <= i < p ==> (#[trigger] l[i]).0 != l[p].0 }
impl Drain {
    pub uninterp spec fn lines(&self) -> Seq<(HeaderName, HeaderValue)>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Option<HeaderName>, HeaderValue)>)
        ensures final(self).lines() == old(self).lines(), match r {
            None => old(self).pos() == old(self).lines().len() && final(self).pos() == old(self).pos(),
            Some((on, v)) => old(self).pos() < old(self).lines().len() && final(self).pos() == old(self).pos() + 1
                && v == old(self).lines()[old(self).pos() as int].1
                && match on {
                    Some(n) => n == old(self).lines()[old(self).pos() as int].0 && first(old(self).lines(), old(self).pos() as int),
                    None => old(self).pos() > 0 && old(self).lines()[old(self).pos() as int].0 == old(self).lines()[old(self).pos() - 1].0,
                },
        } { unimplemented!() }
}
impl VxIter for Drain { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }
// ---- std, itoa, date ---------------------------------------------------------------------------
pub fn vx_is(m: &Option<Method>, x: Method) -> (r: bool) ensures r == (*m == Some(x)) { match m { Some(y) => *y == x, None => false } }
pub fn vx_isr(m: Option<&Method>, x: Method) -> (r: bool) ensures r == (m == Some(&x)) { match m { Some(y) => *y == x, None => false } }
pub fn vx_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures s.is_ascii() ==> r@ == bytes_of(s@) { let r = s.as_bytes(); assert(s.is_ascii() ==> r@ =~= bytes_of(s@)); r }
/// `itoa::Buffer::new().format(n).as_bytes()`
pub uninterp spec fn dec_of(n: u64) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_dec(n: u64) ensures decimal(dec_of(n), n) {}
#[verifier::external_body]
pub fn vx_itoa(n: u64) -> (r: Vec<u8>) ensures r@ == dec_of(n) { unimplemented!() }
/// `value_str.split(',')` and what follows: the field names listed
#[verifier::external_body]
pub fn vx_names(s: &str) -> Vec<HeaderName> { unimplemented!() }
/// an HTTP date
pub uninterp spec fn is_date(v: Seq<u8>) -> bool;
#[verifier::external_body]
pub proof fn axiom_date(v: Seq<u8>) requires is_date(v) ensures hvok(v) {}
#[verifier::external_body]
pub fn vx_date(dst: &mut Vec<u8>) ensures exists|v: Seq<u8>| #[trigger] is_date(v) && final(dst)@ == old(dst)@ + v { unimplemented!() }
#[verifier::external_body]
pub fn vx_extend(a: &mut Vec<HeaderName>, b: Vec<HeaderName>) { unimplemented!() }
pub fn vx_is_zero(e: &Encoder) -> (r: bool) ensures r == (e.kind == Kind::Length(0)) { match e.kind { Kind::Length(n) => n == 0, _ => false } }
/// the last two octets are CRLF
pub fn vx_ends_crlf(d: &Vec<u8>) -> (r: bool) requires d@.len() >= 2 ensures r == (d@[d@.len() - 2] == 0x0d && d@[d@.len() - 1] == 0x0a)
{ d[d.len() - 2] == 0x0d && d[d.len() - 1] == 0x0a }
// ---- lines --------------------------------------------------------------------------------------
pub type HLines = Seq<(HeaderName, HeaderValue)>;
/// the values of one name among lines of a map
pub open spec fn lvals(l: HLines, n: HeaderName) -> Seq<HeaderValue> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.last().0 == n { lvals(l.drop_last(), n).push(l.last().1) } else { lvals(l.drop_last(), n) }
}
pub proof fn lemma_lvals_push(l: HLines, x: (HeaderName, HeaderValue), n: HeaderName)
    ensures lvals(l.push(x), n) == (if x.0 == n { lvals(l, n).push(x.1) } else { lvals(l, n) })
{ assert(l.push(x).drop_last() =~= l); }
pub proof fn lemma_lvals_none(l: HLines, n: HeaderName)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 != n
    ensures lvals(l, n) == Seq::<HeaderValue>::empty()
    decreases l.len()
{ if l.len() > 0 { assert forall|i: int| 0 <= i < l.drop_last().len() implies (#[trigger] l.drop_last()[i]).0 != n by { assert(l[i].0 != n); } assert(l[l.len() - 1].0 != n); lemma_lvals_none(l.drop_last(), n); } }
pub proof fn lemma_lvals_hm(m: Seq<Ent>, n: HeaderName)
    requires hm_wf(m)
    ensures lvals(hm_lines(m), n) == hm_vals(m, n)
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        assert forall|i: int, j: int| #![auto] 0 <= i < j < d.len() implies d[i].name != d[j].name by { assert(m[i] == d[i] && m[j] == d[j]); }
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).vals.len() > 0 by { assert(m[i] == d[i]); }
        lemma_lvals_hm(d, n);
        let e = m.last();
        lemma_ent_lvals(hm_lines(d), e, e.vals.len() as int, n);
        assert(ent_lines(e).take(e.vals.len() as int) =~= ent_lines(e));
        if e.name == n { lemma_hm_absent(d, n); assert(lvals(hm_lines(m), n) =~= e.vals); }
    }
}
pub proof fn lemma_ent_lvals(a: HLines, e: Ent, k: int, n: HeaderName)
    requires 0 <= k <= e.vals.len()
    ensures lvals(a + ent_lines(e).take(k), n) == (if e.name == n { lvals(a, n) + e.vals.take(k) } else { lvals(a, n) })
    decreases k
{
    if k == 0 { assert(a + ent_lines(e).take(0) =~= a); assert(lvals(a, n) + e.vals.take(0) =~= lvals(a, n)); }
    else {
        lemma_ent_lvals(a, e, k - 1, n);
        let x = (e.name, e.vals[k - 1]);
        assert(a + ent_lines(e).take(k) =~= (a + ent_lines(e).take(k - 1)).push(x));
        lemma_lvals_push(a + ent_lines(e).take(k - 1), x, n);
        assert((lvals(a, n) + e.vals.take(k - 1)).push(e.vals[k - 1]) =~= lvals(a, n) + e.vals.take(k));
    }
}
pub open spec fn colon() -> Seq<u8> { seq![0x3au8, 0x20] }
pub open spec fn comma() -> Seq<u8> { seq![0x2cu8, 0x20] }
/// a line not yet ended
pub struct Part { pub n: HeaderName, pub a: Seq<u8> }
pub type Open = Option<Part>;
pub open spec fn on(op: Open) -> HeaderName { op->0.n }
pub open spec fn oa(op: Open) -> Seq<u8> { op->0.a }
pub open spec fn part(n: HeaderName, a: Seq<u8>) -> Open { Some(Part { n, a }) }
/// these octets: what was there, whole lines, and the start of a line
pub open spec fn shaped(d0: Seq<u8>, d: Seq<u8>, ls: WLines, op: Open) -> bool {
    exists|f: Seq<u8>, s: Seq<u8>| #[trigger] wired(f, ls) && #[trigger] opened(s, op) && d == d0 + f + s
}
pub open spec fn opened(s: Seq<u8>, op: Open) -> bool {
    match op { None => s.len() == 0, Some(p) => hvok(p.a) && exists|q: Seq<u8>| #[trigger] spells(q, p.n) && s == q + colon() + p.a }
}
/// a spelling of the name was appended
pub open spec fn named(a: Seq<u8>, b: Seq<u8>, n: HeaderName) -> bool { exists|q: Seq<u8>| #[trigger] spells(q, n) && b == a + q }
pub open spec fn named_colon(a: Seq<u8>, b: Seq<u8>, n: HeaderName) -> bool { exists|q: Seq<u8>| #[trigger] spells(q, n) && b == a + q + colon() }
pub proof fn lemma_shape_0(d0: Seq<u8>) ensures shaped(d0, d0, Seq::empty(), None)
{ assert(wired(Seq::empty(), Seq::empty()) && opened(Seq::empty(), None)); assert(d0 =~= d0 + Seq::<u8>::empty() + Seq::<u8>::empty()); }
pub proof fn lemma_opened(q: Seq<u8>, n: HeaderName, a: Seq<u8>)
    requires spells(q, n), hvok(a) ensures opened(q + colon() + a, part(n, a))
{ let s = q + colon() + a; let p = Part { n, a }; assert(part(n, a) == Some(p)); assert(spells(q, p.n) && s == q + colon() + p.a); assert(opened(s, Some(p))); }
/// a value is started
pub proof fn lemma_shape_open(d0: Seq<u8>, d: Seq<u8>, ls: WLines, n: HeaderName, v: HeaderValue)
    requires shaped(d0, d, ls, None)
    ensures forall|e: Seq<u8>| #[trigger] named_colon(d, e, n) ==> shaped(d0, e + v@, ls, part(n, v@))
{
    let (f, s) = choose|f: Seq<u8>, s: Seq<u8>| #[trigger] wired(f, ls) && #[trigger] opened(s, None) && d == d0 + f + s;
    axiom_hvok(v);
    assert forall|e: Seq<u8>| #[trigger] named_colon(d, e, n) implies shaped(d0, e + v@, ls, part(n, v@)) by {
        let q = choose|q: Seq<u8>| #[trigger] spells(q, n) && e == d + q + colon();
        let t = q + colon() + v@;
        lemma_opened(q, n, v@);
        assert(e + v@ =~= d0 + f + t);
    }
}
/// a value is added to the list
pub proof fn lemma_shape_more(d0: Seq<u8>, d: Seq<u8>, ls: WLines, n: HeaderName, a: Seq<u8>, v: HeaderValue)
    requires shaped(d0, d, ls, part(n, a))
    ensures shaped(d0, d + comma() + v@, ls, part(n, a + comma() + v@)), d.len() >= 2, d.last() != 0x0a
{
    let (f, s) = choose|f: Seq<u8>, s: Seq<u8>| #[trigger] wired(f, ls) && #[trigger] opened(s, part(n, a)) && d == d0 + f + s;
    let q = choose|q: Seq<u8>| #[trigger] spells(q, n) && s == q + colon() + a;
    axiom_hvok(v);
    let b = a + comma() + v@;
    assert(s + comma() + v@ =~= q + colon() + b);
    assert(hvok(b));
    lemma_opened(q, n, b);
    assert(d + comma() + v@ =~= d0 + f + (s + comma() + v@));
    if a.len() > 0 { assert(d.last() == a.last()); assert(a[a.len() - 1] != 0x0a); } else { assert(d.last() == 0x20); }
}
/// the line is ended
pub proof fn lemma_shape_close(d0: Seq<u8>, d: Seq<u8>, ls: WLines, n: HeaderName, a: Seq<u8>)
    requires shaped(d0, d, ls, part(n, a))
    ensures
        shaped(d0, d + crlf(), ls.push((n, a)), None),
        shaped(d0, d + (comma() + t_chunked() + crlf()), ls.push((n, a + comma() + t_chunked())), None),
        d.len() >= 2, d.last() != 0x0a,
{
    let (f, s) = choose|f: Seq<u8>, s: Seq<u8>| #[trigger] wired(f, ls) && #[trigger] opened(s, part(n, a)) && d == d0 + f + s;
    let q = choose|q: Seq<u8>| #[trigger] spells(q, n) && s == q + colon() + a;
    let l = hline(q, a);
    lemma_is_line(q, n, a);
    lemma_wired_push(f, ls, l, (n, a));
    assert(opened(Seq::empty(), None));
    assert(d + crlf() =~= d0 + (f + l) + Seq::<u8>::empty());
    let b = a + comma() + t_chunked();
    let l2 = hline(q, b);
    lemma_is_line(q, n, b);
    lemma_wired_push(f, ls, l2, (n, b));
    assert(d + (comma() + t_chunked() + crlf()) =~= d0 + (f + l2) + Seq::<u8>::empty());
    if a.len() > 0 { assert(d.last() == a.last()); assert(a[a.len() - 1] != 0x0a); } else { assert(d.last() == 0x20); }
}
/// a line of its own
pub proof fn lemma_shape_one(d0: Seq<u8>, d: Seq<u8>, ls: WLines, n: HeaderName, q: Seq<u8>, v: Seq<u8>)
    requires shaped(d0, d, ls, None), spells(q, n)
    ensures shaped(d0, d + hline(q, v), ls.push((n, v)), None)
{
    let (f, s) = choose|f: Seq<u8>, s: Seq<u8>| #[trigger] wired(f, ls) && #[trigger] opened(s, None) && d == d0 + f + s;
    let z = Seq::<u8>::empty();
    let l = hline(q, v);
    assert(opened(z, None));
    lemma_is_line(q, n, v);
    lemma_wired_push(f, ls, l, (n, v));
    assert(s =~= z);
    assert(d + l =~= d0 + (f + l) + z);
}
pub proof fn lemma_shape_line(d0: Seq<u8>, d: Seq<u8>, ls: WLines, n: HeaderName, v: Seq<u8>)
    requires shaped(d0, d, ls, None)
    ensures
        forall|e: Seq<u8>| #[trigger] named(d, e, n) ==> shaped(d0, e + colon() + v + crlf(), ls.push((n, v)), None) && shaped(d0, e + (colon() + v + crlf()), ls.push((n, v)), None),
        forall|e: Seq<u8>| #[trigger] named_colon(d, e, n) ==> shaped(d0, e + v + crlf(), ls.push((n, v)), None),
{
    assert forall|e: Seq<u8>| #[trigger] named(d, e, n) implies shaped(d0, e + colon() + v + crlf(), ls.push((n, v)), None) && shaped(d0, e + (colon() + v + crlf()), ls.push((n, v)), None) by {
        let q = choose|q: Seq<u8>| #[trigger] spells(q, n) && e == d + q;
        lemma_shape_one(d0, d, ls, n, q, v);
        assert(e + colon() + v + crlf() =~= d + hline(q, v));
        assert(e + (colon() + v + crlf()) =~= d + hline(q, v));
    }
    assert forall|e: Seq<u8>| #[trigger] named_colon(d, e, n) implies shaped(d0, e + v + crlf(), ls.push((n, v)), None) by {
        let q = choose|q: Seq<u8>| #[trigger] spells(q, n) && e == d + q + colon();
        lemma_shape_one(d0, d, ls, n, q, v);
        assert(e + v + crlf() =~= d + hline(q, v));
    }
}
pub proof fn lemma_shape_prefix(d0: Seq<u8>, d: Seq<u8>, ls: WLines, op: Open)
    requires shaped(d0, d, ls, op) ensures d0.len() <= d.len(), d.take(d0.len() as int) == d0
{
    let (f, s) = choose|f: Seq<u8>, s: Seq<u8>| #[trigger] wired(f, ls) && #[trigger] opened(s, op) && d == d0 + f + s;
    assert(d.take(d0.len() as int) =~= d0);
}
// ---- what an answer may say ------------------------------------------------------------------------
/// what the message is: version, request, status, body, whether the connection closes
pub struct Cfg { pub v10: bool, pub m: Option<Method>, pub s: StatusCode, pub b: Option<BodyLength>, pub wl0: bool, pub last0: bool }
pub open spec fn connected(m: Option<Method>, s: StatusCode) -> bool { m == Some(Method::CONNECT) && 200 <= s.n < 300 }
/// a body may follow
pub open spec fn bodied(m: Option<Method>, s: StatusCode) -> bool { !(m == Some(Method::HEAD) || connected(m, s) || 100 <= s.n < 200 || s.n == 204 || s.n == 304) }
impl Cfg {
    pub open spec fn can(&self) -> bool { bodied(self.m, self.s) }
    pub open spec fn ok(&self) -> bool { self.wl0 == connected(self.m, self.s) }
    pub open spec fn chunks(&self) -> bool { self.can() && !self.v10 }
    /// no framing field at all
    pub open spec fn bare(&self) -> bool { 100 <= self.s.n < 200 || self.s.n == 204 || connected(self.m, self.s) }
}
pub open spec fn joined(v: Seq<HeaderValue>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { joined(v.drop_last()) + comma() + v.last()@ }
}
/// a list is sent as one line
pub open spec fn one_line(w: Seq<Seq<u8>>, v: Seq<HeaderValue>) -> bool { if v.len() == 0 { w.len() == 0 } else { w.len() == 1 && w[0] == joined(v) } }
pub open spec fn plain(n: HeaderName) -> bool { n != TRANSFER_ENCODING && n != CONTENT_LENGTH && n != CONNECTION && n != TRAILER }
/// values as written so far
pub open spec fn wv(ls: WLines, op: Open, n: HeaderName) -> Seq<Seq<u8>> { if op is Some && on(op) == n { wvals(ls, n).push(oa(op)) } else { wvals(ls, n) } }
/// fields that do not delimit the body
pub open spec fn rest(c: Cfg, p: HLines, ls: WLines, op: Open) -> bool {
    &&& forall|n: HeaderName| plain(n) ==> #[trigger] wv(ls, op, n) == octs(lvals(p, n))
    &&& one_line(wv(ls, op, CONNECTION), lvals(p, CONNECTION))
    &&& if c.chunks() { one_line(wv(ls, op, TRAILER), lvals(p, TRAILER)) } else { wv(ls, op, TRAILER).len() == 0 }
}
pub open spec fn mergeable(c: Cfg, n: HeaderName) -> bool { n == CONNECTION || n == TRAILER && c.chunks() }
/// n is the length each value gives
pub open spec fn all_num(v: Seq<HeaderValue>, n: u64) -> bool { forall|i: int| 0 <= i < v.len() ==> num(#[trigger] v[i]@) == Some(n) }
/// the framing fields written so far, and the encoder
pub open spec fn framed(c: Cfg, p: HLines, ls: WLines, op: Open, mc: bool, wl: bool, k: Kind, prev: Option<u64>) -> bool {
    let t = wv(ls, op, TRANSFER_ENCODING);
    let l = wv(ls, op, CONTENT_LENGTH);
    &&& t.len() + l.len() <= 1
    &&& wl == (c.wl0 || t.len() + l.len() > 0)
    &&& !wl ==> k == Kind::Length(0)
    &&& c.wl0 ==> t.len() + l.len() == 0
    &&& t.len() > 0 ==> c.chunks() && k == Kind::Chunked(None) && (if mc { op is Some && on(op) == TRANSFER_ENCODING } else { fin_chunked(t[0]) })
    &&& mc ==> t.len() > 0
    &&& t.len() > 0 ==> lvals(p, TRANSFER_ENCODING).len() > 0
    &&& c.chunks() && lvals(p, TRANSFER_ENCODING).len() > 0 ==> t.len() > 0
    &&& l.len() > 0 ==> !c.bare() && lvals(p, CONTENT_LENGTH).len() > 0 && l[0] == lvals(p, CONTENT_LENGTH)[0]@ && match c.b {
            Some(BodyLength::Known(n)) => k == Kind::Length(n),
            Some(BodyLength::Unknown) => k is Length && all_num(lvals(p, CONTENT_LENGTH), k->Length_0) && prev == Some(k->Length_0),
            None => c.m == Some(Method::HEAD),
        }
    &&& prev is Some ==> l.len() > 0
    &&& lvals(p, CONTENT_LENGTH).len() > 0 && !c.bare() && (c.b is Some || c.m == Some(Method::HEAD)) ==> l.len() > 0
    &&& op is Some ==> (on(op) == CONTENT_LENGTH && c.b is Some || on(op) == TRANSFER_ENCODING || mergeable(c, on(op)))
}
/// what is kept between two lines of the map: lines written, the open one, and the variables of the loop
pub struct St { pub ls: WLines, pub op: Open, pub mc: bool, pub wl: bool, pub k: Kind, pub prev: Option<u64>, pub last: bool, pub date: bool }
pub open spec fn state(c: Cfg, p: HLines, s: St) -> bool {
    &&& rest(c, p, s.ls, s.op) && framed(c, p, s.ls, s.op, s.mc, s.wl, s.k, s.prev)
    &&& s.last == (c.last0 || any_tok(lvals(p, CONNECTION), t_close()))
    &&& s.date == (lvals(p, DATE).len() > 0)
    &&& s.op is Some ==> p.len() > 0 && on(s.op) == p.last().0
    &&& p.len() > 0 && mergeable(c, p.last().0) ==> s.op is Some
}
/// one line, the previous name's line being closed if this is another name; None: refused
pub open spec fn step(c: Cfg, x: (HeaderName, HeaderValue), s: St) -> Option<St> {
    let (n, v) = (x.0, x.1@);
    let more = part(n, if s.op is None { v } else { oa(s.op) + comma() + v });
    if n == CONTENT_LENGTH {
        if 100 <= c.s.n < 200 || c.s.n == 204 { Some(s) }
        else if s.wl && s.op is None { None }
        else { match c.b {
            Some(BodyLength::Known(m)) => if s.op is None { Some(St { op: part(n, v), k: Kind::Length(m), wl: true, ..s }) } else { Some(s) },
            Some(BodyLength::Unknown) => match num(v) {
                Some(m) => if s.prev is Some { if s.prev == Some(m) { Some(s) } else { None } } else { Some(St { op: part(n, v), k: Kind::Length(m), wl: true, prev: Some(m), ..s }) },
                None => None,
            },
            None => if c.m == Some(Method::HEAD) { Some(St { ls: s.ls.push((n, v)), wl: true, ..s }) } else { Some(s) },
        } }
    } else if n == TRANSFER_ENCODING {
        if s.wl && s.op is None { None } else if !c.chunks() { Some(s) }
        else { Some(St { op: more, k: if s.op is None { Kind::Chunked(None) } else { s.k }, wl: true, mc: !ends_chunked(v), ..s }) }
    } else if n == CONNECTION { Some(St { op: more, last: s.last || has_tok(v, t_close()), ..s }) }
    else if n == TRAILER { if c.chunks() { Some(St { op: more, ..s }) } else { Some(s) } }
    else { Some(St { ls: s.ls.push((n, v)), date: s.date || n == DATE, ..s }) }
}
/// the variables of the loop and the octets written
pub open spec fn inv(d0: Seq<u8>, d: Seq<u8>, c: Cfg, p: HLines, w: bool, mc: bool, wl: bool, k: Kind, prev: Option<u64>, last: bool, date: bool) -> bool {
    exists|ls: WLines, op: Open| #[trigger] shaped(d0, d, ls, op) && w == op is Some && state(c, p, St { ls, op, mc, wl, k, prev, last, date })
}
pub proof fn lemma_wv_push(ls: WLines, x: (HeaderName, Seq<u8>))
    ensures forall|n: HeaderName| #[trigger] wvals(ls.push(x), n) == (if x.0 == n { wvals(ls, n).push(x.1) } else { wvals(ls, n) })
{ assert forall|n: HeaderName| #[trigger] wvals(ls.push(x), n) == (if x.0 == n { wvals(ls, n).push(x.1) } else { wvals(ls, n) }) by { lemma_wvals_push(ls, x, n); } }
/// ending the open line changes nothing but the octets; `, chunked` is added if it was missing
pub open spec fn closed(s: St) -> St {
    match s.op { Some(Part { n, a }) => St { ls: s.ls.push((n, if s.mc { a + comma() + t_chunked() } else { a })), op: None, mc: false, ..s }, None => s }
}
pub proof fn lemma_closed(c: Cfg, p: HLines, s: St)
    requires state(c, p, s), s.op is Some || p.len() == 0 || !mergeable(c, p.last().0)
    ensures ({ let t = closed(s); rest(c, p, t.ls, None) && framed(c, p, t.ls, None, false, s.wl, s.k, s.prev) && t.op is None && !t.mc })
{
    if let Some(Part { n, a }) = s.op {
        let (ls, op, mc) = (s.ls, s.op, s.mc);
        let x = (n, if mc { a + comma() + t_chunked() } else { a });
        lemma_wv_push(ls, x);
        lemma_add_chunked(a);
        assert forall|m: HeaderName| n != TRANSFER_ENCODING implies #[trigger] wv(ls.push(x), None, m) == wv(ls, op, m) by { assert(!mc); }
        assert forall|m: HeaderName| m != TRANSFER_ENCODING implies #[trigger] wv(ls.push(x), None, m) == wv(ls, op, m) by { }
        if n == TRANSFER_ENCODING { assert(wv(ls, op, n).len() == 1); assert(wvals(ls, n) =~= Seq::empty()); }
    }
}
/// how values change with one line of the map
pub proof fn lemma_vals(p: HLines, x: (HeaderName, HeaderValue), ls: WLines)
    ensures
        lvals(p.push(x), x.0) == lvals(p, x.0).push(x.1),
        forall|n: HeaderName| n != x.0 ==> #[trigger] lvals(p.push(x), n) == lvals(p, n),
        wvals(ls.push((x.0, x.1@)), x.0) == wvals(ls, x.0).push(x.1@),
        forall|n: HeaderName| n != x.0 ==> #[trigger] wvals(ls.push((x.0, x.1@)), n) == wvals(ls, n),
        octs(lvals(p.push(x), x.0)) == octs(lvals(p, x.0)).push(x.1@),
        lvals(p.push(x), x.0).drop_last() == lvals(p, x.0),
{
    let q = p.push(x);
    assert forall|n: HeaderName| #[trigger] lvals(q, n) == (if x.0 == n { lvals(p, n).push(x.1) } else { lvals(p, n) }) by { lemma_lvals_push(p, x, n); }
    lemma_wv_push(ls, (x.0, x.1@));
    assert(octs(lvals(q, x.0)) =~= octs(lvals(p, x.0)).push(x.1@));
    assert(lvals(q, x.0).drop_last() =~= lvals(p, x.0));
}
/// ... of the fields that do not delimit the body: nothing written
pub proof fn lemma_rest_skip(c: Cfg, p: HLines, x: (HeaderName, HeaderValue), ls: WLines, op: Open)
    requires rest(c, p, ls, op), x.0 == CONTENT_LENGTH || x.0 == TRANSFER_ENCODING || x.0 == TRAILER && !c.chunks()
    ensures rest(c, p.push(x), ls, op)
{ lemma_vals(p, x, ls); }
/// a line of a list started
pub proof fn lemma_rest_open(c: Cfg, p: HLines, x: (HeaderName, HeaderValue), ls: WLines)
    requires rest(c, p, ls, None), !plain(x.0), x.0 == TRAILER ==> c.chunks(), mergeable(c, x.0) ==> lvals(p, x.0).len() == 0
    ensures rest(c, p.push(x), ls, part(x.0, x.1@))
{
    lemma_vals(p, x, ls);
    let o2 = part(x.0, x.1@);
    assert forall|n: HeaderName| n != x.0 implies #[trigger] wv(ls, o2, n) == wv(ls, None, n) by {}
    if mergeable(c, x.0) { assert(wv(ls, o2, x.0) =~= seq![x.1@]); assert(joined(lvals(p.push(x), x.0)) == x.1@); }
}
/// and continued
pub proof fn lemma_rest_more(c: Cfg, p: HLines, x: (HeaderName, HeaderValue), ls: WLines, op: Open)
    requires rest(c, p, ls, op), op is Some, on(op) == x.0, !plain(x.0), x.0 == TRAILER ==> c.chunks()
    ensures rest(c, p.push(x), ls, part(x.0, oa(op) + comma() + x.1@))
{
    lemma_vals(p, x, ls);
    let o2 = part(x.0, oa(op) + comma() + x.1@);
    assert forall|n: HeaderName| n != x.0 implies #[trigger] wv(ls, o2, n) == wv(ls, op, n) by {}
    if mergeable(c, x.0) {
        assert(wv(ls, op, x.0) == wvals(ls, x.0).push(oa(op)));
        assert(wv(ls, op, x.0).len() == 1);
        assert(wvals(ls, x.0).len() == 0);
        assert(wv(ls, o2, x.0) =~= seq![oa(op) + comma() + x.1@]);
        assert(wv(ls, op, x.0)[0] == oa(op));
        assert(lvals(p, x.0).len() > 0);
    }
}
/// a line of its own
pub proof fn lemma_rest_line(c: Cfg, p: HLines, x: (HeaderName, HeaderValue), ls: WLines)
    requires rest(c, p, ls, None), plain(x.0) || x.0 == CONTENT_LENGTH
    ensures rest(c, p.push(x), ls.push((x.0, x.1@)), None)
{
    lemma_vals(p, x, ls);
    let l2 = ls.push((x.0, x.1@));
    assert forall|n: HeaderName| plain(n) implies #[trigger] wv(l2, None, n) == octs(lvals(p.push(x), n)) by {
        assert(wv(ls, None, n) == octs(lvals(p, n)));
        if n == x.0 { } else { assert(wvals(l2, n) == wvals(ls, n)); }
    }
    assert(wv(l2, None, CONNECTION) == wv(ls, None, CONNECTION));
    assert(wv(l2, None, TRAILER) == wv(ls, None, TRAILER));
}
pub proof fn lemma_any_push(v: Seq<HeaderValue>, x: HeaderValue, t: Seq<u8>)
    ensures any_tok(v.push(x), t) == (any_tok(v, t) || has_tok(x@, t))
{
    let w = v.push(x);
    assert(w[v.len() as int] == x);
    if any_tok(v, t) { let i = choose|i: int| 0 <= i < v.len() && has_tok(#[trigger] v[i]@, t); assert(w[i] == v[i]); assert(has_tok(w[i]@, t)); }
    if has_tok(x@, t) { assert(has_tok(w[v.len() as int]@, t)); }
}
/// a line that ends in chunked still does after something was put before it
pub proof fn lemma_fin_more(a: Seq<u8>, v: Seq<u8>)
    requires fin_chunked(v) ensures fin_chunked(a + comma() + v)
{ lemma_members_after(a, v); let m = members(v).last(); lemma_sp_trim(m); }
pub proof fn lemma_sp_trim(m: Seq<u8>) ensures trim(seq![0x20u8] + m) == trim(m)
{ let w = seq![0x20u8] + m; assert(w.skip(1) =~= m); reveal_with_fuel(trim_l, 2); }
/// the last member after a comma and a space
pub proof fn lemma_members_after(a: Seq<u8>, v: Seq<u8>)
    ensures members(a + comma() + v).last() == (if members(v).len() == 1 { seq![0x20u8] + members(v).last() } else { members(v).last() }),
        members(v).len() >= 1, members(v).len() == 1 ==> members(v)[0] == v
    decreases v.len()
{
    let w = a + comma() + v;
    lemma_members_len(v);
    lemma_members_len(w.drop_last());
    if v.len() == 0 {
        lemma_last_member(a, v);
        assert(members(v).last() =~= v);
    } else {
        let u = v.drop_last();
        lemma_members_after(a, u);
        assert(w.drop_last() =~= a + comma() + u);
        assert(w.last() == v.last());
        lemma_members_len(u);
        if v.last() == 0x2c { }
        else {
            if members(u).len() == 1 { assert((seq![0x20u8] + members(u).last()).push(v.last()) =~= seq![0x20u8] + members(u).last().push(v.last())); assert(members(v)[0] =~= v); }
        }
    }
}
/// each line of the map keeps the state
pub proof fn lemma_step(c: Cfg, p: HLines, x: (HeaderName, HeaderValue), s: St)
    requires
        rest(c, p, s.ls, s.op), framed(c, p, s.ls, s.op, s.mc, s.wl, s.k, s.prev),
        s.last == (c.last0 || any_tok(lvals(p, CONNECTION), t_close())),
        s.date == (lvals(p, DATE).len() > 0),
        s.op is Some ==> on(s.op) == x.0,
        s.op is None && mergeable(c, x.0) ==> lvals(p, x.0).len() == 0,
        step(c, x, s) is Some, c.ok(),
    ensures state(c, p.push(x), step(c, x, s)->0)
{
    let t = step(c, x, s)->0;
    let q = p.push(x);
    let (n, v) = (x.0, x.1@);
    lemma_vals(p, x, s.ls);
    lemma_any_push(lvals(p, CONNECTION), x.1, t_close());
    if n == CONTENT_LENGTH || n == TRANSFER_ENCODING || n == TRAILER && !c.chunks() { lemma_rest_skip(c, p, x, s.ls, s.op); }
    if s.op is None && !plain(n) && (n == TRAILER ==> c.chunks()) { lemma_rest_open(c, p, x, s.ls); }
    if s.op is Some && !plain(n) && (n == TRAILER ==> c.chunks()) { lemma_rest_more(c, p, x, s.ls, s.op); }
    if s.op is None && (plain(n) || n == CONTENT_LENGTH) { lemma_rest_line(c, p, x, s.ls); }
    assert(rest(c, q, t.ls, t.op));
    assert forall|m: HeaderName| m != n implies wv(t.ls, t.op, m) == wv(s.ls, s.op, m) by {}
    assert(framed(c, q, t.ls, t.op, t.mc, t.wl, t.k, t.prev)) by { lemma_framed(c, p, x, s); }
}
pub proof fn lemma_framed(c: Cfg, p: HLines, x: (HeaderName, HeaderValue), s: St)
    requires
        framed(c, p, s.ls, s.op, s.mc, s.wl, s.k, s.prev),
        s.op is Some ==> on(s.op) == x.0,
        step(c, x, s) is Some, c.ok(),
    ensures ({ let t = step(c, x, s)->0; framed(c, p.push(x), t.ls, t.op, t.mc, t.wl, t.k, t.prev) })
{
    let t = step(c, x, s)->0;
    let (n, v) = (x.0, x.1@);
    lemma_vals(p, x, s.ls);
    let tv = wv(s.ls, s.op, TRANSFER_ENCODING);
    let lv = wv(s.ls, s.op, CONTENT_LENGTH);
    let tw = wv(t.ls, t.op, TRANSFER_ENCODING);
    let lw = wv(t.ls, t.op, CONTENT_LENGTH);
    let cv = lvals(p, CONTENT_LENGTH);
    let cw = lvals(p.push(x), CONTENT_LENGTH);
    if n == CONTENT_LENGTH {
        assert(tw == tv);
        assert(cw == cv.push(x.1));
        if cv.len() > 0 { assert(cw[0] == cv[0]); } else { assert(cw[0] == x.1); }
        assert(forall|i: int| 0 <= i < cv.len() ==> cw[i] == cv[i]);
        assert(cw[cv.len() as int] == x.1);
        if lv.len() > 0 && t.k is Length { let m = t.k->Length_0; assert(all_num(cv, m) && num(v) == Some(m) ==> all_num(cw, m)); }
        if cv.len() == 0 && num(v) is Some { assert(all_num(cw, num(v)->0)); }
    } else if n == TRANSFER_ENCODING {
        assert(lw == lv && cw == cv);
        if c.chunks() {
            assert(s.op is Some ==> tv.len() == 1 && wvals(s.ls, n).len() == 0);
            assert(wvals(s.ls, n).len() == 0);
            assert(tw.len() == 1 && tw[0] == oa(t.op));
            if ends_chunked(v) && s.op is Some { lemma_fin_more(oa(s.op), v); }
        }
    } else {
        assert(tw == tv && lw == lv && cw == cv);
    }
    let (op, mc, wl, k, prev) = (t.op, t.mc, t.wl, t.k, t.prev);
    assert(tw.len() + lw.len() <= 1);
    assert(wl == (c.wl0 || tw.len() + lw.len() > 0));
    assert(!wl ==> k == Kind::Length(0));
    assert(c.wl0 ==> tw.len() + lw.len() == 0);
    assert(tw.len() > 0 ==> c.chunks() && k == Kind::Chunked(None) && (if mc { op is Some && on(op) == TRANSFER_ENCODING } else { fin_chunked(tw[0]) }));
    assert(mc ==> tw.len() > 0);
    assert(c.chunks() && lvals(p.push(x), TRANSFER_ENCODING).len() > 0 ==> tw.len() > 0);
    assert(lw.len() > 0 ==> !c.bare() && cw.len() > 0 && lw[0] == cw[0]@);
    assert(lw.len() > 0 && c.b == Some(BodyLength::Unknown) ==> k is Length && all_num(cw, k->Length_0) && prev == Some(k->Length_0));
    assert(prev is Some ==> lw.len() > 0);
    assert(cw.len() > 0 && !c.bare() && c.b is Some ==> lw.len() > 0);
}
/// the head says of the end of the body what the encoder does
pub open spec fn agrees(c: Cfg, h0: Seq<Ent>, t: Seq<Seq<u8>>, l: Seq<Seq<u8>>, k: Kind) -> bool {
    let cl = hm_vals(h0, CONTENT_LENGTH);
    // the caller owes: a body of exact size and a Content-Length agree
    let owed = match c.b { Some(BodyLength::Known(n)) => all_num(cl, n), _ => true };
    &&& t.len() + l.len() <= 1
    &&& c.bare() ==> t.len() + l.len() == 0
    &&& c.v10 ==> t.len() == 0
    &&& if !c.can() { t.len() == 0 && k == Kind::Length(0) }
        else if t.len() == 1 { k is Chunked && fin_chunked(t[0]) }
        else if l.len() == 1 { k is Length && (owed ==> num(l[0]) == Some(k->Length_0)) }
        else { c.v10 && k is CloseDelimited && c.b == Some(BodyLength::Unknown) }
    &&& c.can() && !(c.chunks() && hm_vals(h0, TRANSFER_ENCODING).len() > 0) ==> match c.b {
            None => k == Kind::Length(0),
            Some(BodyLength::Known(n)) => k == Kind::Length(n),
            Some(BodyLength::Unknown) => if cl.len() > 0 { k is Length && all_num(cl, k->Length_0) } else if c.v10 { k is CloseDelimited } else { k is Chunked },
        }
}
/// the other fields are the caller's, lists on one line; a date is added if asked for and missing
pub open spec fn others(c: Cfg, h0: Seq<Ent>, ls: WLines, date: bool) -> bool {
    &&& forall|n: HeaderName| plain(n) && n != DATE ==> #[trigger] wvals(ls, n) == octs(hm_vals(h0, n))
    &&& one_line(wvals(ls, CONNECTION), hm_vals(h0, CONNECTION))
    &&& if c.chunks() { one_line(wvals(ls, TRAILER), hm_vals(h0, TRAILER)) } else { wvals(ls, TRAILER).len() == 0 }
    &&& if date && hm_vals(h0, DATE).len() == 0 { wvals(ls, DATE).len() == 1 && is_date(wvals(ls, DATE)[0]) } else { wvals(ls, DATE) == octs(hm_vals(h0, DATE)) }
}
/// the fields and the empty line appended
pub open spec fn answered(d0: Seq<u8>, d: Seq<u8>, c: Cfg, h0: Seq<Ent>, date: bool, e: Encoder) -> bool {
    exists|f: Seq<u8>, ls: WLines| #[trigger] wired(f, ls) && d == d0 + f + crlf()
        && agrees(c, h0, wvals(ls, TRANSFER_ENCODING), wvals(ls, CONTENT_LENGTH), e.kind)
        && others(c, h0, ls, date)
        && e.is_last == (c.last0 || any_tok(hm_vals(h0, CONNECTION), t_close()))
}
pub open spec fn zero() -> Seq<u8> { seq![0x30u8] }
/// the framing line added after the caller's fields, and the encoder; dec: the length in decimal
pub open spec fn tail(c: Cfg, s: St, dec: Seq<u8>) -> St {
    let may_cl = c.can() || c.m == Some(Method::HEAD) && !c.bare() && c.s.n != 304;
    if s.wl { s } else { match c.b {
        Some(BodyLength::Unknown) => if c.chunks() { St { ls: s.ls.push((TRANSFER_ENCODING, t_chunked())), k: Kind::Chunked(None), ..s } } else { St { k: Kind::CloseDelimited, ..s } },
        None | Some(BodyLength::Known(0)) => St { ls: if c.can() { s.ls.push((CONTENT_LENGTH, zero())) } else { s.ls }, k: Kind::Length(0), ..s },
        Some(BodyLength::Known(n)) => if may_cl { St { ls: s.ls.push((CONTENT_LENGTH, dec)), k: Kind::Length(n), ..s } } else { St { k: Kind::Length(0), ..s } },
    } }
}
pub open spec fn last_kind(c: Cfg, k: Kind) -> Kind { if c.can() { k } else { Kind::Length(0) } }
/// with all lines of the map written
pub open spec fn whole(c: Cfg, h0: Seq<Ent>, s: St) -> bool {
    &&& hm_wf(h0) && c.ok() && s.op is None
    &&& rest(c, hm_lines(h0), s.ls, None) && framed(c, hm_lines(h0), s.ls, None, false, s.wl, s.k, s.prev)
}
pub proof fn lemma_tail(c: Cfg, h0: Seq<Ent>, s: St, dec: Seq<u8>)
    requires whole(c, h0, s), c.b matches Some(BodyLength::Known(n)) ==> decimal(dec, n)
    ensures ({
        let t = tail(c, s, dec);
        &&& agrees(c, h0, wvals(t.ls, TRANSFER_ENCODING), wvals(t.ls, CONTENT_LENGTH), last_kind(c, t.k))
        &&& others(c, h0, t.ls, false)
    })
{
    let t = tail(c, s, dec);
    let p = hm_lines(h0);
    assert forall|n: HeaderName| #[trigger] lvals(p, n) == hm_vals(h0, n) by { lemma_lvals_hm(h0, n); }
    lemma_chunked_text();
    lemma_wv_push(s.ls, (TRANSFER_ENCODING, t_chunked()));
    lemma_wv_push(s.ls, (CONTENT_LENGTH, zero()));
    lemma_wv_push(s.ls, (CONTENT_LENGTH, dec));
    assert(decimal(zero(), 0)) by { assert(zero().drop_last() =~= Seq::<u8>::empty()); reveal_with_fuel(dval, 3); assert(dig(zero()[0])); }
    lemma_decimal(zero(), 0);
    if c.b is Some && c.b->0 is Known { lemma_decimal(dec, c.b->0->Known_0); }
    let tv = wv(s.ls, None, TRANSFER_ENCODING);
    let lv = wv(s.ls, None, CONTENT_LENGTH);
    let tw = wvals(t.ls, TRANSFER_ENCODING);
    let lw = wvals(t.ls, CONTENT_LENGTH);
    let cl = hm_vals(h0, CONTENT_LENGTH);
    if cl.len() > 0 { assert(forall|n: u64| all_num(cl, n) ==> num(cl[0]@) == Some(n)); }
    assert forall|n: HeaderName| n != TRANSFER_ENCODING && n != CONTENT_LENGTH implies #[trigger] wvals(t.ls, n) == wv(s.ls, None, n) by {}
    assert(others(c, h0, t.ls, false));
    let k = last_kind(c, t.k);
    assert(tw.len() + lw.len() <= 1);
    assert(c.bare() ==> tw.len() + lw.len() == 0);
    assert(c.v10 ==> tw.len() == 0);
    assert(!c.can() ==> tw.len() == 0 && k == Kind::Length(0));
    assert(c.can() && tw.len() == 1 ==> k is Chunked && fin_chunked(tw[0]));
    assert(c.can() && tw.len() == 0 && lw.len() == 1 ==> k is Length);
    assert(c.can() && tw.len() == 0 && lw.len() == 0 ==> c.v10 && k is CloseDelimited && c.b == Some(BodyLength::Unknown));
    assert(c.can() && !(c.chunks() && hm_vals(h0, TRANSFER_ENCODING).len() > 0) ==> match c.b {
            None => k == Kind::Length(0),
            Some(BodyLength::Known(n)) => k == Kind::Length(n),
            Some(BodyLength::Unknown) => if cl.len() > 0 { k is Length && all_num(cl, k->Length_0) } else if c.v10 { k is CloseDelimited } else { k is Chunked },
        });
}
/// a date added
pub proof fn lemma_dated(c: Cfg, h0: Seq<Ent>, ls: WLines, v: Seq<u8>)
    requires others(c, h0, ls, false), is_date(v), hm_vals(h0, DATE).len() == 0
    ensures others(c, h0, ls.push((DATE, v)), true), wvals(ls.push((DATE, v)), TRANSFER_ENCODING) == wvals(ls, TRANSFER_ENCODING), wvals(ls.push((DATE, v)), CONTENT_LENGTH) == wvals(ls, CONTENT_LENGTH)
{
    lemma_wv_push(ls, (DATE, v));
    assert(wvals(ls, DATE).len() == 0);
    assert(wvals(ls.push((DATE, v)), DATE)[0] == v);
}
pub proof fn lemma_undated(c: Cfg, h0: Seq<Ent>, ls: WLines, date: bool)
    requires others(c, h0, ls, false), date ==> hm_vals(h0, DATE).len() > 0
    ensures others(c, h0, ls, date)
{}
pub proof fn lemma_agrees_kind(c: Cfg, h0: Seq<Ent>, t: Seq<Seq<u8>>, l: Seq<Seq<u8>>, k: Kind, j: Kind)
    requires agrees(c, h0, t, l, k), j == k || j is Chunked && k is Chunked
    ensures agrees(c, h0, t, l, j)
{}
pub proof fn lemma_answered(d0: Seq<u8>, d: Seq<u8>, ls: WLines, c: Cfg, h0: Seq<Ent>, date: bool, e: Encoder)
    requires shaped(d0, d, ls, None), agrees(c, h0, wvals(ls, TRANSFER_ENCODING), wvals(ls, CONTENT_LENGTH), e.kind), others(c, h0, ls, date),
        e.is_last == (c.last0 || any_tok(hm_vals(h0, CONNECTION), t_close()))
    ensures answered(d0, d + crlf(), c, h0, date, e)
{
    let (f, s) = choose|f: Seq<u8>, s: Seq<u8>| #[trigger] wired(f, ls) && #[trigger] opened(s, None) && d == d0 + f + s;
    assert(d =~= d0 + f);
}
pub proof fn lemma_answered_prefix(d0: Seq<u8>, d: Seq<u8>, c: Cfg, h0: Seq<Ent>, date: bool, e: Encoder)
    requires answered(d0, d, c, h0, date, e)
    ensures d0.len() <= d.len(), d.take(d0.len() as int) == d0, e.is_last == (c.last0 || any_tok(hm_vals(h0, CONNECTION), t_close()))
{ let (f, ls) = choose|f: Seq<u8>, ls: WLines| #[trigger] wired(f, ls) && d == d0 + f + crlf(); assert(d.take(d0.len() as int) =~= d0); }
/// the octets written from literals
pub proof fn lemma_lits()
    ensures
        bytes_of("content-length: "@) == name_str(CONTENT_LENGTH) + colon(), bytes_of("transfer-encoding: "@) == name_str(TRANSFER_ENCODING) + colon(),
        bytes_of("connection: "@) == name_str(CONNECTION) + colon(), bytes_of("trailer: "@) == name_str(TRAILER) + colon(), bytes_of("date: "@) == name_str(DATE) + colon(),
        bytes_of("transfer-encoding: chunked\r\n"@) == name_str(TRANSFER_ENCODING) + bytes_of(": chunked\r\n"@),
        bytes_of("content-length: 0\r\n"@) == name_str(CONTENT_LENGTH) + bytes_of(": 0\r\n"@),
        bytes_of(": chunked\r\n"@) == colon() + t_chunked() + crlf(), bytes_of(": 0\r\n"@) == colon() + zero() + crlf(),
        "content-length: ".is_ascii(), "transfer-encoding: ".is_ascii(), "connection: ".is_ascii(), "trailer: ".is_ascii(), "date: ".is_ascii(),
        "transfer-encoding: chunked\r\n".is_ascii(), ": chunked\r\n".is_ascii(), "content-length: 0\r\n".is_ascii(), ": 0\r\n".is_ascii(),
        (&[44u8, 32, 99, 104, 117, 110, 107, 101, 100, 13, 10])@ == comma() + t_chunked() + crlf(),
        (&[13u8, 10])@ == crlf(), (&[58u8, 32])@ == colon(), (&[44u8, 32])@ == comma(), (&[13u8, 10, 13, 10])@ == crlf() + crlf(),
{
    assert((&[13u8, 10])@ =~= crlf()); assert((&[58u8, 32])@ =~= colon()); assert((&[44u8, 32])@ =~= comma()); assert((&[13u8, 10, 13, 10])@ =~= crlf() + crlf());
    lemma_chunked_text();
    assert((&[44u8, 32, 99, 104, 117, 110, 107, 101, 100, 13, 10])@ =~= comma() + t_chunked() + crlf());
    axiom_names(); lemma_chunked_text();
    reveal_strlit("content-length: "); reveal_strlit("transfer-encoding: "); reveal_strlit("connection: "); reveal_strlit("trailer: "); reveal_strlit("date: ");
    reveal_strlit("content-length"); reveal_strlit("transfer-encoding"); reveal_strlit("connection"); reveal_strlit("trailer"); reveal_strlit("date");
    reveal_strlit("transfer-encoding: chunked\r\n"); reveal_strlit(": chunked\r\n"); reveal_strlit("content-length: 0\r\n"); reveal_strlit(": 0\r\n");
    assert(bytes_of("content-length: "@) =~= name_str(CONTENT_LENGTH) + colon());
    assert(bytes_of("transfer-encoding: "@) =~= name_str(TRANSFER_ENCODING) + colon());
    assert(bytes_of("connection: "@) =~= name_str(CONNECTION) + colon());
    assert(bytes_of("trailer: "@) =~= name_str(TRAILER) + colon());
    assert(bytes_of("date: "@) =~= name_str(DATE) + colon());
    assert(bytes_of("transfer-encoding: chunked\r\n"@) =~= name_str(TRANSFER_ENCODING) + bytes_of(": chunked\r\n"@));
    assert(bytes_of("content-length: 0\r\n"@) =~= name_str(CONTENT_LENGTH) + bytes_of(": 0\r\n"@));
    assert(bytes_of(": chunked\r\n"@) =~= colon() + t_chunked() + crlf());
    assert(bytes_of(": 0\r\n"@) =~= colon() + zero() + crlf());
}
pub open spec fn cfg_of(h: MessageHead<StatusCode>, m: Option<Method>, b: Option<BodyLength>, wl: bool, last: bool) -> Cfg { Cfg { v10: h.version == Version::HTTP_10, m, s: h.subject, b, wl0: wl, last0: last } }
pub proof fn lemma_first(l: HLines, k: int)
    requires 0 <= k < l.len(), first(l, k) ensures lvals(l.take(k), l[k].0) == Seq::<HeaderValue>::empty()
{ let p = l.take(k); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 != l[k].0 by { assert(l[i].0 != l[k].0); } lemma_lvals_none(p, l[k].0); }
/// what the loop relies on
pub proof fn lemma_facts(c: Cfg, p: HLines, s: St)
    requires framed(c, p, s.ls, s.op, s.mc, s.wl, s.k, s.prev)
    ensures !s.wl ==> s.k == Kind::Length(0), s.prev is Some ==> s.wl, s.op is Some ==> {
        &&& on(s.op) == CONTENT_LENGTH ==> c.b is Some && s.wl && (c.b == Some(BodyLength::Unknown) ==> s.prev is Some)
        &&& on(s.op) == TRANSFER_ENCODING ==> s.k == Kind::Chunked(None) && s.wl
        &&& on(s.op) == CONTENT_LENGTH || on(s.op) == TRANSFER_ENCODING || mergeable(c, on(s.op))
    }
{ if s.op is Some { assert(wv(s.ls, s.op, on(s.op)).len() > 0); } }
/// before any line
pub proof fn lemma_state_0(c: Cfg)
    requires c.ok()
    ensures state(c, Seq::empty(), St { ls: Seq::empty(), op: None, mc: false, wl: c.wl0, k: Kind::Length(0), prev: None, last: c.last0, date: false })
{
    assert forall|n: HeaderName| plain(n) implies #[trigger] wv(Seq::empty(), None, n) == octs(lvals(Seq::empty(), n)) by { assert(octs(lvals(Seq::empty(), n)) =~= Seq::<Seq<u8>>::empty()); }
}
pub proof fn lemma_lower_all() ensures forall|n: HeaderName| spells(#[trigger] name_str(n), n) { assert forall|n: HeaderName| spells(#[trigger] name_str(n), n) by { axiom_name_lower(n); } }
/// `current.as_ref().map_or(true, |(last, _)| last != name)`
pub fn vx_other<'m>(cur: &mut Option<(HeaderName, CaseIter<'m>)>, n: &HeaderName) -> (r: bool)
    ensures *final(cur) == *old(cur), r == (*old(cur) is None || ((*old(cur))->0).0 != *n)
{ match cur { Some(x) => x.0 != *n, None => true } }
/// `current.get_or_insert_with(|| (name.clone(), map.get_all_internal(name)))`, the second part
#[verifier::external_body]
pub fn vx_cur<'a, 'm>(cur: &'a mut Option<(HeaderName, CaseIter<'m>)>, map: &'m HeaderCaseMap, n: &HeaderName) -> (r: &'a mut CaseIter<'m>)
    ensures *final(cur) is Some, ((*final(cur))->0).1 == *final(r), match *old(cur) {
        Some(x) => ((*final(cur))->0).0 == x.0 && *r == x.1,
        None => ((*final(cur))->0).0 == *n && r.of() == *n,
    }
{ unimplemented!() }
/// 1xx other than 101 cannot be a service's answer
pub open spec fn unsent(s: StatusCode) -> bool { 100 <= s.n < 200 && s.n != 101 }
/// the reason phrase: the custom one, octet for octet, or the standard one
pub open spec fn reason_text(h: MessageHead<StatusCode>) -> Seq<u8> {
    match ext_of::<ReasonPhrase>(h.extensions) { Some(r) => reason_of(r), None => match canon_reason(h.subject.n) { Some(t) => t, None => lit("<none>"@) } }
}
pub open spec fn status_line(h: MessageHead<StatusCode>) -> Seq<u8> {
    (if h.version == Version::HTTP_10 { lit("HTTP/1.0 "@) } else { lit("HTTP/1.1 "@) }) + code_str(h.subject.n) + seq![0x20u8] + reason_text(h) + crlf()
}
/// status line, fields, empty line; and whether the connection ends after it
pub open spec fn whole_head(d0: Seq<u8>, d: Seq<u8>, h: MessageHead<StatusCode>, m: Option<Method>, b: Option<BodyLength>, ka: bool, date: bool, e: Encoder) -> bool {
    answered(d0 + status_line(h), d, cfg_of(h, m, b, connected(m, h.subject), !ka || h.subject.n == 101 || connected(m, h.subject)), h.headers@, date, e)
}
/// the answer sent instead of one that cannot be: 500, no fields of the service, closing
pub open spec fn apology(d0: Seq<u8>, d: Seq<u8>, m: Option<Method>, date: bool) -> bool {
    exists|h: MessageHead<StatusCode>, e: Encoder| h.subject.n == 500 && h.headers@ == Seq::<Ent>::empty() && h.version == Version::HTTP_11 && #[trigger] whole_head(d0, d, h, m, None, false, date, e)
}
pub proof fn lemma_versions()
    ensures
        (&[72u8, 84, 84, 80, 47, 49, 46, 48, 32])@ == lit("HTTP/1.0 "@), (&[72u8, 84, 84, 80, 47, 49, 46, 49, 32])@ == lit("HTTP/1.1 "@),
        (&[72u8, 84, 84, 80, 47, 49, 46, 49, 32, 50, 48, 48, 32, 79, 75, 13, 10])@ == lit("HTTP/1.1 "@) + lit("200"@) + seq![0x20u8] + lit("OK"@) + crlf(),
        (&[32u8])@ == seq![0x20u8], (&[13u8, 10])@ == crlf(), "<none>".is_ascii(),
{
    reveal_strlit("HTTP/1.0 "); reveal_strlit("HTTP/1.1 "); reveal_strlit("200"); reveal_strlit("OK"); reveal_strlit("<none>");
    assert((&[72u8, 84, 84, 80, 47, 49, 46, 48, 32])@ =~= lit("HTTP/1.0 "@)); assert((&[72u8, 84, 84, 80, 47, 49, 46, 49, 32])@ =~= lit("HTTP/1.1 "@));
    assert((&[72u8, 84, 84, 80, 47, 49, 46, 49, 32, 50, 48, 48, 32, 79, 75, 13, 10])@ =~= lit("HTTP/1.1 "@) + lit("200"@) + seq![0x20u8] + lit("OK"@) + crlf());
    assert((&[32u8])@ =~= seq![0x20u8]); assert((&[13u8, 10])@ =~= crlf());
}
#[verifier::external_body]
pub fn vx_default_head() -> (r: MessageHead<StatusCode>)
    ensures r.version == Version::HTTP_11, r.subject == StatusCode::OK, r.headers@ == Seq::<Ent>::empty(), ext_of::<ReasonPhrase>(r.extensions) is None, ext_of::<HeaderCaseMap>(r.extensions) is None
{ unimplemented!() }
pub fn vx_or<'a>(o: Option<&'a VStr>, d: &'a str) -> (r: &'a [u8]) ensures match o { Some(t) => r@ == t@, None => d.is_ascii() ==> r@ == bytes_of(d@) }
{ match o { Some(t) => t.as_bytes(), None => vx_bytes(d) } }
#[verifier::external_body]
pub fn vx_take_ext(e: &mut Extensions) -> (r: Extensions) ensures r == *old(e) { unimplemented!() }
pub fn vx_ret(a: HyperResult<()>, e: Encoder) -> (r: HyperResult<Encoder>) ensures match a { Ok(_) => r == Ok::<Encoder, Error>(e), Err(x) => r == Err::<Encoder, Error>(x) }
{ match a { Ok(_) => Ok(e), Err(x) => Err(x) } }
/// what http gives for 200
#[verifier::external_body]
pub proof fn axiom_ok() ensures code_str(200) == lit("200"@), canon_reason(200) == Some(lit("OK"@)) {}
// ---- how names are written ---------------------------------------------------------------------------
pub trait HeaderNameWriter {
    spec fn wf(&self) -> bool;
    fn write_full_header_line(&mut self, dst: &mut Vec<u8>, line: &str, name_value_pair: (HeaderName, &str))
        requires old(self).wf(), line.is_ascii(), name_value_pair.1.is_ascii(), bytes_of(line@) == name_str(name_value_pair.0) + bytes_of(name_value_pair.1@)
        ensures final(self).wf(), exists|e: Seq<u8>| #[trigger] named(old(dst)@, e, name_value_pair.0) && final(dst)@ == e + bytes_of(name_value_pair.1@);
    fn write_header_name_with_colon(&mut self, dst: &mut Vec<u8>, name_with_colon: &str, name: HeaderName)
        requires old(self).wf(), name_with_colon.is_ascii(), bytes_of(name_with_colon@) == name_str(name) + colon()
        ensures final(self).wf(), named_colon(old(dst)@, final(dst)@, name);
    fn write_header_name(&mut self, dst: &mut Vec<u8>, name: &HeaderName)
        requires old(self).wf()
        ensures final(self).wf(), named(old(dst)@, final(dst)@, *name);
}
} // verus!
//@ include hdrfns.rs
verus! {
//@ source src/proto/h1/role.rs
//@ desugar macros closures
//@ gsubst `crate::Result<$t>` => `HyperResult<$t>`
//@ gsubst `crate::Error` => `Error`
//@ gsubst `debug_assert_ne!(&dst[dst.len() - 2..], b"\r\n", $m)` => `debug_assert!(!vx_ends_crlf(dst))`
//@ gsubst `debug_assert_eq!(encoder, Encoder::length(0))` => `debug_assert!(vx_is_zero(&encoder))`
//@ gsubst `value.as_bytes() != b"0"` => `vx_debug()`
//@ gsubst `value_str.split(',').filter_map($a).collect()` => `vx_names(value_str)`
//@ gsubst `::itoa::Buffer::new().format(len).as_bytes()` => `vx_itoa(len).as_slice()`
//@ gsubst `date::extend(dst)` => `vx_date(dst)`
//@ gsubst `dst.reserve(date::DATE_VALUE_LENGTH + 8);` => ``
//@ gsubst `fields.extend(names)` => `vx_extend(fields, names)`
//@ gsubst `msg.req_method == &Some($x)` => `vx_is(msg.req_method, $x)`
//@ gsubst `msg.req_method != &Some($x)` => `!vx_is(msg.req_method, $x)`
//@ gsubst `*msg.req_method == Some($x)` => `vx_is(msg.req_method, $x)`
//@ gsubst `*msg.req_method != Some($x)` => `!vx_is(msg.req_method, $x)`
//@ gsubst `msg.req_method.as_ref() == Some(&$x)` => `vx_is(msg.req_method, $x)`
//@ gsubst `msg.req_method.as_ref() != Some(&$x)` => `!vx_is(msg.req_method, $x)`
//@ gsubst `method == Some(&$x)` => `vx_isr(method, $x)`
//@ gsubst `method != Some(&$x)` => `!vx_isr(method, $x)`
//@ gsubst `ValueIter<'map, Bytes>` => `CaseIter<'map>`
//@ gsubst `let Self { map, current, title_case_headers, } = self;` => `let map = self.map; let current = &mut self.current; let title_case_headers = &self.title_case_headers;`
//@ gsubst `current.as_ref().map_or(true, |(last, _)| last != name)` => `vx_other(current, name)`
//@ gsubst `let (_, values) = current.get_or_insert_with(|| (name.clone(), map.get_all_internal(name)));` => `let values = vx_cur(current, map, name);`
//@ gsubst `line.as_bytes()` => `vx_bytes(line)`
//@ gsubst `name_with_colon.as_bytes()` => `vx_bytes(name_with_colon)`
//@ gsubst `rest.as_bytes()` => `vx_bytes(rest)`
//@ gsubst `extend(dst, orig_name);` => `extend(dst, orig_name.as_ref());`
//@ item struct LowercaseWriter
//@ item struct OrigCaseWriter
//@ impl <HeaderNameWriter for LowercaseWriter> `impl HeaderNameWriter for LowercaseWriter`
open spec fn wf(&self) -> bool { true }
//@ fn write_full_header_line
//@ ghost start
proof { let (d, n) = (dst@, vx_arg3.0); axiom_name_lower(n); let e = d + name_str(n); assert(named(d, e, n)); assert(d + bytes_of(line@) =~= e + bytes_of(vx_arg3.1@)); }
//@ fn write_header_name_with_colon
//@ ghost start
proof { let (d, n) = (dst@, vx_arg3); axiom_name_lower(n); assert(d + bytes_of(name_with_colon@) =~= d + name_str(n) + colon()); assert(named_colon(d, d + name_str(n) + colon(), n)); }
//@ fn write_header_name
//@ ghost start
proof { lemma_lower_all(); }
//@ endimpl
//@ impl <HeaderNameWriter for OrigCaseWriter> `impl<'map> HeaderNameWriter for OrigCaseWriter<'map>`
open spec fn wf(&self) -> bool { self.current is Some ==> (self.current->0).1.of() == (self.current->0).0 }
//@ fn write_full_header_line
//@ fn write_header_name_with_colon
//@ fn write_header_name
//@ ghost start
proof { lemma_nm(*name, true); lemma_nm(*name, false); }
//@ endimpl
//@ fn Server::can_have_body
    ensures r == bodied(match method { Some(m) => Some(*m), None => None }, status)
//@ fn Server::can_chunked
    ensures r == bodied(match method { Some(m) => Some(*m), None => None }, status)
//@ fn Server::can_have_content_length
    ensures r == !(100 <= status.n < 200 || status.n == 204 || status.n == 304 || method == Some(&Method::CONNECT) && 200 <= status.n < 300)
//@ fn Server::can_have_implicit_zero_content_length
    ensures r == (!(100 <= status.n < 200 || status.n == 204 || status.n == 304 || method == Some(&Method::CONNECT) && 200 <= status.n < 300) && method != Some(&Method::HEAD))
//@ fn Server::encode_headers attr="exec_allows_no_decreases_clause;rlimit(60);loop_isolation(false);allow_complex_invariants;spinoff_prover"
    requires header_name_writer.wf(), orig_len <= old(dst)@.len(), wrote_len == connected(*old(msg.req_method), old(msg.head).subject)
    ensures
        final(msg.head).headers@ == Seq::<Ent>::empty(), *final(msg.req_method) == *old(msg.req_method),
        match r {
            Ok(e) => answered(old(dst)@, final(dst)@, cfg_of(*old(msg.head), *old(msg.req_method), msg.body, wrote_len, is_last), old(msg.head).headers@, msg.date_header, e),
            Err(e) => e.user && final(dst)@ == old(dst)@.take(orig_len as int) && old(msg.head).headers@.len() > 0,
        },
//@ ghost start
hide(shaped); hide(rest); hide(framed); hide(agrees); hide(others); hide(named); hide(named_colon);
let ghost c = cfg_of(*msg.head, *msg.req_method, msg.body, wrote_len, is_last);
let ghost (d0, h0) = (dst@, msg.head.headers@);
let ghost hl = hm_lines(h0);
let ghost mut sc = St { ls: Seq::empty(), op: None, mc: false, wl: false, k: Kind::Length(0), prev: None, last: false, date: false };
proof { axiom_hm_wf(msg.head.headers); lemma_lits(); lemma_shape_0(d0); lemma_state_0(c); assert(hl.take(0) =~= Seq::empty()); assert(hl.take(hl.len() as int) =~= hl); }
//@ loop 0
    invariant
        vx_it0.lines() == hl, vx_it0.pos() <= hl.len(), header_name_writer.wf(),
        msg.head.version == old(msg.head).version, msg.head.subject == old(msg.head).subject, *msg.req_method == *old(msg.req_method), msg.head.headers@ == Seq::<Ent>::empty(),
        vx_it0.pos() > 0 ==> cur_name == Some(hl[vx_it0.pos() - 1].0),
        inv(d0, dst@, c, hl.take(vx_it0.pos() as int), is_name_written, must_write_chunked, wrote_len, encoder.kind, prev_con_len, is_last, wrote_date),
        d0 == old(dst)@, orig_len <= d0.len(), hl == hm_lines(h0), c.ok(), h0 == old(msg.head).headers@,
        c.v10 == (msg.head.version == Version::HTTP_10), c.m == *msg.req_method, c.s == msg.head.subject, c.b == msg.body,
    ensures vx_it0.pos() == hl.len(),
//@ ghost loop 0 start
proof { lemma_lits(); }
let ghost p = hl.take(vx_it0.pos() - 1);
let ghost x = hl[vx_it0.pos() - 1];
let ghost (ls0, op0) = choose|ls: WLines, op: Open| #[trigger] shaped(d0, dst@, ls, op) && is_name_written == op is Some && state(c, p, St { ls, op, mc: must_write_chunked, wl: wrote_len, k: encoder.kind, prev: prev_con_len, last: is_last, date: wrote_date });
let ghost s0 = St { ls: ls0, op: op0, mc: must_write_chunked, wl: wrote_len, k: encoder.kind, prev: prev_con_len, last: is_last, date: wrote_date };
let ghost s1 = if opt_name is Some { closed(s0) } else { s0 };
proof {
    assert(hl.take(vx_it0.pos() as int) =~= p.push(x));
    lemma_closed(c, p, s0);
    if op0 is Some { lemma_shape_close(d0, dst@, ls0, op0->0.n, op0->0.a); }
    if opt_name is Some { lemma_first(hl, vx_it0.pos() - 1); } else { assert(p.last() == hl[vx_it0.pos() - 2]); }
}
//@ ghost before `let name = cur_name`
proof {
    assert(shaped(d0, dst@, s1.ls, s1.op));
    if step(c, x, s1) is Some { lemma_step(c, p, x, s1); }
    lemma_facts(c, p, s1);
    if s1.op is None { lemma_shape_open(d0, dst@, s1.ls, x.0, x.1); lemma_shape_line(d0, dst@, s1.ls, x.0, x.1@); }
    else { lemma_shape_more(d0, dst@, s1.ls, x.0, s1.op->0.a, x.1); }
    lemma_shape_prefix(d0, dst@, s1.ls, s1.op);
}
//@ ghost before last `if is_name_written {`
proof {
    let (ls, op) = choose|ls: WLines, op: Open| #[trigger] shaped(d0, dst@, ls, op) && is_name_written == op is Some && state(c, hl, St { ls, op, mc: must_write_chunked, wl: wrote_len, k: encoder.kind, prev: prev_con_len, last: is_last, date: wrote_date });
    let sf = St { ls, op, mc: must_write_chunked, wl: wrote_len, k: encoder.kind, prev: prev_con_len, last: is_last, date: wrote_date };
    lemma_closed(c, hl, sf);
    if op is Some { lemma_shape_close(d0, dst@, ls, op->0.n, op->0.a); }
    sc = closed(sf);
}
//@ ghost before `if !wrote_len {`
let ghost dec = if msg.body is Some && msg.body->0 is Known { dec_of(msg.body->0->Known_0) } else { Seq::empty() };
let ghost sd = tail(c, sc, dec);
proof {
    assert(shaped(d0, dst@, sc.ls, None));
    axiom_dec(msg.body->0->Known_0);
    lemma_tail(c, h0, sc, dec);
    lemma_shape_line(d0, dst@, sc.ls, TRANSFER_ENCODING, t_chunked());
    lemma_shape_line(d0, dst@, sc.ls, CONTENT_LENGTH, zero());
    lemma_shape_line(d0, dst@, sc.ls, CONTENT_LENGTH, dec);
    lemma_lvals_hm(h0, CONNECTION);
    lemma_lvals_hm(h0, DATE);
}
//@ ghost before `if !wrote_date && msg.date_header`
proof { assert(shaped(d0, dst@, sd.ls, None)); assert(encoder.kind == last_kind(c, sd.k)); }
let ghost d1 = dst@;
//@ ghost before last `Ok(encoder.set_last(is_last))`
proof {
    let en = Encoder { kind: encoder.kind, is_last };
    lemma_agrees_kind(c, h0, wvals(sd.ls, TRANSFER_ENCODING), wvals(sd.ls, CONTENT_LENGTH), last_kind(c, sd.k), en.kind);
    if !wrote_date && msg.date_header {
        let (e, v) = choose|e: Seq<u8>, v: Seq<u8>| #[trigger] named_colon(d1, e, DATE) && #[trigger] is_date(v) && dst@ == e + v + (crlf() + crlf());
        lemma_shape_line(d0, d1, sd.ls, DATE, v);
        lemma_dated(c, h0, sd.ls, v);
        assert(dst@ =~= (e + v + crlf()) + crlf());
        lemma_answered(d0, e + v + crlf(), sd.ls.push((DATE, v)), c, h0, true, en);
    } else {
        lemma_undated(c, h0, sd.ls, msg.date_header);
        lemma_answered(d0, d1, sd.ls, c, h0, msg.date_header, en);
    }
}
//@ fn Server::encode_headers_with_lower_case
    requires orig_len <= old(dst)@.len(), wrote_len == connected(*old(msg.req_method), old(msg.head).subject)
    ensures
        final(msg.head).headers@ == Seq::<Ent>::empty(), *final(msg.req_method) == *old(msg.req_method),
        match r {
            Ok(e) => answered(old(dst)@, final(dst)@, cfg_of(*old(msg.head), *old(msg.req_method), msg.body, wrote_len, is_last), old(msg.head).headers@, msg.date_header, e),
            Err(e) => e.user && final(dst)@ == old(dst)@.take(orig_len as int) && old(msg.head).headers@.len() > 0,
        },
//@ fn Server::encode_headers_with_original_case
    requires orig_len <= old(dst)@.len(), wrote_len == connected(*old(msg.req_method), old(msg.head).subject)
    ensures
        final(msg.head).headers@ == Seq::<Ent>::empty(), *final(msg.req_method) == *old(msg.req_method),
        match r {
            Ok(e) => answered(old(dst)@, final(dst)@, cfg_of(*old(msg.head), *old(msg.req_method), msg.body, wrote_len, is_last), old(msg.head).headers@, msg.date_header, e),
            Err(e) => e.user && final(dst)@ == old(dst)@.take(orig_len as int) && old(msg.head).headers@.len() > 0,
        },
//@ item const AVERAGE_HEADER_SIZE
//@ gsubst `Self::Outgoing` => `StatusCode`
//@ gsubst `MessageHead::default()` => `vx_default_head()`
//@ gsubst `msg.head.subject.canonical_reason().unwrap_or($d).as_bytes()` => `vx_or(msg.head.subject.canonical_reason(), $d)`
//@ gsubst `std::mem::take(&mut msg.head.extensions)` => `vx_take_ext(&mut msg.head.extensions)`
//@ gsubst `ret.map(|()| encoder)` => `vx_ret(ret, encoder)`
//@ gsubst `crate::ext::ReasonPhrase` => `ReasonPhrase`
//@ fn <Http1Transaction for Server>::encode impl="impl Server" panics=runtime
    ensures
        final(msg.head).headers@ == Seq::<Ent>::empty(), *final(msg.req_method) == *old(msg.req_method),
        old(dst)@.len() <= final(dst)@.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@, //#C10,C12
        r matches Ok(e) ==> (!msg.keep_alive || any_tok(hm_vals(old(msg.head).headers@, CONNECTION), t_close()) ==> e.is_last), //#C10,C12
        match r {
            Ok(e) => !unsent(old(msg.head).subject) && whole_head(old(dst)@, final(dst)@, *old(msg.head), *old(msg.req_method), msg.body, msg.keep_alive, msg.date_header, e),
            Err(e) => e.user && if unsent(old(msg.head).subject) { apology(old(dst)@, final(dst)@, *old(msg.req_method), msg.date_header) } else { final(dst)@ == old(dst)@ },
        }, //#C10,C21
//@ ghost start
hide(answered); hide(status_line);
let ghost (d0, h0, b0) = (dst@, *msg.head, msg.body);
let ghost un = unsent(h0.subject);
proof { lemma_versions(); axiom_ok(); }
//@ ghost before `let orig_len`
let ghost h1 = *msg.head;
//@ ghost before `let orig_headers;`
proof {
    reveal(status_line);
    let v = if h1.version == Version::HTTP_10 { lit("HTTP/1.0 "@) } else { lit("HTTP/1.1 "@) };
    if h1.version == Version::HTTP_11 && h1.subject == StatusCode::OK && custom_reason_phrase is None {
        assert(dst@ == d0 + (v + lit("200"@) + seq![0x20u8] + lit("OK"@) + crlf())); //#C10,C21
    } else {
        assert(dst@ =~= d0 + (v + code_str(h1.subject.n) + seq![0x20u8] + reason_text(h1) + crlf())); //#C10,C21
    }
    assert(dst@ == d0 + status_line(h1)); //#C10,C21
    assert(dst@.take(d0.len() as int) =~= d0); //#C10,C21
}
let ghost d1 = dst@;
//@ ghost before-tail
proof {
    let m = *msg.req_method;
    lemma_answered_prefix(d1, dst@, cfg_of(h1, m, msg.body, wrote_len, is_last), h1.headers@, msg.date_header, encoder);
    assert(dst@.take(d0.len() as int) =~= dst@.take(d1.len() as int).take(d0.len() as int));
    if un { assert(whole_head(d0, dst@, h1, m, None, false, msg.date_header, encoder)); } //#C10
}
//@ end
} // verus!
fn main() {}
