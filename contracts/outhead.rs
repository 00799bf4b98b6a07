verus! {
use header::*;
// ---- http (assumed contracts) ----------------------------------------------------
#[verifier::external_body]
pub struct Uri { p: u8 }
pub uninterp spec fn uri_str(u: Uri) -> Seq<u8>;
/// `write!(FastWrite(dst), "{} ", uri)`: what core::fmt displays goes to `extend`
#[verifier::external_body]
pub fn vx_write_uri(dst: &mut Vec<u8>, u: &Uri) ensures final(dst)@ == old(dst)@ + uri_str(*u) + seq![0x20u8] { unimplemented!() }
#[verifier::external_body]
pub struct HeaderCaseMap { p: u8 }
#[verifier::external_body]
pub struct OnInformational { p: u8 }
#[verifier::external_body]
pub struct ReasonPhrase { p: u8 }
/// the octets of a custom reason phrase
pub uninterp spec fn reason_of(r: ReasonPhrase) -> Seq<u8>;
impl ReasonPhrase {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == reason_of(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Extensions { p: u8 }
/// the value of type T kept in the extensions
pub uninterp spec fn ext_of<T>(e: Extensions) -> Option<T>;
impl Extensions {
    #[verifier::external_body]
    pub fn get<T>(&self) -> (r: Option<&T>) ensures match r { Some(t) => ext_of::<T>(*self) == Some(*t), None => ext_of::<T>(*self) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Extensions) { unimplemented!() }
}
pub mod http {
    pub use super::{HeaderMap, Uri, Extensions, Version, Method, StatusCode};
    pub mod header { pub use super::super::header::*; pub use super::super::{HeaderValue, HeaderName, ValueIter, OccupiedEntry}; }
}
pub mod ext { pub use super::{OnInformational, HeaderCaseMap, ReasonPhrase}; }
pub struct Error { pub user: bool }
impl Error {
    pub fn new_user_header() -> (r: Error) ensures r.user { Error { user: true } }
    pub fn new_user_unsupported_status_code() -> (r: Error) ensures r.user { Error { user: true } }
}
pub type HyperResult<T> = core::result::Result<T, Error>;
// ---- how names are spelled: letter case is free ---------------------------------------
pub open spec fn spells(s: Seq<u8>, n: HeaderName) -> bool { lws(s) == name_str(n) }
/// http keeps names in lower case
#[verifier::external_body]
pub proof fn axiom_name_lower(n: HeaderName) ensures spells(name_str(n), n) {}
pub proof fn lemma_nm(n: HeaderName, title: bool) ensures spells(nm(n, title), n)
{ axiom_name_lower(n); if title { lemma_tcase(name_str(n)); assert(lws(tcase(name_str(n))) =~= lws(name_str(n))); } }
/// names in the case map are spellings of their key: `HeaderCaseMap::append` gets both
/// from the same octets (unit heads)
#[verifier::external_body]
pub struct CaseIter<'a> { p: &'a u8 }
impl<'a> CaseIter<'a> {
    pub uninterp spec fn of(&self) -> HeaderName;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Bytes>) ensures final(self).of() == old(self).of(), r is Some ==> spells(r->0@, old(self).of()) { unimplemented!() }
}
impl HeaderCaseMap {
    #[verifier::external_body]
    pub fn get_all<'a>(&'a self, n: &HeaderName) -> (r: CaseIter<'a>) ensures r.of() == *n { unimplemented!() }
    #[verifier::external_body]
    pub fn get_all_internal<'a>(&'a self, n: &HeaderName) -> (r: CaseIter<'a>) ensures r.of() == *n { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: HeaderCaseMap) { unimplemented!() }
}
// ---- field lines as sent ----------------------------------------------------------------
pub type WLines = Seq<(HeaderName, Seq<u8>)>;
pub open spec fn is_line(l: Seq<u8>, x: (HeaderName, Seq<u8>)) -> bool {
    exists|s: Seq<u8>| spells(s, x.0) && (l == #[trigger] hline(s, x.1) || x.1.len() == 0 && l == s + seq![0x3au8] + crlf())
}
/// the octets are these lines, one after the other
pub open spec fn wired(w: Seq<u8>, ls: WLines) -> bool decreases ls.len() {
    if ls.len() == 0 { w.len() == 0 } else { exists|k: int| 0 <= k <= w.len() && wired(w.take(k), ls.drop_last()) && is_line(#[trigger] w.skip(k), ls.last()) }
}
pub proof fn lemma_wired_push(w: Seq<u8>, ls: WLines, l: Seq<u8>, x: (HeaderName, Seq<u8>))
    requires wired(w, ls), is_line(l, x)
    ensures wired(w + l, ls.push(x))
{
    let k = w.len() as int;
    assert((w + l).take(k) =~= w && (w + l).skip(k) =~= l);
    assert(ls.push(x).drop_last() =~= ls);
    assert(is_line((w + l).skip(k), ls.push(x).last()));
}
pub proof fn lemma_is_line(s: Seq<u8>, n: HeaderName, v: Seq<u8>)
    requires spells(s, n)
    ensures is_line(hline(s, v), (n, v)), v.len() == 0 ==> is_line(s + seq![0x3au8] + crlf(), (n, v))
{ let x = (n, v); assert(spells(s, x.0) && hline(s, x.1) == hline(s, v)); }
/// the values of one name, in order
pub open spec fn wvals(ls: WLines, n: HeaderName) -> Seq<Seq<u8>> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else if ls.last().0 == n { wvals(ls.drop_last(), n).push(ls.last().1) } else { wvals(ls.drop_last(), n) }
}
pub proof fn lemma_wvals_push(ls: WLines, x: (HeaderName, Seq<u8>), n: HeaderName)
    ensures wvals(ls.push(x), n) == (if x.0 == n { wvals(ls, n).push(x.1) } else { wvals(ls, n) })
{ assert(ls.push(x).drop_last() =~= ls); }
pub proof fn lemma_wvals_none(ls: WLines, n: HeaderName)
    requires forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).0 != n
    ensures wvals(ls, n).len() == 0
    decreases ls.len()
{ if ls.len() > 0 { assert(ls.drop_last().len() < ls.len()); assert forall|i: int| 0 <= i < ls.drop_last().len() implies (#[trigger] ls.drop_last()[i]).0 != n by { assert(ls[i].0 != n); } lemma_wvals_none(ls.drop_last(), n); } }
pub open spec fn octs(v: Seq<HeaderValue>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn olines(l: Seq<(HeaderName, HeaderValue)>) -> WLines { Seq::new(l.len(), |i: int| (l[i].0, l[i].1@)) }
/// the last transfer coding of a line is chunked (octets)
pub open spec fn fin_chunked(v: Seq<u8>) -> bool { lowtok(members(v).last(), t_chunked()) }
/// every member of every line is this number
pub open spec fn lens_are(c: Seq<Seq<u8>>, n: u64) -> bool { c.len() > 0 && forall|i: int| 0 <= i < c.len() ==> line_is(#[trigger] c[i], n) }
/// decimal digits
pub open spec fn decimal(v: Seq<u8>, n: u64) -> bool { digits(v) && dval(v) == n }
pub proof fn lemma_decimal(v: Seq<u8>, n: u64)
    requires decimal(v, n)
    ensures line_is(v, n), num(v) == Some(n)
{
    assert forall|i: int| 0 <= i < v.len() implies v[i] != 0x2c && vis(#[trigger] v[i]) by { assert(dig(v[i])); }
    lemma_nocomma(v);
    assert(dig(v[0]) && dig(v[v.len() - 1]));
    reveal_with_fuel(trim_l, 2); reveal_with_fuel(trim_r, 2);
    assert(trim(v) == v);
}
pub proof fn lemma_nocomma(v: Seq<u8>)
    requires forall|i: int| 0 <= i < v.len() ==> v[i] != 0x2c
    ensures members(v) == seq![v]
    decreases v.len()
{
    if v.len() > 0 {
        lemma_nocomma(v.drop_last());
        assert(v.drop_last().push(v.last()) =~= v);
        assert(seq![v.drop_last()].drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(members(v) =~= seq![v]);
    } else { assert(v =~= Seq::<u8>::empty()); }
}
/// `, ` and more text: the last member is a space and that text
pub proof fn lemma_last_member(a: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> t[i] != 0x2c
    ensures members(a + seq![0x2cu8, 0x20] + t).last() == seq![0x20u8] + t
    decreases t.len()
{
    let w = a + seq![0x2cu8, 0x20] + t;
    lemma_members_len(w.drop_last());
    if t.len() == 0 {
        assert(w.drop_last() =~= a.push(0x2c));
        assert(w.drop_last().drop_last() =~= a);
        lemma_members_len(a);
        assert(members(w.drop_last()).last() == Seq::<u8>::empty());
        assert(Seq::<u8>::empty().push(0x20) =~= seq![0x20u8] + t);
    } else {
        lemma_last_member(a, t.drop_last());
        assert(w.drop_last() =~= a + seq![0x2cu8, 0x20] + t.drop_last());
        assert((seq![0x20u8] + t.drop_last()).push(t.last()) =~= seq![0x20u8] + t);
    }
}
pub proof fn lemma_chunked_text()
    ensures fin_chunked(t_chunked()), allvis(t_chunked()), t_chunked().len() == 7, t_chunked() == seq![0x63u8, 0x68, 0x75, 0x6e, 0x6b, 0x65, 0x64], lowtok(seq![0x20u8] + t_chunked(), t_chunked())
{
    reveal_strlit("chunked");
    let c = t_chunked();
    assert(c =~= seq![0x63u8, 0x68, 0x75, 0x6e, 0x6b, 0x65, 0x64]);
    lemma_nocomma(c);
    assert(allvis(c));
    reveal_with_fuel(trim_l, 3); reveal_with_fuel(trim_r, 2);
    assert(trim(c) =~= c);
    assert((seq![0x20u8] + c).skip(1) =~= c);
    assert(trim(seq![0x20u8] + c) =~= c);
}
pub proof fn lemma_add_chunked(a: Seq<u8>)
    ensures fin_chunked(a + seq![0x2cu8, 0x20] + t_chunked())
{ lemma_chunked_text(); lemma_last_member(a, t_chunked()); }
/// one line per value of the map, under its name
pub proof fn lemma_hm_wvals(m: Seq<Ent>, n: HeaderName)
    requires hm_wf(m)
    ensures wvals(olines(hm_lines(m)), n) == octs(hm_vals(m, n))
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        assert forall|i: int, j: int| #![auto] 0 <= i < j < d.len() implies d[i].name != d[j].name by { assert(m[i] == d[i] && m[j] == d[j]); }
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).vals.len() > 0 by { assert(m[i] == d[i]); }
        lemma_hm_wvals(d, n);
        let e = m.last();
        lemma_ent_wvals(olines(hm_lines(d)), e, e.vals.len() as int, n);
        assert(ent_lines(e).take(e.vals.len() as int) =~= ent_lines(e));
        assert(olines(hm_lines(m)) =~= olines(hm_lines(d)) + olines(ent_lines(e)));
        if e.name == n {
            lemma_hm_absent(d, n);
            assert(octs(hm_vals(d, n)) =~= Seq::<Seq<u8>>::empty());
            assert(wvals(olines(hm_lines(m)), n) =~= octs(e.vals));
        }
    } else { assert(olines(hm_lines(m)) =~= Seq::empty()); assert(octs(hm_vals(m, n)) =~= Seq::<Seq<u8>>::empty()); }
}
pub proof fn lemma_hm_absent(m: Seq<Ent>, n: HeaderName)
    requires forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).name != n
    ensures hm_vals(m, n) == Seq::<HeaderValue>::empty()
    decreases m.len()
{ if m.len() > 0 { assert(m.last() == m[m.len() - 1]); assert forall|i: int| 0 <= i < m.drop_last().len() implies (#[trigger] m.drop_last()[i]).name != n by { assert(m[i].name != n); } lemma_hm_absent(m.drop_last(), n); } }
pub proof fn lemma_ent_wvals(a: WLines, e: Ent, k: int, n: HeaderName)
    requires 0 <= k <= e.vals.len()
    ensures wvals(a + olines(ent_lines(e).take(k)), n) == (if e.name == n { wvals(a, n) + octs(e.vals).take(k) } else { wvals(a, n) })
    decreases k
{
    if k == 0 { assert(a + olines(ent_lines(e).take(0)) =~= a); assert(wvals(a, n) + octs(e.vals).take(0) =~= wvals(a, n)); }
    else {
        lemma_ent_wvals(a, e, k - 1, n);
        let x = (e.name, e.vals[k - 1]@);
        assert(a + olines(ent_lines(e).take(k)) =~= (a + olines(ent_lines(e).take(k - 1))).push(x));
        lemma_wvals_push(a + olines(ent_lines(e).take(k - 1)), x, n);
        assert((wvals(a, n) + octs(e.vals).take(k - 1)).push(e.vals[k - 1]@) =~= wvals(a, n) + octs(e.vals).take(k));
    }
}
/// what write_headers and write_headers_title_case produce
pub proof fn lemma_render_wired(ls: Seq<(HeaderName, HeaderValue)>, title: bool)
    ensures wired(render(ls, title), olines(ls))
    decreases ls.len()
{
    if ls.len() > 0 {
        lemma_render_wired(ls.drop_last(), title);
        let (n, v) = ls.last();
        lemma_nm(n, title);
        lemma_is_line(nm(n, title), n, v@);
        lemma_wired_push(render(ls.drop_last(), title), olines(ls.drop_last()), hline(nm(n, title), v@), (n, v@));
        assert(olines(ls) =~= olines(ls.drop_last()).push((n, v@)));
    }
}
// ---- the encoder a head calls for ---------------------------------------------------------
//@ source src/proto/h1/encode.rs
//@ item enum Kind
//@ item struct Encoder
//@ fn Encoder::new
    ensures r.kind == kind, !r.is_last
//@ fn Encoder::chunked
    ensures r.kind == Kind::Chunked(None), !r.is_last
//@ fn Encoder::length
    ensures r.kind == Kind::Length(len), !r.is_last
//@ fn Encoder::close_delimited
    ensures r.kind is CloseDelimited, !r.is_last
//@ fn Encoder::into_chunked_with_trailing_fields
    ensures r.is_last == self.is_last, r.kind == (if self.kind is Chunked { Kind::Chunked(Some(trailers)) } else { self.kind })
//@ fn Encoder::is_chunked
    ensures r == (self.kind is Chunked)
//@ fn Encoder::set_last
    ensures r.kind == self.kind, r.is_last == is_last
//@ source src/proto/mod.rs
//@ item struct MessageHead
//@ item struct RequestLine
//@ item type RequestHead
//@ item enum BodyLength derive="Clone, Copy"
//@ source src/proto/h1/mod.rs
//@ item struct Encode
//@ end
} // verus!
