//@ include prelude.rs
//@ include http.rs
//@ include hdrspec.rs
verus! {
use header::*;
pub mod http { pub use super::HeaderMap; pub mod header { pub use super::super::header::*; pub use super::super::{HeaderValue, HeaderName, ValueIter}; } }
// ---- names as octets (assumed: http canonicalises names to lower case, and two
// ---- names with the same octets are the same name) ---------------------------
#[verifier::external_body]
pub proof fn axiom_names(a: HeaderName, b: HeaderName)
    ensures name_str(a) == name_str(b) ==> a == b,
        name_str(KEEP_ALIVE) == lit("keep-alive"@), name_str(PROXY_CONNECTION) == lit("proxy-connection"@),
{}
impl HeaderName {
    #[verifier::external_body]
    pub fn from_static(s: &'static str) -> (r: HeaderName) ensures name_str(r) == lit(s@) { unimplemented!() }
}
impl<'a> ValueIter<'a, HeaderValue> {
    /// `.cloned().collect()`
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: Vec<HeaderValue>) requires self.fresh(self.all()) ensures r@ == self.all() { unimplemented!() }
    /// `.any(|v| v != s)`
    #[verifier::external_body]
    pub fn vx_any_ne(self, s: &str) -> (r: bool) requires self.fresh(self.all()) ensures r == exists|i: int| 0 <= i < self.all().len() && #[trigger] self.all()[i]@ != lit(s@) { unimplemented!() }
}
/// what `str::trim` leaves; on text without control characters it is `trim`
pub uninterp spec fn utrim(v: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_utrim(v: Seq<u8>) ensures allvis(v) ==> utrim(v) == trim(v) {}
/// the octets of a str
pub uninterp spec fn sb(s: &str) -> Seq<u8>;
impl VText for str {
    #[verifier::external_body]
    fn vx_trim8(&self) -> (r: &str) ensures sb(r) == utrim(sb(self)) { unimplemented!() }
}
pub trait VText { fn vx_trim8(&self) -> (r: &str); }
pub struct Utf8Error { pub u: u8 }
pub uninterp spec fn utf8(v: Seq<u8>) -> bool;
#[verifier::external_body]
pub proof fn axiom_utf8(v: Seq<u8>) ensures allvis(v) ==> utf8(v) {}
#[verifier::external_body]
pub fn vx_from_utf8(v: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures r is Ok == utf8(v@), match r { Ok(s) => sb(s) == v@, Err(_) => true } { unimplemented!() }
impl HKey for &str { open spec fn keys(&self, n: HeaderName) -> bool { lws(sb(*self)) == name_str(n) } }
// ---- iterators ----------------------------------------------------------------
pub struct VxIt<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> VxIt<'a, T> {
    pub open spec fn all(&self) -> Seq<T> { self.s@ }
    pub open spec fn pos(&self) -> nat { self.i as nat }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).all() == old(self).all(), match r {
            None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos(),
            Some(b) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && *b == old(self).all()[old(self).pos() as int],
        }
    { if self.i < self.s.len() { self.i = self.i + 1; Some(&self.s[self.i - 1]) } else { None } }
}
impl<'a> VxIter for &'a Vec<HeaderValue> { type It = VxIt<'a, HeaderValue>;
    fn vx_iter(self) -> (r: Self::It) ensures r.all() == self@, r.pos() == 0 { VxIt { s: self.as_slice(), i: 0 } } }
impl<'a, const N: usize> VxIter for &'a [HeaderName; N] { type It = VxIt<'a, HeaderName>;
    fn vx_iter(self) -> (r: Self::It) ensures r.all() == self@, r.pos() == 0 { VxIt { s: self.as_slice(), i: 0 } } }
/// a static's reference
#[verifier::external_body]
pub fn vx_keep<T>(t: T) -> (r: &'static T) ensures *r == t { unimplemented!() }
/// `slice.split(|b| *b == sep)`
#[verifier::external_body]
pub struct BSplit<'a> { p: &'a u8 }
impl<'a> BSplit<'a> {
    pub uninterp spec fn parts(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures final(self).parts() == old(self).parts(), match r {
            None => old(self).pos() >= old(self).parts().len() && final(self).pos() == old(self).pos(),
            Some(s) => old(self).pos() < old(self).parts().len() && final(self).pos() == old(self).pos() + 1 && s@ == old(self).parts()[old(self).pos() as int],
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_bsplit<'a>(s: &'a [u8], sep: u8) -> (r: BSplit<'a>) ensures sep == 0x2c ==> r.parts() == members(s@) && r.pos() == 0 { unimplemented!() }
impl<'a> VxIter for BSplit<'a> { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }

// ---- specification ---------------------------------------------------------------
pub open spec fn always(n: HeaderName) -> bool { n == CONNECTION || n == KEEP_ALIVE || n == PROXY_CONNECTION || n == TRANSFER_ENCODING || n == UPGRADE }
/// a Connection member names n
pub open spec fn member_names(m: Seq<u8>, n: HeaderName) -> bool { utf8(m) && lws(utrim(m)) == name_str(n) }
pub open spec fn line_names(v: Seq<u8>, n: HeaderName) -> bool { exists|j: int| 0 <= j < members(v).len() && member_names(#[trigger] members(v)[j], n) }
pub open spec fn named(vs: Seq<HeaderValue>, n: HeaderName) -> bool { exists|i: int| 0 <= i < vs.len() && line_names(#[trigger] vs[i]@, n) }
pub open spec fn bad_te(vs: Seq<HeaderValue>) -> bool { exists|i: int| 0 <= i < vs.len() && #[trigger] vs[i]@ != lit("trailers"@) }
pub open spec fn strips(m: Seq<Ent>, request: bool, n: HeaderName) -> bool {
    always(n) || named(hm_vals(m, CONNECTION), n) || n == TE && (!request || bad_te(hm_vals(m, TE)))
}
/// what a message sent over HTTP/2 holds of each field
pub open spec fn stripped(m: Seq<Ent>, request: bool, n: HeaderName) -> Seq<HeaderValue> { if strips(m, request, n) { Seq::empty() } else { hm_vals(m, n) } }
/// an OWS-trimmed visible member that is a name always counts
pub proof fn lemma_named(vs: Seq<HeaderValue>, i: int, j: int, n: HeaderName)
    requires 0 <= i < vs.len(), 0 <= j < members(vs[i]@).len(), allvis(members(vs[i]@)[j]), lws(trim(members(vs[i]@)[j])) == name_str(n)
    ensures named(vs, n)
{ axiom_utrim(members(vs[i]@)[j]); axiom_utf8(members(vs[i]@)[j]); assert(member_names(members(vs[i]@)[j], n)); assert(line_names(vs[i]@, n)); }
//@ source src/proto/h2/mod.rs
//@ gsubst `for header in &CONNECTION_HEADERS` => `for header in vx_keep(CONNECTION_HEADERS())`
//@ fordefault fn:VxIter::vx_iter
//@ gsubst `.any(|$y| $y != $l)` => `.vx_any_ne($l)`
//@ gsubst `.cloned().collect()` => `.vx_cloned()`
//@ gsubst `header.as_bytes().split(|b| *b == b',')` => `vx_bsplit(header.as_bytes(), b',')`
//@ gsubst `std::str::from_utf8` => `vx_from_utf8`
//@ gsubst `name.trim()` => `name.vx_trim8()`
//@ item static CONNECTION_HEADERS ensures="forall|n: HeaderName| #![trigger always(n)] #![trigger r@.contains(n)] always(n) && n != CONNECTION <==> r@.contains(n)" proof="axiom_names(KEEP_ALIVE, r[0]); axiom_names(PROXY_CONNECTION, r[1]); assert(r@[0] == KEEP_ALIVE && r@[1] == PROXY_CONNECTION && r@[2] == TRANSFER_ENCODING && r@[3] == UPGRADE); assert forall|n: HeaderName| r@.contains(n) implies always(n) && n != CONNECTION by { let i = choose|i: int| 0 <= i < r@.len() && r@[i] == n; assert(i == 0 || i == 1 || i == 2 || i == 3); }"
//@ item enum MessageKind
//@ fn strip_connection_headers attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    ensures forall|n: HeaderName| #[trigger] hm_vals(final(headers)@, n) == stripped(old(headers)@, kind is Request, n) //#C19
//@ loop 0
    invariant
        vx_it0.pos() <= vx_it0.all().len(),
        forall|n: HeaderName| #![trigger always(n)] #![trigger vx_it0.all().contains(n)] always(n) && n != CONNECTION <==> vx_it0.all().contains(n),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> vx_it0.all().contains(#[trigger] vx_it0.all()[i]) && vx_it0.all()[i] != CONNECTION,
        forall|n: HeaderName| #[trigger] hm_vals(headers@, n) == (if exists|i: int| 0 <= i < vx_it0.pos() && vx_it0.all()[i] == n { Seq::<HeaderValue>::empty() } else { hm_vals(old(headers)@, n) }),
//@ loop 1
    invariant
        vx_it1.all() =~= hm_vals(old(headers)@, CONNECTION), vx_it1.pos() <= vx_it1.all().len(),
        forall|n: HeaderName| #[trigger] hm_vals(headers@, n) == (if strips0(old(headers)@, kind is Request, n) || exists|i: int| 0 <= i < vx_it1.pos() && line_names(#[trigger] vx_it1.all()[i]@, n) { Seq::<HeaderValue>::empty() } else { hm_vals(old(headers)@, n) }),
//@ loop 2
    invariant
        vx_it2.parts() == members(header@), vx_it2.pos() <= vx_it2.parts().len(),
        forall|n: HeaderName| #[trigger] hm_vals(headers@, n) == (if strips0(old(headers)@, kind is Request, n) || (exists|i: int| 0 <= i < vx_it1.pos() - 1 && line_names(#[trigger] vx_it1.all()[i]@, n))
            || (exists|j: int| 0 <= j < vx_it2.pos() && member_names(#[trigger] vx_it2.parts()[j], n)) { Seq::<HeaderValue>::empty() } else { hm_vals(old(headers)@, n) }),
//@ end
pub open spec fn strips0(m: Seq<Ent>, request: bool, n: HeaderName) -> bool { always(n) || n == TE && (!request || bad_te(hm_vals(m, TE))) }
/// not vacuous: a second Connection line counts as much as the first
pub proof fn witness_strip(a: HeaderValue, b: HeaderValue)
    requires a@ == lit("close"@), b@ == name_str(VIA), name_str(VIA) == lit("via"@)
    ensures strips(seq![Ent { name: CONNECTION, vals: seq![a, b] }], true, VIA), !strips(seq![], false, VIA), strips(seq![], false, TE), !strips(seq![], true, TE)
{
    reveal_strlit("via");
    let m = seq![Ent { name: CONNECTION, vals: seq![a, b] }];
    assert(hm_vals(m, CONNECTION) == seq![a, b]) by { assert(m.last().name == CONNECTION); }
    let v = b@;
    assert(v.len() == 3 && v[0] == 0x76 && v[1] == 0x69 && v[2] == 0x61);
    lemma_nocomma(v);
    assert(trim(v) =~= v) by { reveal_with_fuel(trim_l, 2); reveal_with_fuel(trim_r, 2); }
    assert(lws(v) =~= v);
    assert(members(seq![a, b][1]@)[0] == v);
    lemma_named(seq![a, b], 1, 0, VIA);
    assert(hm_vals(Seq::<Ent>::empty(), CONNECTION) =~= Seq::<HeaderValue>::empty());
}
pub proof fn lemma_nocomma(v: Seq<u8>)
    requires forall|i: int| 0 <= i < v.len() ==> v[i] != 0x2c
    ensures members(v) == seq![v]
    decreases v.len()
{
    if v.len() > 0 {
        lemma_nocomma(v.drop_last());
        assert(v.drop_last().push(v.last()) =~= v);
        assert(seq![v.drop_last()].drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(members(v) =~= seq![v]);
    } else { assert(v =~= Seq::<u8>::empty()); }
}
} // verus!
fn main() {}
