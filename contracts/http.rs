verus! {
// ---- http::HeaderName / HeaderValue / HeaderMap (assumed contracts) -------
/// A header name, canonical (case-folded). `id` stands for the string: equal
/// ids are equal names.
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct HeaderName { pub id: u64 }
pub mod header {
    use super::*;
    pub const ACCEPT: HeaderName = HeaderName { id: 1 };
    pub const ACCEPT_CHARSET: HeaderName = HeaderName { id: 2 };
    pub const ACCEPT_ENCODING: HeaderName = HeaderName { id: 3 };
    pub const ACCEPT_LANGUAGE: HeaderName = HeaderName { id: 4 };
    pub const ACCEPT_RANGES: HeaderName = HeaderName { id: 5 };
    pub const AGE: HeaderName = HeaderName { id: 6 };
    pub const ALLOW: HeaderName = HeaderName { id: 7 };
    pub const AUTHORIZATION: HeaderName = HeaderName { id: 8 };
    pub const CACHE_CONTROL: HeaderName = HeaderName { id: 9 };
    pub const CONNECTION: HeaderName = HeaderName { id: 10 };
    pub const CONTENT_DISPOSITION: HeaderName = HeaderName { id: 11 };
    pub const CONTENT_ENCODING: HeaderName = HeaderName { id: 12 };
    pub const CONTENT_LANGUAGE: HeaderName = HeaderName { id: 13 };
    pub const CONTENT_LENGTH: HeaderName = HeaderName { id: 14 };
    pub const CONTENT_LOCATION: HeaderName = HeaderName { id: 15 };
    pub const CONTENT_RANGE: HeaderName = HeaderName { id: 16 };
    pub const CONTENT_TYPE: HeaderName = HeaderName { id: 17 };
    pub const COOKIE: HeaderName = HeaderName { id: 18 };
    pub const DATE: HeaderName = HeaderName { id: 19 };
    pub const ETAG: HeaderName = HeaderName { id: 20 };
    pub const EXPECT: HeaderName = HeaderName { id: 21 };
    pub const EXPIRES: HeaderName = HeaderName { id: 22 };
    pub const FORWARDED: HeaderName = HeaderName { id: 23 };
    pub const FROM: HeaderName = HeaderName { id: 24 };
    pub const HOST: HeaderName = HeaderName { id: 25 };
    pub const IF_MATCH: HeaderName = HeaderName { id: 26 };
    pub const IF_MODIFIED_SINCE: HeaderName = HeaderName { id: 27 };
    pub const IF_NONE_MATCH: HeaderName = HeaderName { id: 28 };
    pub const IF_RANGE: HeaderName = HeaderName { id: 29 };
    pub const IF_UNMODIFIED_SINCE: HeaderName = HeaderName { id: 30 };
    pub const LAST_MODIFIED: HeaderName = HeaderName { id: 31 };
    pub const LINK: HeaderName = HeaderName { id: 32 };
    pub const LOCATION: HeaderName = HeaderName { id: 33 };
    pub const MAX_FORWARDS: HeaderName = HeaderName { id: 34 };
    pub const ORIGIN: HeaderName = HeaderName { id: 35 };
    pub const PRAGMA: HeaderName = HeaderName { id: 36 };
    pub const PROXY_AUTHENTICATE: HeaderName = HeaderName { id: 37 };
    pub const PROXY_AUTHORIZATION: HeaderName = HeaderName { id: 38 };
    pub const RANGE: HeaderName = HeaderName { id: 39 };
    pub const REFERER: HeaderName = HeaderName { id: 40 };
    pub const RETRY_AFTER: HeaderName = HeaderName { id: 41 };
    pub const SERVER: HeaderName = HeaderName { id: 42 };
    pub const SET_COOKIE: HeaderName = HeaderName { id: 43 };
    pub const STRICT_TRANSPORT_SECURITY: HeaderName = HeaderName { id: 44 };
    pub const TE: HeaderName = HeaderName { id: 45 };
    pub const TRAILER: HeaderName = HeaderName { id: 46 };
    pub const TRANSFER_ENCODING: HeaderName = HeaderName { id: 47 };
    pub const UPGRADE: HeaderName = HeaderName { id: 48 };
    pub const USER_AGENT: HeaderName = HeaderName { id: 49 };
    pub const VARY: HeaderName = HeaderName { id: 50 };
    pub const VIA: HeaderName = HeaderName { id: 51 };
    pub const WARNING: HeaderName = HeaderName { id: 52 };
    pub const WWW_AUTHENTICATE: HeaderName = HeaderName { id: 53 };
    pub const KEEP_ALIVE: HeaderName = HeaderName { id: 54 };
    pub const PROXY_CONNECTION: HeaderName = HeaderName { id: 55 };
}
/// the name's octets (lower case)
pub uninterp spec fn name_str(n: HeaderName) -> Seq<u8>;
#[verifier::external_body]
pub struct VStr { v: Vec<u8> }
impl View for VStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VStr {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl HeaderName {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &VStr) ensures r@ == name_str(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct HeaderValue { v: Vec<u8> }
impl View for HeaderValue { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl HeaderValue {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
}
/// One name with all its values, in order; names are distinct; the order of
/// entries is iteration order.
pub struct Ent { pub name: HeaderName, pub vals: Seq<HeaderValue> }
#[verifier::external_body]
pub struct HeaderMap { p: u8 }
impl View for HeaderMap { type V = Seq<Ent>; uninterp spec fn view(&self) -> Seq<Ent>; }
pub open spec fn hm_has(m: Seq<Ent>, n: HeaderName) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).name == n }
pub open spec fn hm_append(m: Seq<Ent>, n: HeaderName, v: HeaderValue) -> Seq<Ent>
    decreases m.len()
{
    if m.len() == 0 { seq![Ent { name: n, vals: seq![v] }] }
    else if m.last().name == n { m.drop_last().push(Ent { name: n, vals: m.last().vals.push(v) }) }
    else { if hm_has(m.drop_last(), n) { hm_append(m.drop_last(), n, v).push(m.last()) } else { m.push(Ent { name: n, vals: seq![v] }) } }
}
pub open spec fn hm_wf(m: Seq<Ent>) -> bool {
    &&& forall|i: int, j: int| #![auto] 0 <= i < j < m.len() ==> m[i].name != m[j].name
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).vals.len() > 0
}
/// all (name, value) lines in iteration order
pub open spec fn hm_lines(m: Seq<Ent>) -> Seq<(HeaderName, HeaderValue)> 
    decreases m.len()
{
    if m.len() == 0 { Seq::empty() } else { hm_lines(m.drop_last()) + ent_lines(m.last()) }
}
pub open spec fn ent_lines(e: Ent) -> Seq<(HeaderName, HeaderValue)> { Seq::new(e.vals.len(), |i: int| (e.name, e.vals[i])) }
impl HeaderMap {
    #[verifier::external_body]
    pub fn new() -> (r: HeaderMap) ensures r@ == Seq::<Ent>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, n: &HeaderName, v: HeaderValue) -> (r: bool)
        ensures final(self)@ == hm_append(old(self)@, *n, v) { unimplemented!() }
    /// by-value iteration: the name is given with the first value only
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: HmIntoIter)
        ensures r.lines() == hm_lines(self@), r.pos() == 0, hm_wf(self@) { unimplemented!() }
}
impl HeaderMap {
    /// by-reference iteration, one item per line
    #[verifier::external_body]
    pub fn iter(&self) -> (r: HmIter)
        ensures r.lines() == hm_lines(self@), r.pos() == 0, hm_wf(self@) { unimplemented!() }
}
#[verifier::external_body]
pub struct HmIter<'a> { p: &'a u8 }
impl<'a> HmIter<'a> {
    pub uninterp spec fn lines(&self) -> Seq<(HeaderName, HeaderValue)>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a HeaderName, &'a HeaderValue)>)
        ensures final(self).lines() == old(self).lines(), match r {
            None => old(self).pos() >= old(self).lines().len() && final(self).pos() == old(self).pos(),
            Some((n, v)) => old(self).pos() < old(self).lines().len() && final(self).pos() == old(self).pos() + 1
                && *v == old(self).lines()[old(self).pos() as int].1 && *n == old(self).lines()[old(self).pos() as int].0,
        } { unimplemented!() }
}
#[verifier::external_body]
pub struct HmIntoIter { p: u8 }
impl HmIntoIter {
    pub uninterp spec fn lines(&self) -> Seq<(HeaderName, HeaderValue)>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Option<HeaderName>, HeaderValue)>)
        ensures final(self).lines() == old(self).lines(), match r {
            None => old(self).pos() >= old(self).lines().len() && final(self).pos() == old(self).pos(),
            Some((on, v)) => old(self).pos() < old(self).lines().len() && final(self).pos() == old(self).pos() + 1
                && v == old(self).lines()[old(self).pos() as int].1
                && match on {
                    Some(n) => n == old(self).lines()[old(self).pos() as int].0,
                    None => old(self).pos() > 0 && old(self).lines()[old(self).pos() as int].0 == old(self).lines()[old(self).pos() - 1].0,
                },
        } { unimplemented!() }
}
} // verus!
