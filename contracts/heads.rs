verus! {
use header::*;
// ---- http::{Version, Method, StatusCode, Uri, Extensions} (assumed contracts) ------
pub uninterp spec fn meth_of(v: Seq<u8>) -> Option<Method>;
impl StatusCode {
    #[verifier::external_body]
    pub fn from_u16(n: u16) -> (r: Result<StatusCode, Parse>) ensures match r { Ok(s) => s.n == n && 100 <= n <= 999, Err(_) => !(100 <= n <= 999) } { unimplemented!() }
}
#[verifier::external_body]
pub struct Uri { p: u8 }
pub uninterp spec fn uri_of(v: Seq<u8>) -> Option<Uri>;
#[verifier::external_body]
pub struct Extensions { p: u8 }
#[verifier::external_body]
pub struct HeaderCaseMap { p: u8 }
#[verifier::external_body]
pub struct OnInformational { p: u8 }
pub mod http {
    pub use super::{HeaderMap, Uri, Extensions, Version, Method, StatusCode};
    pub mod header { pub use super::super::header::*; pub use super::super::{HeaderValue, HeaderName, ValueIter}; }
}
pub mod ext { pub use super::{OnInformational, HeaderCaseMap}; }
pub mod headers { pub use super::{connection_close, connection_keep_alive, content_length_parse, content_length_parse_all, content_length_parse_all_values, is_chunked_, is_chunked, transfer_encoding_is_chunked, connection_any_close}; }
impl HeaderCaseMap {
    #[verifier::external_body]
    pub fn default() -> (r: HeaderCaseMap) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, n: &HeaderName, v: Bytes) { unimplemented!() }
}
impl Extensions {
    #[verifier::external_body]
    pub fn default() -> (r: Extensions) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<T>(&mut self, t: T) { unimplemented!() }
}
// ---- header names and values as octets --------------------------------------------
/// the name an octet sequence spells (case folded), if it is one
pub uninterp spec fn canon(v: Seq<u8>) -> Option<HeaderName>;
/// the value made of an octet sequence
pub uninterp spec fn hv_of(v: Seq<u8>) -> HeaderValue;
#[verifier::external_body]
pub proof fn axiom_hv(v: Seq<u8>) ensures hv_of(v)@ == v {}
/// `header_name!(&b[a..z])`
#[verifier::external_body]
pub fn vx_name(b: &Bytes, a: usize, z: usize) -> (r: HeaderName)
    requires a <= z <= b@.len(), canon(b@.subrange(a as int, z as int)) is Some
    ensures r == canon(b@.subrange(a as int, z as int))->0 { unimplemented!() }
/// `header_value!(b.slice(a..z))`
#[verifier::external_body]
pub fn vx_value(b: &Bytes, a: usize, z: usize) -> (r: HeaderValue)
    requires a <= z <= b@.len()
    ensures r == hv_of(b@.subrange(a as int, z as int)), r@ == b@.subrange(a as int, z as int) { unimplemented!() }
/// `b.slice(a..z)`, `b.slice_ref(&b[a..z])`
#[verifier::external_body]
pub fn vx_bslice(b: &Bytes, a: usize, z: usize) -> (r: Bytes)
    requires a <= z <= b@.len() ensures r@ == b@.subrange(a as int, z as int) { unimplemented!() }
impl HeaderValue {
    /// `.as_bytes().eq_ignore_ascii_case(..)`
    #[verifier::external_body]
    pub fn vx_is_ic(&self, o: &[u8]) -> (r: bool) ensures r == (lws(self@) == lws(o@)) { unimplemented!() }
}
impl Uri {
    #[verifier::external_body]
    pub fn from_maybe_shared(b: Bytes) -> (r: Result<Uri, Parse>)
        ensures match r { Ok(u) => uri_of(b@) == Some(u), Err(_) => uri_of(b@) is None } { unimplemented!() }
}
impl Method {
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<Method, Parse>)
        ensures match r { Ok(m) => meth_of(b@) == Some(m), Err(_) => meth_of(b@) is None } { unimplemented!() }
}
/// `cached.take().unwrap_or_default()`
pub fn vx_cached(c: &mut Option<HeaderMap>) -> (r: HeaderMap)
    ensures *final(c) is None, r@ == (if *old(c) is Some { (*old(c))->0@ } else { Seq::<Ent>::empty() })
{ match c.take() { Some(h) => h, None => HeaderMap::new() } }
pub open spec fn no_cached(c: Option<HeaderMap>) -> bool { c is Some ==> c->0@ == Seq::<Ent>::empty() }
pub proof fn lemma_hm_none(m: Seq<Ent>, n: HeaderName) ensures hm_has(m, n) || hm_vals(m, n) == Seq::<HeaderValue>::empty() decreases m.len()
{ if m.len() > 0 { lemma_hm_none(m.drop_last(), n);
    if hm_has(m.drop_last(), n) { let i = choose|i: int| 0 <= i < m.drop_last().len() && m.drop_last()[i].name == n; assert(m[i].name == n); }
    if m.last().name == n { assert(m[m.len() - 1].name == n); } } }
/// appending a line adds its value to its name and touches no other
pub proof fn lemma_hm_append(m: Seq<Ent>, n: HeaderName, v: HeaderValue, x: HeaderName)
    ensures hm_vals(hm_append(m, n, v), x) == (if x == n { hm_vals(m, x).push(v) } else { hm_vals(m, x) })
    decreases m.len()
{
    if m.len() == 0 {
        let e = seq![Ent { name: n, vals: seq![v] }];
        assert(e.drop_last() =~= Seq::<Ent>::empty());
        assert(hm_append(m, n, v) == e && e.last() == e[0] && e.len() == 1);
        assert(hm_vals(e.drop_last(), x) == Seq::<HeaderValue>::empty());
        assert(hm_vals(m, x) == Seq::<HeaderValue>::empty());
        assert(seq![v] =~= Seq::<HeaderValue>::empty().push(v));
    } else if m.last().name == n {
        let a = hm_append(m, n, v);
        assert(a == m.drop_last().push(Ent { name: n, vals: m.last().vals.push(v) }));
        assert(a.last().name == n && a.last().vals == m.last().vals.push(v));
        assert(a.drop_last() =~= m.drop_last());
    } else if hm_has(m.drop_last(), n) {
        lemma_hm_append(m.drop_last(), n, v, x);
        assert(hm_append(m, n, v).drop_last() =~= hm_append(m.drop_last(), n, v));
        assert(hm_append(m, n, v).last() == m.last());
    } else {
        lemma_hm_none(m.drop_last(), n);
        assert(hm_append(m, n, v).drop_last() =~= m);
        assert(hm_append(m, n, v).last() == Ent { name: n, vals: seq![v] });
        assert(seq![v] =~= Seq::<HeaderValue>::empty().push(v));
    }
}
// ---- field lines in the order received ----------------------------------------------
pub type Lines = Seq<(HeaderName, HeaderValue)>;
pub open spec fn vals_of(l: Lines, n: HeaderName) -> Seq<HeaderValue> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.last().0 == n { vals_of(l.drop_last(), n).push(l.last().1) } else { vals_of(l.drop_last(), n) }
}
pub proof fn lemma_vals_prefix(l: Lines, k: int, n: HeaderName)
    requires 0 <= k <= l.len()
    ensures vals_of(l.take(k), n).len() <= vals_of(l, n).len(), vals_of(l.take(k), n) == vals_of(l, n).take(vals_of(l.take(k), n).len() as int)
    decreases l.len() - k
{
    if k == l.len() { assert(l.take(k) =~= l); assert(vals_of(l, n) =~= vals_of(l, n).take(vals_of(l, n).len() as int)); }
    else {
        lemma_vals_prefix(l, k + 1, n);
        assert(l.take(k + 1).drop_last() =~= l.take(k));
        assert(l.take(k + 1).last() == l[k]);
        let a = vals_of(l.take(k), n);
        let b = vals_of(l.take(k + 1), n);
        assert(a =~= b.take(a.len() as int));
        assert(b.take(a.len() as int) =~= vals_of(l, n).take(a.len() as int));
    }
}
// ---- httparse (assumed contract: a head is a function of the octets; what it reports
// ---- lies within them) -----------------------------------------------------------------
pub ghost struct HPos { pub n0: int, pub n1: int, pub v0: int, pub v1: int }
pub ghost struct RawHead { pub len: int, pub v11: bool, pub hdrs: Seq<HPos>, pub method: Seq<u8>, pub p0: int, pub p1: int, pub code: u16 }
pub ghost enum RawOut { Done(RawHead), Part, Bad(HpError) }
pub uninterp spec fn raw_req(cfg: ParserConfig, b: Seq<u8>, cap: nat) -> RawOut;
pub uninterp spec fn raw_resp(cfg: ParserConfig, b: Seq<u8>, cap: nat) -> RawOut;
pub open spec fn pos_ok(p: HPos, b: Seq<u8>, len: int) -> bool {
    &&& 0 <= p.n0 <= p.n1 <= len && 0 <= p.v0 <= p.v1 <= len
    &&& p.n1 - p.n0 < 0x10000 ==> canon(b.subrange(p.n0, p.n1)) is Some
}
#[verifier::opaque]
pub open spec fn raw_ok(o: RawOut, b: Seq<u8>, cap: nat) -> bool {
    o is Done ==> {
        let h = o->Done_0;
        &&& 0 < h.len <= b.len() && h.hdrs.len() <= cap && 0 <= h.p0 <= h.p1 <= h.len
        &&& forall|i: int| 0 <= i < h.hdrs.len() ==> pos_ok(#[trigger] h.hdrs[i], b, h.len)
    }
}
pub open spec fn names_ok(h: RawHead) -> bool { short(h.hdrs, h.hdrs.len() as int) }
pub open spec fn line_at(b: Seq<u8>, p: HPos) -> (HeaderName, HeaderValue) { (canon(b.subrange(p.n0, p.n1))->0, hv_of(b.subrange(p.v0, p.v1))) }
pub open spec fn lines(b: Seq<u8>, hdrs: Seq<HPos>) -> Lines { Seq::new(hdrs.len(), |i: int| line_at(b, hdrs[i])) }
#[verifier::external_body]
pub struct ParserConfig { p: u8 }
/// where a slice lies in memory
pub uninterp spec fn saddr(s: &[u8]) -> int;
pub uninterp spec fn taddr(s: &VStr) -> int;
pub trait VxAddr { spec fn addr(&self) -> int; fn vx_addr(&self) -> (r: usize) ensures r == self.addr(); }
impl VxAddr for [u8] { open spec fn addr(&self) -> int { saddr(self) }
    #[verifier::external_body]
    fn vx_addr(&self) -> (r: usize) { unimplemented!() } }
impl VxAddr for VStr { open spec fn addr(&self) -> int { taddr(self) }
    #[verifier::external_body]
    fn vx_addr(&self) -> (r: usize) { unimplemented!() } }
impl VStr {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum HpError { HeaderName, HeaderValue, NewLine, Status, Token, TooManyHeaders, Version }
pub mod httparse {
    use vstd::prelude::*;
    use super::*;
    pub use super::HpError as Error;
    pub enum Status<T> { Complete(T), Partial }
    pub struct Header<'a> { pub name: &'a VStr, pub value: &'a [u8] }
    pub struct Request<'a> { pub method: Option<&'a VStr>, pub path: Option<&'a VStr>, pub version: Option<u8>, pub headers: &'a [Header<'a>] }
    pub struct Response<'a> { pub version: Option<u8>, pub code: Option<u16>, pub reason: Option<&'a VStr>, pub headers: &'a [Header<'a>] }
    #[verifier::external_body]
    pub fn vx_no_headers<'a>() -> (r: &'a [Header<'a>]) { unimplemented!() }
    impl<'a> Request<'a> { pub fn vx_new() -> (r: Request<'a>) { Request { method: None, path: None, version: None, headers: vx_no_headers() } } }
    impl<'a> Response<'a> { pub fn vx_new() -> (r: Response<'a>) { Response { version: None, code: None, reason: None, headers: vx_no_headers() } } }
    /// header i lies at position p of the octets
    pub open spec fn lies(h: Header<'_>, b: &[u8], p: HPos) -> bool {
        &&& taddr(h.name) == saddr(b) + p.n0 && h.name@ == b@.subrange(p.n0, p.n1)
        &&& saddr(h.value) == saddr(b) + p.v0 && h.value@ == b@.subrange(p.v0, p.v1)
    }
    pub open spec fn all_lie(hs: Seq<Header<'_>>, b: &[u8], ps: Seq<HPos>) -> bool { hs.len() == ps.len() && forall|i: int| 0 <= i < hs.len() ==> lies(#[trigger] hs[i], b, ps[i]) }
}
impl ParserConfig {
    #[verifier::external_body]
    pub fn parse_request_with_uninit_headers<'b>(&self, req: &mut httparse::Request<'b>, b: &'b [u8], headers: &'b mut VxHdrs<'b>) -> (r: Result<httparse::Status<usize>, httparse::Error>)
        ensures raw_ok(raw_req(*self, b@, old(headers).cap()), b@, old(headers).cap()),
            match r {
                Ok(httparse::Status::Complete(n)) => raw_req(*self, b@, old(headers).cap()) is Done && {
                    let h = raw_req(*self, b@, old(headers).cap())->Done_0;
                    &&& n == h.len && final(req).method is Some && final(req).method->0@ == h.method && final(req).version == Some(if h.v11 { 1u8 } else { 0u8 })
                    &&& final(req).path is Some && final(req).path->0@ == b@.subrange(h.p0, h.p1) && taddr(final(req).path->0) == saddr(b) + h.p0
                    &&& httparse::all_lie(final(req).headers@, b, h.hdrs)
                },
                Ok(httparse::Status::Partial) => raw_req(*self, b@, old(headers).cap()) is Part,
                Err(e) => raw_req(*self, b@, old(headers).cap()) == RawOut::Bad(e) && (e == httparse::Error::Token && final(req).method is Some ==> final(req).path is None),
            } { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_response_with_uninit_headers<'b>(&self, res: &mut httparse::Response<'b>, b: &'b [u8], headers: &'b mut VxHdrs<'b>) -> (r: Result<httparse::Status<usize>, httparse::Error>)
        ensures raw_ok(raw_resp(*self, b@, old(headers).cap()), b@, old(headers).cap()),
            match r {
                Ok(httparse::Status::Complete(n)) => raw_resp(*self, b@, old(headers).cap()) is Done && {
                    let h = raw_resp(*self, b@, old(headers).cap())->Done_0;
                    &&& n == h.len && final(res).code == Some(h.code) && final(res).reason is Some && final(res).version == Some(if h.v11 { 1u8 } else { 0u8 })
                    &&& httparse::all_lie(final(res).headers@, b, h.hdrs)
                },
                Ok(httparse::Status::Partial) => raw_resp(*self, b@, old(headers).cap()) is Part,
                Err(e) => raw_resp(*self, b@, old(headers).cap()) == RawOut::Bad(e),
            } { unimplemented!() }
    pub uninterp spec fn folds(&self) -> bool;
    #[verifier::external_body]
    pub fn obsolete_multiline_headers_in_responses_are_allowed(&self) -> (r: bool) ensures r == self.folds() { unimplemented!() }
}
/// `Parse::from(httparse::Error)`
#[verifier::external_body]
pub fn vx_perr(e: httparse::Error) -> (r: Parse) { unimplemented!() }
// ---- uninitialized tables -----------------------------------------------------------------
#[verifier::external_body]
pub struct VxHdrs<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> VxHdrs<'a> { pub uninterp spec fn cap(&self) -> nat; }
pub struct VxIdx { pub v: Vec<Option<HeaderIndices>> }
impl VxIdx {
    pub open spec fn cap(&self) -> nat { self.v@.len() }
    pub open spec fn view(&self) -> Seq<Option<HeaderIndices>> { self.v@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
}
pub trait VxUninit: Sized { spec fn ucap(&self) -> nat; fn vx_uninit(n: usize) -> (r: Self) ensures r.ucap() == n; }
impl VxUninit for VxIdx { open spec fn ucap(&self) -> nat { self.cap() }
    #[verifier::external_body]
    fn vx_uninit(n: usize) -> (r: Self) { unimplemented!() } }
impl<'a> VxUninit for VxHdrs<'a> { open spec fn ucap(&self) -> nat { self.cap() }
    #[verifier::external_body]
    fn vx_uninit(n: usize) -> (r: Self) { unimplemented!() } }
/// `indices.write(v)` of the i-th slot
pub fn vx_put(t: &mut VxIdx, i: usize, v: HeaderIndices)
    requires i < old(t)@.len()
    ensures final(t)@ == old(t)@.update(i as int, Some(v))
{ t.v.set(i, Some(v)); }
pub fn vx_least(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
/// `&t[..n]`, every slot of which has been written (what `assume_init_ref` needs)
#[verifier::opaque]
pub open spec fn inited(t: Seq<Option<HeaderIndices>>, n: int) -> bool { n <= t.len() && forall|i: int| 0 <= i < n ==> #[trigger] t[i] is Some }
#[verifier::opaque]
pub open spec fn at(t: Seq<Option<HeaderIndices>>, p: Seq<HPos>) -> bool {
    &&& inited(t, p.len() as int)
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] t[i] is Some && t[i]->0.name.0 == p[i].n0 && t[i]->0.name.1 == p[i].n1 && t[i]->0.value.0 == p[i].v0 && t[i]->0.value.1 == p[i].v1
}
pub struct IdxIt<'a> { pub t: &'a VxIdx, pub i: usize, pub n: usize }
pub fn vx_first<'a>(t: &'a VxIdx, n: usize) -> (r: IdxIt<'a>)
    requires inited(t@, n as int)
    ensures r.t@ == t@, r.i == 0, r.n == n
{ IdxIt { t, i: 0, n } }
impl<'a> IdxIt<'a> {
    pub fn next(&mut self) -> (r: Option<&'a HeaderIndices>)
        requires inited(old(self).t@, old(self).n as int)
        ensures final(self).t == old(self).t, final(self).n == old(self).n, match r {
            None => old(self).i >= old(self).n && final(self).i == old(self).i,
            Some(h) => old(self).i < old(self).n && final(self).i == old(self).i + 1 && *h == old(self).t@[old(self).i as int]->0,
        }
    { proof { reveal(inited); } if self.i < self.n { self.i = self.i + 1; self.t.v[self.i - 1].as_ref() } else { None } }
}
/// `headers.iter().zip(indices.iter_mut())`: the header and the index of the slot
pub struct ZipIt<'a, 'b> { pub h: &'a [httparse::Header<'b>], pub i: usize, pub n: usize }
pub fn vx_zip<'a, 'b>(h: &'a [httparse::Header<'b>], n: usize) -> (r: ZipIt<'a, 'b>) ensures r.h@ == h@, r.i == 0, r.n == (if h@.len() <= n { h@.len() as usize } else { n }) { ZipIt { h, i: 0, n: vx_least(h.len(), n) } }
impl<'a, 'b> ZipIt<'a, 'b> {
    pub fn next(&mut self) -> (r: Option<(&'a httparse::Header<'b>, usize)>)
        requires old(self).n <= old(self).h@.len()
        ensures final(self).h == old(self).h, final(self).n == old(self).n, match r {
            None => old(self).i >= old(self).n && final(self).i == old(self).i,
            Some((h, k)) => old(self).i < old(self).n && final(self).i == old(self).i + 1 && k == old(self).i && *h == old(self).h@[k as int],
        }
    { if self.i < self.n { self.i = self.i + 1; Some((&self.h[self.i - 1], self.i - 1)) } else { None } }
}
impl<'a, 'b> VxIter for ZipIt<'a, 'b> { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }
impl<'a> VxIter for IdxIt<'a> { type It = Self; fn vx_iter(self) -> (r: Self) ensures r == self { self } }
#[verifier::opaque]
pub open spec fn placed(hs: Seq<httparse::Header<'_>>, b: &[u8], p: Seq<HPos>) -> bool {
    httparse::all_lie(hs, b, p) && forall|i: int| 0 <= i < p.len() ==> pos_ok(#[trigger] p[i], b@, b@.len() as int)
}
#[verifier::opaque]
pub open spec fn short(p: Seq<HPos>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] p[i]).n1 - p[i].n0 < 0x10000 }
pub proof fn lemma_raw(o: RawOut, b: Seq<u8>, cap: nat)
    requires raw_ok(o, b, cap), o is Done
    ensures 0 < o->Done_0.len <= b.len(), o->Done_0.hdrs.len() <= cap, 0 <= o->Done_0.p0 <= o->Done_0.p1 <= o->Done_0.len
{ reveal(raw_ok); }
pub proof fn lemma_place(o: RawOut, bytes: &[u8], cap: nat, hs: Seq<httparse::Header<'_>>)
    requires raw_ok(o, bytes@, cap), o is Done, httparse::all_lie(hs, bytes, o->Done_0.hdrs)
    ensures placed(hs, bytes, o->Done_0.hdrs)
{ reveal(raw_ok); reveal(placed);
  let h = o->Done_0;
  assert forall|i: int| 0 <= i < h.hdrs.len() implies pos_ok(#[trigger] h.hdrs[i], bytes@, bytes@.len() as int) by { assert(pos_ok(h.hdrs[i], bytes@, h.len)); } }
pub proof fn lemma_at(t: Seq<Option<HeaderIndices>>, p: Seq<HPos>)
    requires at(t, p) ensures inited(t, p.len() as int)
{ reveal(at); }
/// what the k-th slot says of the octets of the head
pub proof fn lemma_hdr(o: RawOut, b: Seq<u8>, cap: nat, t: Seq<Option<HeaderIndices>>, k: int)
    requires raw_ok(o, b, cap), o is Done, names_ok(o->Done_0), at(t, o->Done_0.hdrs), 0 <= k < o->Done_0.hdrs.len()
    ensures ({
        let h = o->Done_0;
        let p = h.hdrs[k];
        &&& t[k] is Some && t[k]->0.name.0 == p.n0 && t[k]->0.name.1 == p.n1 && t[k]->0.value.0 == p.v0 && t[k]->0.value.1 == p.v1
        &&& 0 <= p.n0 <= p.n1 <= h.len && 0 <= p.v0 <= p.v1 <= h.len && canon(b.subrange(p.n0, p.n1)) is Some
        &&& b.take(h.len).subrange(p.n0, p.n1) == b.subrange(p.n0, p.n1) && b.take(h.len).subrange(p.v0, p.v1) == b.subrange(p.v0, p.v1)
    })
{ reveal(raw_ok); reveal(at); reveal(short);
  let h = o->Done_0; let p = h.hdrs[k];
  assert(pos_ok(p, b, h.len));
  assert(b.take(h.len).subrange(p.n0, p.n1) =~= b.subrange(p.n0, p.n1)); assert(b.take(h.len).subrange(p.v0, p.v1) =~= b.subrange(p.v0, p.v1)); }
//@ source src/proto/h1/role.rs
//@ gsubst `$x.as_ptr() as usize` => `$x.vx_addr()`
//@ gsubst `for (header, indices) in headers.iter().zip(indices.iter_mut())` => `for (header, vx_i) in vx_zip(headers, indices.len())`
//@ gsubst `indices.write(HeaderIndices { $f });` => `vx_put(indices, vx_i, HeaderIndices { $f });`
//@ gsubst `indices: &mut [MaybeUninit<HeaderIndices>]` => `indices: &mut VxIdx`
//@ gsubst `req_path: &str` => `req_path: &VStr`
//@ gsubst `SmallVec<[MaybeUninit<HeaderIndices>; DEFAULT_MAX_HEADERS]>` => `VxIdx`
//@ gsubst `SmallVec<[MaybeUninit<httparse::Header<'_>>; DEFAULT_MAX_HEADERS]>` => `VxHdrs`
//@ gsubst `SmallVec<[MaybeUninit<httparse::Header<'_>>; DEFAULT_MAX_HEADERS],>` => `VxHdrs`
//@ gsubst `smallvec![MaybeUninit::uninit(); $n]` => `VxUninit::vx_uninit($n)`
//@ gsubst `smallvec_inline![MaybeUninit::uninit(); $n]` => `VxUninit::vx_uninit($n)`
//@ gsubst `httparse::Request::new(&mut [])` => `httparse::Request::vx_new()`
//@ gsubst `httparse::Response::new(&mut [])` => `httparse::Response::vx_new()`
//@ gsubst `return Err(err.into())` => `return Err(vx_perr(err))`
//@ gsubst `return Err(e.into())` => `return Err(vx_perr(e))`
//@ gsubst `$x.slice_ref(&$y[$r])` => `vx_bslice(&$x, $r.start, $r.end)`
//@ gsubst `header_name!(&$x[$a..$b])` => `vx_name(&$x, $a, $b)`
//@ gsubst `header_value!($x.slice($a..$b))` => `vx_value(&$x, $a, $b)`
//@ gsubst `$x.slice($a..$b)` => `vx_bslice(&$x, $a, $b)`
//@ gsubst `&headers_indices[..headers_len]` => `vx_first(&headers_indices, headers_len)`
//@ gsubst `unsafe { header.assume_init_ref() }` => `header`
//@ gsubst `ctx.cached_headers.take().unwrap_or_default()` => `vx_cached(ctx.cached_headers)`
//@ gsubst `headers.append(name, value)` => `headers.append(&name, value)`
//@ gsubst `.as_bytes().eq_ignore_ascii_case($x)` => `.vx_is_ic($x)`
//@ gsubst `.ok_or_else(Parse::content_length_invalid)` => `.ok_or(Parse::content_length_invalid())`
//@ item const DEFAULT_MAX_HEADERS
//@ item const MAX_URI_LEN
//@ item struct HeaderIndices derive="Clone, Copy"
//@ fn record_header_indices attr="exec_allows_no_decreases_clause;loop_isolation(false)"
    requires headers@.len() <= old(indices)@.len(), exists|p: Seq<HPos>| #[trigger] placed(headers@, bytes, p)
    ensures
        final(indices)@.len() == old(indices)@.len(),
        forall|p: Seq<HPos>| #[trigger] placed(headers@, bytes, p) ==> (match r {
            Ok(_) => at(final(indices)@, p) && short(p, p.len() as int),
            Err(_) => !short(p, p.len() as int),
        })
//@ ghost start
proof { reveal(placed); reveal(short); reveal(at); reveal(inited); }
//@ ghost before `return Err(crate::error::Parse::TooLarge)`
proof { assert forall|p: Seq<HPos>| #[trigger] placed(headers@, bytes, p) implies !short(p, p.len() as int) by { assert(httparse::lies(headers@[vx_i as int], bytes, p[vx_i as int])); } }
//@ loop 0
    invariant
        vx_it0.h@ == headers@, vx_it0.n == headers@.len(), vx_it0.i <= vx_it0.n, indices@.len() == old(indices)@.len(), headers@.len() <= indices@.len(),
        bytes_ptr == saddr(bytes),
        forall|p: Seq<HPos>| #[trigger] placed(headers@, bytes, p) ==> at(indices@, p.take(vx_it0.i as int)) && short(p, vx_it0.i as int),
//@ ghost loop 0 start
let ghost p0 = choose|p: Seq<HPos>| placed(headers@, bytes, p);
proof { let _ = vstd::slice::spec_slice_len(bytes); assert(1usize << 16 == 0x10000usize) by (bit_vector); assert(httparse::lies(headers@[vx_i as int], bytes, p0[vx_i as int])); assert(pos_ok(p0[vx_i as int], bytes@, bytes@.len() as int)); }
//@ end
//@ source src/proto/mod.rs
//@ item struct MessageHead
//@ item struct RequestLine
//@ source src/proto/h1/mod.rs
//@ item struct ParsedMessage
//@ item struct ParseContext
//@ item type ParseResult
//@ end
/// how many header fields are accepted
pub open spec fn hcap(c: Option<usize>) -> nat { match c { Some(n) => n as nat, None => 100 } }
pub open spec fn te_of(l: Lines) -> Seq<HeaderValue> { vals_of(l, TRANSFER_ENCODING) }
pub open spec fn cl_of(l: Lines) -> Seq<HeaderValue> { vals_of(l, CONTENT_LENGTH) }
/// neither end asked to close, and the version persists by default or on request
pub open spec fn persists(v11: bool, l: Lines) -> bool {
    !any_tok(vals_of(l, CONNECTION), t_close()) && (v11 || any_tok(vals_of(l, CONNECTION), t_keep()))
}
pub proof fn lemma_any_push(vs: Seq<HeaderValue>, v: HeaderValue, t: Seq<u8>)
    ensures any_tok(vs.push(v), t) == (any_tok(vs, t) || has_tok(v@, t))
{
    let w = vs.push(v);
    if any_tok(vs, t) { let i = choose|i: int| 0 <= i < vs.len() && has_tok(#[trigger] vs[i]@, t); assert(has_tok(w[i]@, t)); }
    if has_tok(v@, t) { assert(has_tok(w[vs.len() as int]@, t)); }
    if any_tok(w, t) { let i = choose|i: int| 0 <= i < w.len() && has_tok(#[trigger] w[i]@, t); if i < vs.len() { assert(has_tok(vs[i]@, t)); } }
}
} // verus!
