//@ include prelude.rs
verus! {
// ---- specification: RFC 9112 section 4, reason-phrase ----------------------
pub open spec fn reason_octet(b: u8) -> bool { b == 0x09 || b == 0x20 || 0x21 <= b <= 0x7e || 0x80 <= b }
pub open spec fn reason_ok(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> reason_octet(#[trigger] s[i]) }
/// a phrase that satisfies the rule holds no octet that ends or splits a line
pub proof fn lemma_one_line(s: Seq<u8>)
    requires reason_ok(s)
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x0d && s[i] != 0x0a && s[i] != 0
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 0x0d && s[i] != 0x0a && s[i] != 0 by { assert(reason_octet(s[i])); } }
pub proof fn witness_reason()
    ensures reason_ok(seq![0x4fu8, 0x4b]), reason_ok(seq![]), !reason_ok(seq![0x4fu8, 0x0a]), !reason_ok(seq![0x7fu8]), reason_ok(seq![0xffu8, 0x80, 0x09])
{ assert(!reason_octet(seq![0x4fu8, 0x0a][1])); assert(!reason_octet(seq![0x7fu8][0])); }
/// std::convert::TryFrom with the value it converts
pub trait OctetSrc { spec fn octs(&self) -> Seq<u8>; }
impl OctetSrc for &[u8] { open spec fn octs(&self) -> Seq<u8> { self@ } }
impl OctetSrc for Vec<u8> { open spec fn octs(&self) -> Seq<u8> { self@ } }
impl OctetSrc for Bytes { open spec fn octs(&self) -> Seq<u8> { self@ } }
/// std::string::String: its UTF-8 octets
#[verifier::external_body]
pub struct String { s: std::string::String }
impl String {
    pub uninterp spec fn utf8(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.utf8() { unimplemented!() }
}
impl OctetSrc for String { open spec fn octs(&self) -> Seq<u8> { self.utf8() } }
pub trait IntoOctets { spec fn iocts(&self) -> Seq<u8>; }
impl IntoOctets for Vec<u8> { open spec fn iocts(&self) -> Seq<u8> { self@ } }
impl IntoOctets for String { open spec fn iocts(&self) -> Seq<u8> { self.utf8() } }
#[verifier::external_body]
pub fn bytes_of<T: IntoOctets>(t: T) -> (r: Bytes) ensures r@ == t.iocts() { unimplemented!() }
pub trait TryOf<T: OctetSrc>: Sized {
    type Error;
    spec fn phrase(&self) -> Seq<u8>;
    fn try_from(reason: T) -> (r: core::result::Result<Self, Self::Error>)
        ensures r is Ok <==> reason_ok(reason.octs()), //#C21
            r is Ok ==> r->Ok_0.phrase() == reason.octs(); //#C21
}
//@ source src/ext/h1_reason_phrase.rs
//@ item struct ReasonPhrase
//@ item struct InvalidReasonPhrase
//@ gsubst `find_invalid_byte(&reason)` => `find_invalid_byte(reason.vx_sl())`
//@ gsubst `Bytes::from(reason)` => `bytes_of(reason)`
pub trait VxSl { spec fn slv(&self) -> Seq<u8>; fn vx_sl(&self) -> (r: &[u8]) ensures r@ == self.slv(); }
impl VxSl for Vec<u8> { open spec fn slv(&self) -> Seq<u8> { self@ } fn vx_sl(&self) -> (r: &[u8]) { self.as_slice() } }
impl VxSl for Bytes { open spec fn slv(&self) -> Seq<u8> { self@ } fn vx_sl(&self) -> (r: &[u8]) { self.as_ref() } }
//@ fn is_vchar optional=1
    ensures r == (0x21 <= b <= 0x7e)
//@ fn is_obs_text optional=1
    ensures r == (0x80 <= b)
//@ fn is_valid_byte
    ensures r == reason_octet(b) //#C21
//@ fn find_invalid_byte
    ensures r is None <==> reason_ok(bytes@), //#C21
        r is Some ==> !reason_octet(r->0), //#C21
//@ loop 0
    invariant i <= bytes@.len(), forall|k: int| 0 <= k < i ==> reason_octet(#[trigger] bytes@[k])
    decreases bytes@.len() - i
//@ fn ReasonPhrase::as_bytes
    ensures r@ == self.0@ //#C21
//@ rsubst `&self.0` => `self.0.as_ref()`
//@ fn ReasonPhrase::from_static panics=runtime
    ensures reason_ok(reason@), r.0@ == reason@ //#C21
//@ impl <TryFrom<&[u8]> for ReasonPhrase> `impl TryOf<&[u8]> for ReasonPhrase`
    type Error = InvalidReasonPhrase;
    open spec fn phrase(&self) -> Seq<u8> { self.0@ }
//@ fn try_from
//@ endimpl
//@ impl <TryFrom<Vec<u8>> for ReasonPhrase> `impl TryOf<Vec<u8>> for ReasonPhrase`
    type Error = InvalidReasonPhrase;
    open spec fn phrase(&self) -> Seq<u8> { self.0@ }
//@ fn try_from
//@ endimpl
//@ impl <TryFrom<String> for ReasonPhrase> `impl TryOf<String> for ReasonPhrase`
    type Error = InvalidReasonPhrase;
    open spec fn phrase(&self) -> Seq<u8> { self.0@ }
//@ fn try_from
//@ endimpl
//@ impl <TryFrom<Bytes> for ReasonPhrase> `impl TryOf<Bytes> for ReasonPhrase`
    type Error = InvalidReasonPhrase;
    open spec fn phrase(&self) -> Seq<u8> { self.0@ }
//@ fn try_from
//@ endimpl
pub trait FromPhrase { spec fn pv(&self) -> Seq<u8>; fn from(reason: ReasonPhrase) -> (r: Self) where Self: Sized ensures r.pv() == reason.0@; } //#C21
//@ impl <From<ReasonPhrase> for Bytes> `impl FromPhrase for Bytes`
    open spec fn pv(&self) -> Seq<u8> { self@ }
//@ fn from
//@ endimpl
//@ impl <AsRef<[u8]> for ReasonPhrase> `impl PhraseRef for ReasonPhrase`
    open spec fn rv(&self) -> Seq<u8> { self.0@ }
//@ fn as_ref
//@ rsubst `&self.0` => `self.0.as_ref()`
//@ endimpl
pub trait PhraseRef { spec fn rv(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.rv(); } //#C21
} // verus!
verus! {
//VX-AUTO
}
fn main() {}
