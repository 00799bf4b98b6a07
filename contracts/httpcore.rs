verus! {
// ---- http::{Version, Method, StatusCode} (assumed contracts) -------------------------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Version { HTTP_09, HTTP_10, HTTP_11, HTTP_2, HTTP_3 }
impl Version {
    pub open spec fn rank(self) -> int { match self { Version::HTTP_09 => 0, Version::HTTP_10 => 1, Version::HTTP_11 => 2, Version::HTTP_2 => 3, Version::HTTP_3 => 4 } }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Version {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Version) -> Option<core::cmp::Ordering> {
        if self.rank() < o.rank() { Some(core::cmp::Ordering::Less) } else if self.rank() == o.rank() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl core::cmp::PartialOrd for Version {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Version) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Method { OPTIONS, GET, POST, PUT, DELETE, HEAD, TRACE, CONNECT, PATCH, Extension(u64) }
pub uninterp spec fn meth_str(m: Method) -> Seq<u8>;
impl Method {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &VStr) ensures r@ == meth_str(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Method) ensures r == *self { unimplemented!() }
    pub fn is_safe(&self) -> (r: bool) ensures r == (*self == Method::GET || *self == Method::HEAD || *self == Method::OPTIONS || *self == Method::TRACE)
    { *self == Method::GET || *self == Method::HEAD || *self == Method::OPTIONS || *self == Method::TRACE }
    pub fn is_idempotent(&self) -> (r: bool) ensures r == (*self == Method::GET || *self == Method::HEAD || *self == Method::OPTIONS || *self == Method::TRACE || *self == Method::PUT || *self == Method::DELETE)
    { self.is_safe() || *self == Method::PUT || *self == Method::DELETE }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct StatusCode { pub n: u16 }
/// the three digits of a status code
pub uninterp spec fn code_str(n: u16) -> Seq<u8>;
/// the standard reason phrase of a code, if it has one
pub uninterp spec fn canon_reason(n: u16) -> Option<Seq<u8>>;
impl StatusCode {
    pub const CONTINUE: StatusCode = StatusCode { n: 100 };
    pub const SWITCHING_PROTOCOLS: StatusCode = StatusCode { n: 101 };
    pub const PROCESSING: StatusCode = StatusCode { n: 102 };
    pub const OK: StatusCode = StatusCode { n: 200 };
    pub const CREATED: StatusCode = StatusCode { n: 201 };
    pub const ACCEPTED: StatusCode = StatusCode { n: 202 };
    pub const NON_AUTHORITATIVE_INFORMATION: StatusCode = StatusCode { n: 203 };
    pub const NO_CONTENT: StatusCode = StatusCode { n: 204 };
    pub const RESET_CONTENT: StatusCode = StatusCode { n: 205 };
    pub const PARTIAL_CONTENT: StatusCode = StatusCode { n: 206 };
    pub const MULTIPLE_CHOICES: StatusCode = StatusCode { n: 300 };
    pub const NOT_MODIFIED: StatusCode = StatusCode { n: 304 };
    pub const BAD_REQUEST: StatusCode = StatusCode { n: 400 };
    pub const REQUEST_TIMEOUT: StatusCode = StatusCode { n: 408 };
    pub const LENGTH_REQUIRED: StatusCode = StatusCode { n: 411 };
    pub const PAYLOAD_TOO_LARGE: StatusCode = StatusCode { n: 413 };
    pub const URI_TOO_LONG: StatusCode = StatusCode { n: 414 };
    pub const EXPECTATION_FAILED: StatusCode = StatusCode { n: 417 };
    pub const UPGRADE_REQUIRED: StatusCode = StatusCode { n: 426 };
    pub const REQUEST_HEADER_FIELDS_TOO_LARGE: StatusCode = StatusCode { n: 431 };
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { n: 500 };
    pub const NOT_IMPLEMENTED: StatusCode = StatusCode { n: 501 };
    pub const HTTP_VERSION_NOT_SUPPORTED: StatusCode = StatusCode { n: 505 };
    pub fn is_informational(&self) -> (r: bool) ensures r == (100 <= self.n < 200) { 100 <= self.n && self.n < 200 }
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.n < 300) { 200 <= self.n && self.n < 300 }
    pub fn is_redirection(&self) -> (r: bool) ensures r == (300 <= self.n < 400) { 300 <= self.n && self.n < 400 }
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= self.n < 500) { 400 <= self.n && self.n < 500 }
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= self.n < 600) { 500 <= self.n && self.n < 600 }
    pub fn as_u16(&self) -> (r: u16) ensures r == self.n { self.n }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &VStr) ensures r@ == code_str(self.n) { unimplemented!() }
    #[verifier::external_body]
    pub fn canonical_reason(&self) -> (r: Option<&VStr>)
        ensures match r { Some(s) => canon_reason(self.n) == Some(s@), None => canon_reason(self.n) is None } { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<u16> for StatusCode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &u16) -> bool { self.n == *o }
}
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> (r: bool) { self.n == *o } }
} // verus!
