use super::*;
/// What a parser made of the octets it was given.
#[allow(missing_debug_implementations, missing_docs)]
#[derive(Debug, Clone, Default, PartialEq)]
pub struct VHead {
    pub subject: String,
    pub version: String,
    pub headers: Vec<(String, Vec<u8>)>,
    /// "n" | "chunked" | "close"
    pub framing: String,
    pub keep_alive: bool,
    pub expect_continue: bool,
    pub wants_upgrade: bool,
    pub rest: Vec<u8>,
    pub reason: Option<Vec<u8>>,
}
fn framing(d: DecodedLength) -> String {
    match d { DecodedLength::CHUNKED => "chunked".into(), DecodedLength::CLOSE_DELIMITED => "close".into(), d => format!("{:?}", d).replace("DecodedLength(", "").replace(')', "").replace("0 / ", "") }
}
fn len_of(d: DecodedLength) -> String {
    if d == DecodedLength::CHUNKED || d == DecodedLength::CLOSE_DELIMITED { framing(d) } else { d.into_opt().map(|n| n.to_string()).unwrap_or_default() }
}
fn head<T>(m: ParsedMessage<T>, s: impl Fn(&T) -> String, rest: &BytesMut) -> VHead {
    VHead {
        subject: s(&m.head.subject), version: format!("{:?}", m.head.version),
        headers: m.head.headers.iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect(),
        framing: len_of(m.decode), keep_alive: m.keep_alive, expect_continue: m.expect_continue, wants_upgrade: m.wants_upgrade,
        rest: rest.to_vec(),
        reason: m.head.extensions.get::<crate::ext::ReasonPhrase>().map(|r| r.as_bytes().to_vec()),
    }
}
fn run<T: Http1Transaction>(b: &[u8], prev: Option<usize>, method: Option<&str>, cached: bool, max: Option<usize>, folds: bool, s: impl Fn(&T::Incoming) -> String) -> (Result<Option<VHead>, String>, Option<String>) {
    let mut buf = BytesMut::from(b);
    let mut m = method.map(|m| Method::from_bytes(m.as_bytes()).unwrap());
    let mut cfg = httparse::ParserConfig::default();
    if folds { cfg.allow_obsolete_multiline_headers_in_responses(true); }
    let r = parse_headers::<T>(&mut buf, prev, ParseContext {
        cached_headers: &mut if cached { Some(HeaderMap::new()) } else { None },
        req_method: &mut m,
        h1_parser_config: cfg,
        h1_max_headers: max,
        preserve_header_case: false,
        #[cfg(feature = "ffi")]
        preserve_header_order: false,
        h09_responses: false,
        on_informational: &mut None,
    });
    let r = match r { Ok(None) => Ok(None), Ok(Some(x)) => Ok(Some(head(x, s, &buf))), Err(e) => Err(format!("{:?}", e)) };
    (r, m.map(|m| m.to_string()))
}
#[allow(missing_docs)]
pub fn server_parse(b: &[u8], prev: Option<usize>, max: Option<usize>) -> Result<Option<VHead>, String> {
    let (r, m) = run::<Server>(b, prev, None, true, max, false, |s| format!("{} {}", s.0, s.1));
    if let Ok(Some(h)) = &r { if m.as_deref() != h.subject.split(' ').next() { return Err("request method not recorded".into()); } }
    r
}
#[allow(missing_docs)]
pub fn client_parse(b: &[u8], prev: Option<usize>, method: Option<&str>, folds: bool) -> Result<Option<VHead>, String> {
    run::<Client>(b, prev, method, true, None, folds, |s| s.as_u16().to_string()).0
}
#[allow(missing_docs)]
pub fn cl_parse(v: &[u8]) -> Option<u64> { headers::content_length_parse(&HeaderValue::from_bytes(v).ok()?) }
#[allow(missing_docs)]
pub fn cl_parse_all(v: &[Vec<u8>]) -> Option<u64> {
    let mut h = HeaderMap::new();
    for x in v { h.append(header::CONTENT_LENGTH, HeaderValue::from_bytes(x).ok()?); }
    headers::content_length_parse_all(&h)
}
#[allow(missing_docs)]
pub fn complete_fast(b: &[u8], prev: usize) -> bool { is_complete_fast(b, prev) }
/// body: None | Some(None) unknown | Some(Some(n))
fn body_len(b: Option<Option<u64>>) -> Option<BodyLength> { b.map(|b| match b { Some(n) => BodyLength::Known(n), None => BodyLength::Unknown }) }
#[allow(missing_docs)]
pub struct VEnc { pub dst: Vec<u8>, pub kind: String, pub is_last: bool }
impl std::fmt::Debug for VEnc { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{} {}", self.kind, self.is_last) } }
fn ver(v: &str) -> Version { match v { "1.0" => Version::HTTP_10, "2" => Version::HTTP_2, _ => Version::HTTP_11 } }
fn enc_of(r: crate::Result<Encoder>, dst: Vec<u8>) -> Result<VEnc, (String, Vec<u8>)> {
    match r {
        Err(e) => Err((format!("{:?}", e), dst)),
        Ok(e) => Ok(VEnc {
            kind: if e.is_chunked() { "chunked".into() } else if e.is_close_delimited() { "close".into() } else {
                match e.end::<Bytes>() { Ok(_) => "0".into(), Err(n) => { let s = format!("{}", n); s.chars().filter(|c| c.is_ascii_digit()).collect() } } },
            is_last: e.is_last(), dst,
        }),
    }
}
#[allow(missing_docs)]
pub fn server_encode(status: u16, version: &str, headers: HeaderMap, body: Option<Option<u64>>, method: Option<&str>, keep_alive: bool, title: bool, date: bool) -> Result<VEnc, (String, Vec<u8>)> {
    let mut h = MessageHead { version: ver(version), subject: StatusCode::from_u16(status).unwrap(), headers, extensions: http::Extensions::default() };
    let mut dst = b"PREVIOUS".to_vec();
    let r = encode_headers::<Server>(Encode { head: &mut h, body: body_len(body), keep_alive, req_method: &mut method.map(|m| Method::from_bytes(m.as_bytes()).unwrap()), title_case_headers: title, date_header: date }, &mut dst);
    enc_of(r, dst)
}
#[allow(missing_docs)]
pub fn client_encode(method: &str, uri: &str, version: &str, headers: HeaderMap, body: Option<Option<u64>>, title: bool) -> Result<VEnc, (String, Vec<u8>)> {
    let mut h = MessageHead { version: ver(version), subject: RequestLine(Method::from_bytes(method.as_bytes()).unwrap(), uri.parse().unwrap()), headers, extensions: http::Extensions::default() };
    let mut dst = b"PREVIOUS".to_vec();
    let mut m = None;
    let r = encode_headers::<Client>(Encode { head: &mut h, body: body_len(body), keep_alive: true, req_method: &mut m, title_case_headers: title, date_header: false }, &mut dst);
    if m.as_ref().map(|m| m.as_str()) != Some(method) { return Err(("request method not recorded".into(), dst)); }
    enc_of(r, dst)
}
