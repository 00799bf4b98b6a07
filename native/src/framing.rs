//! What RFC 9112 (as stated in the properties) says a head delimits, read off its lines.
#![allow(dead_code)]
use crate::common::*;
use serde_json::{json, Value};
pub type Lines = Vec<(String, Vec<u8>)>;
#[derive(Debug, Clone, PartialEq)]
pub enum Fr { Len(u64), Chunked, Close }
pub const LIMIT: u64 = u64::MAX - 2;
pub fn trim(b: &[u8]) -> &[u8] {
    let ws = |c: &u8| *c == b' ' || *c == b'\t';
    let a = b.iter().position(|c| !ws(c)).unwrap_or(b.len());
    let z = b.iter().rposition(|c| !ws(c)).map(|p| p + 1).unwrap_or(a);
    &b[a..z]
}
pub fn text(b: &[u8]) -> bool { b.iter().all(|c| *c == 9 || (32..127).contains(c)) }
pub fn num(b: &[u8]) -> Option<u64> {
    if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) { return None; }
    let mut n: u128 = 0;
    for c in b { n = (n * 10 + (*c - b'0') as u128).min(u128::MAX / 100); }
    if n > u64::MAX as u128 { None } else { Some(n as u64) }
}
pub fn vals<'a>(l: &'a Lines, n: &str) -> Vec<&'a [u8]> { l.iter().filter(|x| x.0.eq_ignore_ascii_case(n)).map(|x| trim(&x.1)).collect() }
pub fn members(v: &[u8]) -> Vec<&[u8]> { v.split(|c| *c == b',').map(trim).collect() }
pub fn has(vs: &[&[u8]], t: &str) -> bool { vs.iter().any(|v| text(v) && members(v).iter().any(|m| m.eq_ignore_ascii_case(t.as_bytes()))) }
pub fn ends_chunked(v: &[u8]) -> bool { text(v) && members(v).last().unwrap().eq_ignore_ascii_case(b"chunked") }
/// every line a number, all equal
pub fn plain_len(cl: &[&[u8]]) -> Option<Option<u64>> {
    let n: Option<Vec<u64>> = cl.iter().map(|v| num(v).filter(|n| *n <= LIMIT)).collect();
    let n = n?;
    if n.iter().any(|x| *x != n[0]) { return None; }
    Some(n.first().cloned())
}
/// every member of every line a number, all equal
pub fn list_len(cl: &[&[u8]]) -> Option<Option<u64>> {
    let mut got = None;
    for v in cl {
        if !text(v) { return None; }
        for m in members(v) {
            let n = num(m)?;
            if got.map_or(false, |g| g != n) { return None; }
            got = Some(n);
        }
    }
    if got.map_or(false, |g| g > LIMIT) { return None; }
    Some(got)
}
/// Some(framing): must be taken so; None: must be refused; the flag: refusing is fine too
pub fn request(v11: bool, l: &Lines) -> (Option<Fr>, bool) {
    let te = vals(l, "transfer-encoding");
    let cl = vals(l, "content-length");
    let len = plain_len(&cl);
    if let Some(t) = te.last() {
        if !v11 || !ends_chunked(t) { return (None, true); }
        return (Some(Fr::Chunked), len.is_none());
    }
    match len { None => (None, true), Some(n) => (Some(Fr::Len(n.unwrap_or(0))), false) }
}
/// (framing, tunnel); None: refused; Skip: interim
#[derive(Debug, Clone, PartialEq)]
pub enum Resp { Skip, Bad, As(Fr, bool) }
pub fn response(code: u16, v11: bool, method: &str, l: &Lines) -> Resp {
    if code == 101 { return Resp::As(Fr::Len(0), true); }
    if (100..200).contains(&code) { return Resp::Skip; }
    if code == 204 || code == 304 || method == "HEAD" { return Resp::As(Fr::Len(0), false); }
    if method == "CONNECT" && (200..300).contains(&code) { return Resp::As(Fr::Len(0), true); }
    let te = vals(l, "transfer-encoding");
    let cl = vals(l, "content-length");
    if let Some(t) = te.last() {
        if !v11 { return Resp::Bad; }
        return Resp::As(if ends_chunked(t) { Fr::Chunked } else { Fr::Close }, false);
    }
    if cl.is_empty() { return Resp::As(Fr::Close, false); }
    match list_len(&cl) { Some(Some(n)) => Resp::As(Fr::Len(n), false), _ => Resp::Bad }
}
pub fn persists(v11: bool, l: &Lines) -> bool {
    let c = vals(l, "connection");
    !has(&c, "close") && (v11 || has(&c, "keep-alive"))
}
pub fn fr_name(f: &Fr) -> String { match f { Fr::Len(n) => n.to_string(), Fr::Chunked => "chunked".into(), Fr::Close => "close".into() } }
pub fn lines(v: &Value) -> Lines { v.as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), dec(&x[1]))).collect()).unwrap_or_default() }
pub fn raw(start: &str, l: &Lines) -> Vec<u8> {
    let mut b = start.as_bytes().to_vec();
    b.extend(b"\r\n");
    for (n, v) in l { b.extend(n.as_bytes()); b.extend(b":"); b.extend(v); b.extend(b"\r\n"); }
    b.extend(b"\r\n");
    b
}
pub fn same_headers(got: &[(String, Vec<u8>)], want: &Lines) -> bool {
    let mut names: Vec<String> = want.iter().map(|x| x.0.to_lowercase()).collect();
    names.sort(); names.dedup();
    got.len() == want.len() && names.iter().all(|n| got.iter().filter(|x| x.0 == *n).map(|x| x.1.clone()).collect::<Vec<_>>() == vals(want, n))
}
/// field lines around framing
pub const POOL: &[(&str, &str)] = &[
    ("transfer-encoding", "chunked"), ("Transfer-Encoding", "gzip, chunked"), ("transfer-encoding", "Chunked"), ("transfer-encoding", "chunked, gzip"), ("transfer-encoding", "gzip"),
    ("transfer-encoding", "chunked,"), ("transfer-encoding", ",chunked"), ("transfer-encoding", "xchunked"), ("transfer-encoding", "chunked;q=1"), ("transfer-encoding", "gzip chunked"), ("transfer-encoding", ""), ("transfer-encoding", "identity"),
    ("transfer-encoding", "chunked\u{b5}"), ("transfer-encoding", "\u{b5},chunked"), ("transfer-encoding", "gzip,\tchunked "), ("transfer-encoding", "\"chunked\""), ("transfer-encoding", "chunked, chunked"),
    ("content-length", "5"), ("Content-Length", "5"), ("content-length", "05"), ("content-length", "6"), ("content-length", "0"), ("content-length", "5, 5"), ("content-length", "5,6"), ("content-length", "+5"), ("content-length", "-5"), ("content-length", ""), ("content-length", "5 "), ("content-length", "x"), ("content-length", "5;"),
    ("content-length", "18446744073709551613"), ("content-length", "18446744073709551614"), ("content-length", "18446744073709551615"), ("content-length", "18446744073709551621"), ("content-length", "5\u{b5}"), ("content-length", "0x5"),
    ("connection", "close"), ("connection", "keep-alive"), ("Connection", "Close"), ("connection", "keep-alive, close"), ("connection", "close\u{b5}"), ("connection", "closed"), ("connection", "x, Keep-Alive"), ("connection", "upgrade"), ("connection", "transfer-encoding"), ("connection", "content-length"), ("connection", ""),
    ("upgrade", "websocket"), ("expect", "100-continue"), ("Expect", "100-Continue"), ("expect", "100-continue, x"), ("expect", "x"), ("te", "trailers"), ("trailer", "x-t"), ("x-a", "1"), ("x-content-length", "7"), ("content-encoding", "chunked"), ("proxy-connection", "close"), ("host", "h"),
];
/// single lines, pairs, random longer heads
pub fn heads(cx: &mut Cx, salt: u64, n: usize, mut f: impl FnMut(&mut Cx, Value, &mut Rng)) {
    let mut r = cx.rng(salt);
    let l = |i: usize| json!([POOL[i].0, POOL[i].1]);
    f(cx, json!([]), &mut r);
    for i in 0..POOL.len() { f(cx, json!([l(i)]), &mut r); }
    for i in 0..POOL.len() { for j in 0..POOL.len() { if cx.stop() { return; } f(cx, json!([l(i), l(j)]), &mut r); } }
    for _ in 0..n {
        if cx.stop() { return; }
        let k = r.range(3, 6);
        let focus = r.chance(60);
        let v: Vec<Value> = (0..k).map(|_| if focus { l(r.below(36)) } else { l(r.below(POOL.len())) }).collect();
        f(cx, Value::Array(v), &mut r);
    }
}
