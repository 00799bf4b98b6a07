//! Chunked decoding: the real Decoder (hook) and the real server connection
//! against an octet-at-a-time reference of the coding.
use crate::common::*;
use crate::net;
use bytes::Bytes;
use serde_json::{json, Value};
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S { Start, Size, Lws, Ext, SizeLf, Body, BodyCr, BodyLf, Trailer, TrailerLf, EndCr, EndLf, End }
#[derive(Clone, Debug)]
pub struct A { pub st: S, pub size: u128, pub ext: usize, pub tr: Option<Vec<u8>>, pub cnt: usize }
pub fn start() -> A { A { st: S::Start, size: 0, ext: 0, tr: None, cnt: 0 } }
fn hv(b: u8) -> Option<u128> { (b as char).to_digit(16).map(|d| d as u128) }
/// false: rejected
pub fn astep(a: &mut A, b: u8, hdrs: usize, bytes: usize) -> bool {
    fn put(a: &mut A, st: S, b: u8, bytes: usize) -> bool {
        let t = a.tr.as_mut().unwrap();
        if t.len() + 1 >= bytes { return false; }
        t.push(b);
        a.st = st;
        true
    }
    match a.st {
        S::Start | S::Size => {
            if let Some(v) = hv(b) {
                a.size = a.size * 16 + v;
                a.st = S::Size;
                return a.size <= u64::MAX as u128;
            }
            if a.st == S::Start { return false; }
            a.st = match b { b'\t' | b' ' => S::Lws, b';' => S::Ext, b'\r' => S::SizeLf, _ => return false };
            true
        }
        S::Lws => { a.st = match b { b'\t' | b' ' => S::Lws, b';' => S::Ext, b'\r' => S::SizeLf, _ => return false }; true }
        S::Ext => match b { b'\r' => { a.st = S::SizeLf; true } b'\n' => false, _ => { a.ext += 1; a.ext < 16384 } },
        S::SizeLf => { if b != b'\n' { return false; } a.st = if a.size == 0 { S::EndCr } else { S::Body }; true }
        S::Body => { a.size -= 1; if a.size == 0 { a.st = S::BodyCr; } true }
        S::BodyCr => { a.st = S::BodyLf; b == b'\r' }
        S::BodyLf => { a.st = S::Start; b == b'\n' }
        S::EndCr => match &a.tr {
            None => { if b == b'\r' { a.st = S::EndLf; } else { a.tr = Some(vec![b]); a.st = S::Trailer; } true }
            Some(_) => put(a, if b == b'\r' { S::EndLf } else { S::Trailer }, b, bytes),
        },
        S::Trailer => put(a, if b == b'\r' { S::TrailerLf } else { S::Trailer }, b, bytes),
        S::TrailerLf => { if b != b'\n' || a.cnt >= hdrs { return false; } a.cnt += 1; put(a, S::EndCr, b, bytes) }
        S::EndLf => { if b != b'\n' { return false; } if a.tr.is_some() { put(a, S::End, b, bytes) } else { a.st = S::End; true } }
        S::End => false,
    }
}
pub struct Expect { pub data: Vec<u8>, pub end: Option<usize>, pub reject: Option<usize>, pub tr: Option<Vec<u8>>, pub cnt: usize }
pub fn expect(s: &[u8], hdrs: usize, bytes: usize) -> Expect {
    let mut a = start();
    let mut data = vec![];
    for (i, b) in s.iter().enumerate() {
        let emit = a.st == S::Body;
        if !astep(&mut a, *b, hdrs, bytes) { return Expect { data, end: None, reject: Some(i), tr: None, cnt: 0 }; }
        if emit { data.push(*b); }
        if a.st == S::End { return Expect { data, end: Some(i + 1), reject: None, tr: a.tr.clone(), cnt: a.cnt }; }
    }
    Expect { data, end: None, reject: None, tr: None, cnt: 0 }
}
pub fn ref_trailers(raw: &[u8], cnt: usize) -> Option<Vec<(String, Vec<u8>)>> {
    let mut h = vec![httparse::EMPTY_HEADER; cnt];
    match httparse::parse_headers(raw, &mut h) {
        Ok(httparse::Status::Complete((_, hs))) => {
            let mut v = vec![];
            for x in hs {
                let n = http::HeaderName::try_from(x.name).ok()?;
                http::HeaderValue::from_bytes(x.value).ok()?;
                v.push((n.as_str().to_string(), x.value.to_vec()));
            }
            v.sort();
            Some(v)
        }
        _ => None,
    }
}

pub struct Got { pub data: Vec<u8>, pub trailers: Option<Vec<(String, Vec<u8>)>>, pub err: Option<std::io::ErrorKind>, pub used: usize, pub ended: bool, pub msg: String }
/// kind: "chunked" | "length" | "eof"
pub fn drive(kind: &str, n: u64, stream: &[u8], cuts: &[usize], hdrs: Option<usize>, bytes: Option<usize>) -> Result<Got, String> {
    use hyper::verif::decode::VDecoder;
    let mut d = match kind { "chunked" => VDecoder::chunked(hdrs, bytes), "length" => VDecoder::length(n), _ => VDecoder::eof() };
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut g = Got { data: vec![], trailers: None, err: None, used: 0, ended: false, msg: String::new() };
    let mut pos = 0usize;
    let mut ci = 0usize;
    let mut left = 0usize; // left in current fragment
    let mut over = None;
    let mut zero_run = 0;
    for _ in 0..(stream.len() * 4 + 50) {
        if d.is_eof() { g.ended = true; break; }
        let r = d.decode(&mut cx, |_cx, len| {
            if len == 0 { over = Some("asked the transport for zero octets".to_string()); }
            if pos >= stream.len() { return Poll::Ready(Ok(Bytes::new())); }
            if left == 0 {
                let c = if cuts.is_empty() { stream.len() } else { cuts[ci % cuts.len()] };
                ci += 1;
                if c == 0 { zero_run += 1; if zero_run < 3 { return Poll::Pending; } }
                zero_run = 0;
                left = c.max(1);
            }
            let k = len.min(left).min(stream.len() - pos);
            let b = Bytes::copy_from_slice(&stream[pos..pos + k]);
            pos += k;
            left -= k;
            Poll::Ready(Ok(b))
        });
        if let Some(o) = over { return Err(o); }
        match r {
            Poll::Pending => continue,
            Poll::Ready(Err(e)) => { g.err = Some(e.kind()); g.msg = e.to_string(); break; }
            Poll::Ready(Ok(f)) => {
                if f.is_data() {
                    let b = f.into_data().ok().unwrap();
                    if b.is_empty() && !d.is_eof() { return Err("an empty data frame before the end of the body".into()); }
                    g.data.extend_from_slice(&b);
                } else if let Ok(t) = f.into_trailers() {
                    let mut v: Vec<(String, Vec<u8>)> = net::hlist(&t);
                    v.sort();
                    g.trailers = Some(v);
                }
            }
        }
    }
    g.used = pos;
    Ok(g)
}

pub fn one(c: &Value) -> Res {
    if c["via"] == "server" { return via_server(c); }
    if c["via"] == "client" { return via_client(c); }
    let s = dec(&c["stream"]);
    let cuts = arr(&c["cuts"]);
    let hdrs = c["hdrs"].as_u64().map(|x| x as usize);
    let bytes = c["bytes"].as_u64().map(|x| x as usize);
    let g = drive("chunked", 0, &s, &cuts, hdrs, bytes)?;
    let e = expect(&s, hdrs.unwrap_or(100), bytes.unwrap_or(16384));
    let d = format!("stream {} fragments {:?}", show(&s), cuts);
    match (e.end, e.reject) {
        (Some(k), _) => {
            let want_tr = match &e.tr { None => Some(None), Some(raw) => ref_trailers(raw, e.cnt).map(Some) };
            match want_tr {
                None => if g.err.is_none() { return Err(format!("{}: malformed trailers accepted", d)); },
                Some(t) => {
                    if let Some(k) = g.err { return Err(format!("{}: valid body rejected ({:?} {})", d, k, g.msg)); }
                    if !g.ended { return Err(format!("{}: end of body not recognised", d)); }
                    if g.trailers != t { return Err(format!("{}: trailers {:?}, expected {:?}", d, g.trailers, t)); }
                    if g.data != e.data { return Err(format!("{}: payload {} expected {}", d, show(&g.data), show(&e.data))); }
                }
            }
            if g.used != k { return Err(format!("{}: consumed {} octets, the body is {} long", d, g.used, k)); }
        }
        (None, Some(k)) => {
            if g.err.is_none() || g.ended { return Err(format!("{}: octet {} is not allowed there, but no error was reported", d, k)); }
            if g.used > k + 1 { return Err(format!("{}: read past the offending octet", d)); }
            if g.data.len() > e.data.len() || g.data != e.data[..g.data.len()] { return Err(format!("{}: payload before the error is wrong", d)); }
        }
        (None, None) => {
            if g.err != Some(std::io::ErrorKind::UnexpectedEof) { return Err(format!("{}: truncated body gave {:?} ended={}", d, g.err, g.ended)); }
            if g.data != e.data { return Err(format!("{}: payload {} expected {}", d, show(&g.data), show(&e.data))); }
        }
    }
    Ok(e.end.is_some() || e.reject.map(|k| k > 2).unwrap_or(false))
}

/// the same through a real server connection, followed by a second request
fn via_server(c: &Value) -> Res {
    let s = dec(&c["stream"]);
    let cuts = arr(&c["cuts"]);
    let e = expect(&s, 100, 16384);
    let mut wire = b"POST /a HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
    wire.extend_from_slice(&s);
    let follow = e.end == Some(s.len());
    if follow { wire.extend_from_slice(b"GET /b HTTP/1.1\r\nhost: x\r\n\r\n"); }
    let o = net::server(net::ScriptIo::new(net::cut(&wire, &cuts), false), &json!({"half_close":true}), &json!([{"read":0}]));
    let d = format!("server, stream {} fragments {:?}", show(&s), cuts);
    if o.msgs.is_empty() { return Err(format!("{}: request not delivered", d)); }
    let m = &o.msgs[0];
    let tr_ok = match &e.tr { None => true, Some(raw) => ref_trailers(raw, e.cnt).is_some() };
    if e.end.is_some() && tr_ok {
        if let Some(x) = &m.err { return Err(format!("{}: valid body rejected: {}", d, x)); }
        if !m.ended || m.body != e.data { return Err(format!("{}: handler saw {} ended={}", d, show(&m.body), m.ended)); }
        let t = e.tr.as_ref().map(|raw| ref_trailers(raw, e.cnt).unwrap());
        let mut gt = m.trailers.clone();
        if let Some(g) = &mut gt { g.sort(); }
        if gt != t { return Err(format!("{}: trailers {:?} expected {:?}", d, gt, t)); }
        if follow && (o.msgs.len() != 2 || o.msgs[1].start != "GET /b HTTP/1.1") { return Err(format!("{}: following request not seen intact: {:?}", d, o.msgs.iter().map(|m| m.start.clone()).collect::<Vec<_>>())); }
    } else {
        if m.ended || m.err.is_none() { return Err(format!("{}: invalid or truncated body reported as complete", d)); }
        if m.body.len() > e.data.len() || m.body != e.data[..m.body.len()] { return Err(format!("{}: wrong payload before the error", d)); }
        if o.msgs.len() > 1 { return Err(format!("{}: another request was read after a broken body", d)); }
    }
    Ok(true)
}
fn via_client(c: &Value) -> Res {
    let s = dec(&c["stream"]);
    let cuts = arr(&c["cuts"]);
    let e = expect(&s, 100, 16384);
    let mut wire = b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
    wire.extend_from_slice(&s);
    let o = net::client(net::ScriptIo::new(net::answer(1, &wire, &cuts), false), &json!({}), &json!([{"method":"GET","uri":"/"}]));
    let d = format!("client, stream {} fragments {:?}", show(&s), cuts);
    if o.msgs.is_empty() { return Err(format!("{}: response not delivered {:?}", d, o.send_err)); }
    let m = &o.msgs[0];
    let tr_ok = match &e.tr { None => true, Some(raw) => ref_trailers(raw, e.cnt).is_some() };
    if e.end.is_some() && tr_ok {
        if let Some(x) = &m.err { return Err(format!("{}: valid body rejected: {}", d, x)); }
        if !m.ended || m.body != e.data { return Err(format!("{}: caller saw {} ended={}", d, show(&m.body), m.ended)); }
    } else if m.ended || m.err.is_none() { return Err(format!("{}: invalid or truncated body reported as complete", d)); }
    Ok(true)
}

pub fn gen_valid(r: &mut Rng, trailers: bool) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(4) {
        let n = *r.pick(&[1usize, 2, 3, 9, 10, 15, 16, 17, 26, 31, 32, 200, 255, 256, 4095, 4096, 9000]);
        let n = if r.chance(70) { n.min(40) } else { n };
        let mut l = format!("{:x}", n);
        if r.chance(30) { l = l.to_uppercase(); }
        if r.chance(30) { l = format!("{}{}", "0".repeat(r.below(20)), l); }
        v.extend(l.bytes());
        if r.chance(20) { v.extend(std::iter::repeat(*r.pick(b" \t")).take(1 + r.below(3))); }
        if r.chance(25) { v.push(b';'); for _ in 0..r.below(12) { let c = *r.pick(b"ab=;\"\t \x80\x00~0"); v.push(c); } }
        v.extend_from_slice(b"\r\n");
        for _ in 0..n { let c = *r.pick(b"0123\r\n;aF \x00\xff"); v.push(c); }
        v.extend_from_slice(b"\r\n");
    }
    v.extend(std::iter::repeat(b'0').take(1 + if r.chance(10) { r.below(20) } else { 0 }));
    if r.chance(15) { v.extend_from_slice(b";last"); }
    v.extend_from_slice(b"\r\n");
    if trailers && r.chance(40) {
        for i in 0..1 + r.below(3) { v.extend_from_slice(format!("x-t{}: v{}\r\n", i, r.below(100)).as_bytes()); }
    }
    v.extend_from_slice(b"\r\n");
    v
}
pub fn gen_cuts(r: &mut Rng) -> Vec<usize> {
    match r.below(5) { 0 => vec![], 1 => vec![1], 2 => vec![0, 1], _ => (0..1 + r.below(6)).map(|_| *r.pick(&[0usize, 1, 1, 2, 3, 4, 7, 16, 64, 1000])).collect() }
}

pub fn run(cx: &mut Cx) {
    cx.rule("bounded-exhaustive: every stream of up to 4 (thorough 5) octets over {0 1 A f G space ; CR LF x} continued from each of 9 prefixes, whole and octet-wise; random valid bodies with 0-2 octet edits under random fragmentation, directly, through a server connection and through a client connection; non-trivial: reaches the end of the body or is rejected after octet 2");
    let alpha = b"01AfG ;\r\nx";
    let prefixes: [&[u8]; 9] = [b"", b"1", b"1 ", b"1;", b"1\r\n", b"1\r\nz", b"2\r\nz", b"0\r\n", b"0\r\nk: v"];
    let depth = if cx.thorough { 5 } else { 3 };
    for p in prefixes {
        for len in 0..=depth {
            let total = alpha.len().pow(len as u32);
            for k in 0..total {
                let mut s = p.to_vec();
                let mut x = k;
                for _ in 0..len { s.push(alpha[x % alpha.len()]); x /= alpha.len(); }
                for tail in [&b""[..], b"\r\n\r\n", b"\r\n0\r\n\r\n"] {
                    let mut t = s.clone();
                    t.extend_from_slice(tail);
                    cx.case(one, json!({"stream": enc(&t), "cuts": if k % 2 == 0 { json!([1]) } else { json!([]) }}));
                }
                if cx.violations.len() >= 3 { return; }
            }
        }
    }
    let mut r = cx.rng(1);
    let n = if cx.thorough { 60000 } else { 6000 };
    for i in 0..n {
        if cx.stop() { break; }
        let mut s = gen_valid(&mut r, true);
        if r.chance(60) {
            for _ in 0..1 + r.below(2) {
                let p = r.below(s.len());
                match r.below(3) { 0 => { s[p] = *r.pick(b"0123456789abcdefABCDEFgG \t;\r\n:\x00\xff"); } 1 => { s.remove(p); } _ => { s.insert(p, *r.pick(b"0fF \t;\r\n:x")); } }
                if s.is_empty() { break; }
            }
        }
        if r.chance(15) { let k = r.below(s.len() + 1); s.truncate(k); }
        if r.chance(20) { s.extend_from_slice(b"GET / HTTP/1.1\r\n"); }
        let cuts = gen_cuts(&mut r);
        let mut c = json!({"stream": enc(&s), "cuts": cuts});
        if i % 5 == 3 { c["via"] = json!("server"); }
        if i % 5 == 4 { c["via"] = json!("client"); }
        cx.case(one, c);
    }
}
