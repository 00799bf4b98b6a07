//! C11: request heads agree with the body sent.
use crate::common::*;
use crate::framing::*;
use crate::net;
use hyper::verif::role as v;
use serde_json::{json, Value};

/// every member of every line a number, all equal (no reserved values when sending)
fn cl_len(cl: &[&[u8]]) -> Option<u64> {
    let mut got = None;
    for v in cl {
        if !text(v) { return None; }
        for m in members(v) { let n = num(m)?; if got.map_or(false, |g| g != n) { return None; } got = Some(n); }
    }
    got
}
pub fn head_lines(b: &[u8]) -> Result<(String, Lines), String> {
    if !b.ends_with(b"\r\n\r\n") { return Err(format!("the head does not end in an empty line: {}", show(b))); }
    let b = &b[..b.len() - 4];
    let mut out = vec![];
    let mut start = None;
    let mut i = 0;
    loop {
        let e = b[i..].windows(2).position(|w| w == b"\r\n").map(|p| i + p).unwrap_or(b.len());
        let l = &b[i..e];
        if l.is_empty() { return Err(format!("an empty line within the head: {}", show(b))); }
        if start.is_none() { start = Some(String::from_utf8_lossy(l).to_string()); } else {
            let c = l.windows(2).position(|w| w == b": ").ok_or(format!("line {} is not a field", show(l)))?;
            out.push((String::from_utf8_lossy(&l[..c]).to_string(), l[c + 2..].to_vec()));
        }
        if e >= b.len() { break; }
        i = e + 2;
    }
    Ok((start.unwrap_or_default(), out))
}
pub fn body_of(v: &Value) -> Option<Option<u64>> { if v.is_null() { None } else if v == "unknown" { Some(None) } else { Some(v.as_u64()) } }
fn direct(c: &Value) -> Res {
    let method = c["method"].as_str().unwrap_or("POST");
    let ver = c["version"].as_str().unwrap_or("1.1");
    let v11 = ver != "1.0";
    let h = net::hmap(&c["lines"]);
    let given: Lines = net::hlist(&h);
    let body = body_of(&c["body"]);
    let d = format!("request {} version {} with {:?}, body {}", method, ver, given.iter().map(|x| format!("{}: {}", x.0, show(&x.1))).collect::<Vec<_>>(), c["body"]);
    let e = match v::client_encode(method, "/a", ver, h, body, c["title"] == json!(true)) { Ok(e) => e, Err((e, _)) => return Err(format!("{}: refused: {}", d, e)) };
    let Some(w) = e.dst.strip_prefix(b"PREVIOUS") else { return Err(format!("{}: earlier octets changed", d)) };
    let (start, l) = head_lines(w)?;
    let d = format!("{}: written {}, body written as {}", d, show(w), e.kind);
    if start != format!("{} /a HTTP/1.{}", method, v11 as u8) { return Err(format!("{}: start line", d)); }
    let (te, cl) = (vals(&l, "transfer-encoding"), vals(&l, "content-length"));
    if !te.is_empty() {
        if !v11 { return Err(format!("{}: transfer coding towards HTTP/1.0", d)); }
        if !cl.is_empty() { return Err(format!("{}: two delimiters", d)); }
        if !members(te[te.len() - 1]).last().unwrap().eq_ignore_ascii_case(b"chunked") || e.kind != "chunked" { return Err(format!("{}: transfer coding and body differ", d)); }
        // the codings given, and chunked once more only if they do not end in it
        let ute = vals(&given, "transfer-encoding");
        if let Some(t) = ute.last() {
            let mut all: Vec<&[u8]> = ute.iter().flat_map(|v| members(v)).collect();
            if !ends_chunked(t) { all.push(b"chunked"); }
            let got: Vec<&[u8]> = te.iter().flat_map(|v| members(v)).collect();
            if got != all { return Err(format!("{}: the codings are not the ones given, then chunked", d)); }
        }
    } else if !cl.is_empty() {
        match cl_len(&cl) { None => return Err(format!("{}: an invalid Content-Length is sent", d)), Some(n) => if e.kind != n.to_string() { return Err(format!("{}: Content-Length and body differ", d)); } }
    } else if e.kind != "0" { return Err(format!("{}: a body without a delimiter", d)); }
    let ucl = cl_len(&vals(&given, "content-length"));
    let ute = v11 && !vals(&given, "transfer-encoding").is_empty();
    match body {
        None => if e.kind != "0" { return Err(format!("{}: announces a body that does not come", d)); },
        Some(b) => {
            let bodiless = matches!(method, "GET" | "HEAD" | "CONNECT");
            let want = if ute { "chunked".into() } else if let Some(n) = ucl { n.to_string() } else if let Some(n) = b { n.to_string() } else if v11 && !bodiless { "chunked".into() } else { "0".into() };
            if e.kind != want { return Err(format!("{}: expected {}", d, want)); }
        }
    }
    // the rest goes out as given
    let special = |n: &str| n.eq_ignore_ascii_case("transfer-encoding") || n.eq_ignore_ascii_case("content-length");
    let got: Lines = l.iter().filter(|x| !special(&x.0)).map(|x| (x.0.to_lowercase(), x.1.clone())).collect();
    let want: Lines = given.iter().filter(|x| !special(&x.0)).cloned().collect();
    if !same_headers(&got, &want.iter().map(|x| (x.0.clone(), x.1.clone())).collect()) && got != want { return Err(format!("{}: other fields differ", d)); }
    Ok(!given.is_empty())
}
fn conn(c: &Value) -> Res {
    let none = vec![];
    let reqs = c["reqs"].as_array().unwrap_or(&none);
    let mut segs = vec![];
    for i in 0..reqs.len() {
        segs.push(net::Seg::Wait(i + 1));
        segs.extend(net::cut(reqs[i]["answer"].as_str().unwrap_or("HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n").as_bytes(), &[]));
    }
    let rs: Vec<Value> = reqs.iter().enumerate().map(|(i, q)| { let mut q = q.clone(); q["uri"] = json!(format!("/{}", i)); q }).collect();
    let o = net::client(net::ScriptIo::new(segs, true), &json!({}), &json!(rs));
    let d = format!("requests {}: written {}", c["reqs"], show(&o.out));
    let mut b = &o.out[..];
    let mut i = 0;
    let mut open = true;
    while !b.is_empty() {
        let (p, used) = match net::read_msg(b, false, false) { Ok(Some(x)) => x, r => return Err(format!("{}: not a request at {} ({:?})", d, show(b), r.map(|_| ()))) };
        if !open { return Err(format!("{}: {} follows a request that is not complete", d, p.start)); }
        let Some(q) = reqs.get(i) else { return Err(format!("{}: more than was asked for", d)) };
        if !p.start.starts_with(&format!("{} /{} ", q["method"].as_str().unwrap_or("GET"), i)) { return Err(format!("{}: {} where request {} was due", d, p.start, i)); }
        let all = net::ScriptBody::total(&q["body"]);
        if !all.starts_with(&p.body) && !p.body.is_empty() { return Err(format!("{}: body {} of request {}", d, show(&p.body), i)); }
        let unknown = q["body"]["exact"].is_null();
        let lax = unknown && (p.start.ends_with("1.0") || matches!(q["method"].as_str().unwrap_or("GET"), "GET" | "HEAD" | "CONNECT"));
        if p.framing == "none" && !all.is_empty() && !lax { return Err(format!("{}: body of request {} has no delimiter", d, i)); }
        if p.framing == "chunked" && p.complete && p.body != all { return Err(format!("{}: body {} of request {}", d, show(&p.body), i)); }
        open = p.complete;
        b = &b[used..];
        i += 1;
    }
    Ok(i > 0)
}
pub fn one(c: &Value) -> Res { if c["mode"] == "conn" { conn(c) } else { direct(c) } }
pub fn run(cx: &mut Cx) {
    cx.rule("every field line of a pool around framing, every ordered pair, random longer heads, with all versions, methods and body sizes, through the head writer; and sequences of requests with such heads and real bodies on client connections, what is written being read back by an independent parser");
    let n = if cx.thorough { 40000 } else { 4000 };
    heads(cx, 11, n, |cx, l, r| {
        for version in ["1.1", "1.0"] { for body in [json!(null), json!("unknown"), json!(*r.pick(&[0u64, 5, 7]))] {
            let method = *r.pick(&["POST", "POST", "GET", "HEAD", "CONNECT", "PUT", "DELETE"]);
            cx.case(one, json!({"method": method, "version": if version == "1.1" && r.chance(10) { "2" } else { version }, "lines": l, "body": body, "title": r.chance(20)}));
        } }
        if r.chance(if cx.thorough { 60 } else { 25 }) || l.as_array().unwrap().len() < 2 {
            let mut reqs = vec![];
            for k in 0..2 {
                let ch: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&["hello", "some octets", "x"])).collect();
                let t: usize = ch.iter().map(|c| c.len()).sum();
                let lies = r.chance(10);
                reqs.push(json!({"method": *r.pick(&["POST", "PUT", "GET", "HEAD", "DELETE"]), "version": *r.pick(&["1.1", "1.1", "1.1", "1.0", "2"]), "headers": if k == 0 || r.chance(50) { l.clone() } else { json!([]) },
                    "body": {"chunks": ch, "exact": if r.chance(50) && !lies { json!(t) } else { json!(null) }, "eos": r.chance(70)},
                    "answer": if r.chance(15) { "HTTP/1.0 200 OK\r\nconnection: keep-alive\r\ncontent-length: 0\r\n\r\n" } else { "HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n" }}));
            }
            cx.case(one, json!({"mode": "conn", "reqs": reqs}));
        }
    });
}
