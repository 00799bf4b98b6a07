//! C09: outbound trailers.
use crate::common::*;
use crate::net;
use http::HeaderName;
use hyper::verif::encode::VEncoder;
use serde_json::{json, Value};

const FORBIDDEN: &[&str] = &["authorization", "cache-control", "content-encoding", "content-length", "content-range", "content-type",
    "host", "max-forwards", "set-cookie", "te", "trailer", "transfer-encoding"];

fn expected(declared: &[String], t: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = t.iter().filter(|(n, _)| declared.iter().any(|d| d.eq_ignore_ascii_case(n)) && !FORBIDDEN.contains(&n.as_str())).cloned().collect();
    v.sort();
    v
}
fn names(c: &Value) -> Vec<String> {
    // how a Trailer header declares names: a comma list with blanks, over several fields
    let mut v = vec![];
    if let Some(a) = c["declare"].as_array() { for f in a { for p in f.as_str().unwrap().split(',') { let p = p.trim(); if !p.is_empty() { v.push(p.to_lowercase()); } } } }
    v
}
pub fn one(c: &Value) -> Res {
    let decl = names(c);
    let t = net::hmap(&c["trailers"]);
    let tl = net::hlist(&t);
    let want = expected(&decl, &tl);
    let title = c["title"].as_bool().unwrap_or(false);
    let d = format!("declared {}, trailers {:?}, {}", c["declare"], tl.iter().map(|(n, v)| format!("{}: {}", n, show(v))).collect::<Vec<_>>(), c["mode"]);
    match c["mode"].as_str().unwrap_or("") {
        "" => {
            let kind = c["kind"].as_str().unwrap_or("chunked");
            let mut e = match kind { "length" => VEncoder::length(5), "close" => VEncoder::close_delimited(), _ => VEncoder::chunked() };
            if !c["declare"].is_null() { e = e.trailing(decl.iter().filter_map(|n| HeaderName::from_bytes(n.as_bytes()).ok()).collect()); }
            let w = e.encode_trailers(t, title);
            if kind != "chunked" || c["declare"].is_null() || want.is_empty() {
                if w.is_some() { return Err(format!("{}: wrote {} on a {} body", d, show(&w.unwrap()), kind)); }
                return Ok(!tl.is_empty());
            }
            let w = match w { Some(w) => w, None => return Err(format!("{}: trailers were dropped", d)) };
            let mut m = b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
            m.extend(&w);
            check(&d, &m, true, &[], &want, title)?;
        }
        m => {
            let server = m == "server";
            let mut hdrs: Vec<Value> = vec![];
            if c["te_first"].as_bool().unwrap_or(false) && !c["cl"].as_bool().unwrap_or(false) { hdrs.push(json!(["transfer-encoding", "chunked"])); }
            if let Some(a) = c["declare"].as_array() { for f in a { hdrs.push(json!(["trailer", f])); } }
            let cl = c["cl"].as_bool().unwrap_or(false);
            if cl { hdrs.push(json!(["content-length", "3"])); }
            let body = json!({"chunks": ["abc"], "trailers": c["trailers"]});
            let te = c["te"].as_str().unwrap_or("");
            let o = if server {
                let q = format!("GET /a HTTP/1.1\r\nhost: x\r\n{}\r\n", if te.is_empty() { "".to_string() } else { format!("te: {}\r\n", te) });
                net::server(net::ScriptIo::new(net::cut(q.as_bytes(), &[]), false), &json!({"half_close": true, "title_case": title}), &json!([{"headers": hdrs, "body": body}]))
            } else {
                net::client(net::ScriptIo::new(vec![net::Seg::Pending], true), &json!({"title_case": title}), &json!([{"method":"POST","uri":"/a","headers": hdrs, "body": body}]))
            };
            let accepts = !server || te.split(',').any(|x| x.split(';').next().unwrap().trim().eq_ignore_ascii_case("trailers"));
            let none: Vec<(String, Vec<u8>)> = vec![];
            let want = if cl || !accepts { &none } else { &want };
            if cl {
                // no trailer section at all on a length-delimited body
                match net::read_msg(&o.out, server, false) {
                    Ok(Some((p, used))) if p.framing == "length" => { if used != o.out.len() || p.body != b"abc" { return Err(format!("{}: octets after a length-delimited body: {}", d, show(&o.out[used..]))); } }
                    x => return Err(format!("{}: {:?}", d, x.err())),
                }
            } else { check(&d, &o.out, server, b"abc", want, title)?; }
        }
    }
    Ok(!tl.is_empty())
}
fn check(d: &str, m: &[u8], resp: bool, body: &[u8], want: &[(String, Vec<u8>)], title: bool) -> Result<(), String> {
    match net::read_msg(m, resp, false) {
        Ok(Some((p, used))) if p.complete => {
            if p.body != body { return Err(format!("{}: body {}", d, show(&p.body))); }
            let mut got = p.trailers.clone();
            got.sort();
            if got != want { return Err(format!("{}: sent {:?}, expected {:?}", d, got, want)); }
            if used != m.len() { return Err(format!("{}: octets after the message: {}", d, show(&m[used..]))); }
            if title { let _ = 0; }
            Ok(())
        }
        Ok(_) => Err(format!("{}: message is not complete: {}", d, show(m))),
        Err(e) => Err(format!("{}: {}: {}", d, e, show(m))),
    }
}
pub fn run(cx: &mut Cx) {
    cx.rule("every standard field name and a few custom ones as trailer, declared or not, in every letter case; multi-valued, several Trailer fields, list syntaxes with blanks and empty members; chunked, length and close-delimited bodies; encoder alone and through server (with and without TE: trailers) and client connections; random combinations");
    let pool = ["accept", "age", "etag", "x-a", "x-b", "x-checksum", "date", "server", "expires", "vary", "via", "warning", "cookie", "location", "link", "connection", "keep-alive",
        "proxy-connection", "upgrade", "range", "if-match", "content-language", "content-location", "content-disposition", "proxy-authorization", "www-authenticate", "expect", "pragma", "last-modified"];
    let all: Vec<&str> = pool.iter().chain(FORBIDDEN.iter()).cloned().collect();
    for n in &all {
        for (i, decl) in [json!([n]), json!([n.to_uppercase()]), json!(["x-z", n]), json!([format!("x-y , {} ,", n)]), json!([]), json!(["x-z"]), Value::Null].iter().enumerate() {
            let t = json!([[n, "v1"], ["x-z", "v2"], [n, "v3"], ["x-y", ""]]);
            for kind in ["chunked", "length", "close"] { cx.case(one, json!({"declare": decl, "trailers": t, "kind": kind, "title": i % 2 == 0})); }
            for m in ["server", "client"] {
                cx.case(one, json!({"declare": decl, "trailers": t, "mode": m, "te": "trailers", "title": i % 2 == 0}));
                cx.case(one, json!({"declare": decl, "trailers": t, "mode": m, "te": "trailers", "te_first": true}));
            }
            cx.case(one, json!({"declare": decl, "trailers": t, "mode": "server", "te": ""}));
            cx.case(one, json!({"declare": decl, "trailers": t, "mode": "server", "te": "deflate"}));
            cx.case(one, json!({"declare": decl, "trailers": t, "mode": "server", "te": "trailers", "cl": true}));
            cx.case(one, json!({"declare": decl, "trailers": t, "mode": "client", "cl": true}));
        }
    }
    let mut r = cx.rng(9);
    for i in 0..if cx.thorough { 20000 } else { 2500 } {
        if cx.stop() { break; }
        let t: Vec<Value> = (0..r.below(6)).map(|_| { let n = *r.pick(&all); let l = r.below(5); let v: Vec<u8> = (0..l).map(|_| *r.pick(b"abc:,0\x80 x")).collect(); let v = String::from_utf8_lossy(&v).trim().to_string(); json!([n, v]) }).collect();
        let decl: Vec<Value> = (0..r.below(4)).map(|_| {
            let parts: Vec<String> = (0..1 + r.below(3)).map(|_| { let n = if t.is_empty() || r.chance(40) { r.pick(&all).to_string() } else { let k = r.below(t.len()); t[k][0].as_str().unwrap().to_string() }; if r.chance(30) { n.to_uppercase() } else { n } }).collect();
            json!(parts.join(*r.pick(&[",", ", ", " , "])))
        }).collect();
        let te = *r.pick(&["trailers", "trailers", "deflate, trailers", "", "gzip"]);
        cx.case(one, json!({"declare": decl, "trailers": t, "mode": (["", "server", "client"])[i % 3], "te": te, "title": r.chance(40), "te_first": r.chance(30), "cl": r.chance(10),
            "kind": *r.pick(&["chunked", "chunked", "length", "close"])}));
    }
}
