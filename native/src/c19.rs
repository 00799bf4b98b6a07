//! C19: no connection headers over HTTP/2.
use crate::common::*;
use crate::h2net;
use crate::net::{hlist, hmap};
use serde_json::{json, Value};

type L = Vec<(String, Vec<u8>)>;
const FIXED: [&str; 5] = ["connection", "keep-alive", "proxy-connection", "transfer-encoding", "upgrade"];
fn trim(mut v: &[u8]) -> &[u8] {
    while let [32 | 9, r @ ..] = v { v = r; }
    while let [r @ .., 32 | 9] = v { v = r; }
    v
}
/// what has to be gone, and what is left, each name's values in order
fn want(h: &L, request: bool) -> L {
    let mut gone: Vec<String> = FIXED.iter().map(|s| s.to_string()).collect();
    for (n, v) in h { if n == "connection" { for m in v.split(|b| *b == b',') { gone.push(String::from_utf8_lossy(trim(m)).to_lowercase()); } } }
    if !request || h.iter().any(|(n, v)| n == "te" && v != b"trailers") { gone.push("te".into()); }
    let mut l: L = h.iter().filter(|(n, _)| !gone.contains(n)).cloned().collect();
    l.sort_by(|a, b| a.0.cmp(&b.0));
    l
}
fn sorted(mut l: L) -> L { l.sort_by(|a, b| a.0.cmp(&b.0)); l }
fn diff(d: &str, got: &L, want: &L) -> Result<(), String> {
    for x in got { if !want.contains(x) { return Err(format!("{}: {}: {} is sent", d, x.0, show(&x.1))); } }
    for x in want { if !got.contains(x) { return Err(format!("{}: {}: {} is not sent", d, x.0, show(&x.1))); } }
    if got != want { return Err(format!("{}: fields sent {:?}, expected {:?}", d, got.iter().map(|x| format!("{}: {}", x.0, show(&x.1))).collect::<Vec<_>>(), want.iter().map(|x| format!("{}: {}", x.0, show(&x.1))).collect::<Vec<_>>())); }
    Ok(())
}
pub fn one(c: &Value) -> Res {
    let m = hmap(&c["headers"]);
    let h = hlist(&m);
    let lines = h.iter().map(|x| format!("{}: {}", x.0, show(&x.1))).collect::<Vec<_>>().join(" | ");
    for request in [true, false] {
        let mut g = m.clone();
        hyper::verif::h2::strip(&mut g, request);
        diff(&format!("{} with {}", if request { "request" } else { "response" }, lines), &sorted(hlist(&g)), &want(&h, request))?;
    }
    if c["wire"].as_bool().unwrap_or(false) {
        let cap = us(&c["cap"]).max(1);
        let body = if c["body"] == true && c["connect"] != true { json!({"chunks": [enc(b"abc"), null, enc(b"de")], "exact": 5}) } else { json!({"chunks": [], "eos": true, "exact": 0}) };
        let rm = hmap(&c["rheaders"]);
        let (s, g) = h2net::exchange(cap, &json!({"method": if c["connect"] == true { "CONNECT" } else if c["body"] == true { "POST" } else { "GET" }, "uri": if c["connect"] == true { "h.example:80" } else { "http://h/x" }, "headers": c["headers"], "body": body}), &json!({"headers": c["rheaders"], "body": body, "status": if c["connect"] == true || !c["status"].is_u64() { json!(200) } else { c["status"].clone() }}));
        let d = format!("request over HTTP/2 with {}", lines);
        let drop = |l: &L| -> L { sorted(l.iter().filter(|x| x.0 != "content-length" && x.0 != "date" && x.0 != "host").cloned().collect()) };
        match s { None => return Err(format!("{}: it never arrived ({:?})", d, g.err())), Some(s) => diff(&d, &drop(&s.headers), &drop(&want(&h, true)))? }
        let rl = hlist(&rm);
        let d = format!("response over HTTP/2 with {}", rl.iter().map(|x| format!("{}: {}", x.0, show(&x.1))).collect::<Vec<_>>().join(" | "));
        match g { Err(e) => return Err(format!("{}: it never arrived: {}", d, e)), Ok(s) => diff(&d, &drop(&s.headers), &drop(&want(&rl, false)))? }
    }
    Ok(h.iter().any(|x| FIXED.contains(&&x.0[..]) || x.0 == "te"))
}
fn line(n: &str, v: &[u8]) -> Value { json!([enc(n.as_bytes()), enc(v)]) }
pub fn run(cx: &mut Cx) {
    cx.rule("header maps with the connection fields, Connection lists in one or several lines naming present and absent fields (case, blanks, empty members, non-ASCII neighbours), TE with one or several values; each map stripped as a request and as a response, and a part of them sent by a real HTTP/2 client and answered by a real server");
    const NAMES: [&str; 16] = ["connection", "connection", "connection", "keep-alive", "proxy-connection", "transfer-encoding", "upgrade", "te", "te", "x-a", "x-b", "x-a", "host", "cookie", "x-long-name-field", "trailer"];
    const TEV: [&[u8]; 8] = [b"trailers", b"trailers", b"gzip", b"Trailers", b"trailers, gzip", b"", b"trailers;q=1", b" trailers"];
    const TOK: [&str; 14] = ["x-a", "x-b", "X-A", "close", "keep-alive", "te", "upgrade", "", "cookie", "x-long-name-field", "trailer", "\u{e9}", "not there", "connection"];
    let mk = |r: &mut Rng| -> Value {
        let n = r.below(7);
        json!((0..n).map(|i| {
            let nm = *r.pick(&NAMES);
            let v: Vec<u8> = match nm {
                "connection" => {
                    let mut v = vec![];
                    for k in 0..r.range(1, 3) {
                        if k > 0 { v.push(b','); }
                        for _ in 0..r.below(3) { v.push(*r.pick(b" \t ")); }
                        if r.chance(5) { v.push(0xff); }
                        v.extend(r.pick(&TOK).as_bytes());
                        for _ in 0..r.below(2) { v.push(*r.pick(b" \t")); }
                    }
                    v
                }
                "te" => r.pick(&TEV).to_vec(),
                _ => format!("v{}", i).into_bytes(),
            };
            line(nm, &v)
        }).collect::<Vec<_>>())
    };
    for a in TEV { cx.case(one, json!({"headers": [line("te", a)], "rheaders": [line("te", a)], "wire": true, "cap": 4096})); for b in TEV { cx.case(one, json!({"headers": [line("te", a), line("te", b), line("x-a", b"1")]})); } }
    for a in TOK { for b in TOK {
        let all = |x: &[u8], y: Option<&[u8]>| { let mut v = vec![line("connection", x)]; if let Some(y) = y { v.push(line("connection", y)); } for n in ["x-a", "x-b", "cookie", "te", "trailer", "x-long-name-field", "x-a"] { v.push(line(n, if n == "te" { b"trailers" } else { b"v" })); } json!(v) };
        let one_line = format!("{}, {}", a, b);
        let l = all(one_line.as_bytes(), None);
        cx.case(one, json!({"headers": l, "rheaders": l, "wire": true, "cap": 4096}));
        let l = all(a.as_bytes(), Some(b.as_bytes()));
        cx.case(one, json!({"headers": l, "rheaders": l, "wire": true, "cap": 4096, "body": true}));
    } }
    for n in FIXED { let l = json!([line("x-a", b"1"), line(n, b"x"), line("x-b", b"2"), line(n, b"y")]); cx.case(one, json!({"headers": l, "rheaders": l, "wire": true, "cap": 7})); cx.case(one, json!({"headers": l, "rheaders": l, "wire": true, "cap": 700, "connect": true})); }
    let mut r = cx.rng(19);
    for _ in 0..if cx.thorough { 300000 } else { 30000 } {
        let (a, b) = (mk(&mut r), mk(&mut r));
        cx.case(one, json!({"headers": a, "rheaders": b, "wire": r.chance(4), "cap": *r.pick(&[1usize, 9, 64, 5000]), "body": r.chance(50), "connect": r.chance(10), "status": *r.pick(&[200u64, 404, 302, 500])}));
    }
}
