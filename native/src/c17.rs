//! C17: head parsing and fragmentation.
use crate::common::*;
use crate::net;
use hyper::verif::role as v;
use serde_json::{json, Value};

/// is there a blank line after something
fn ended(b: &[u8]) -> bool {
    let s = b.iter().position(|c| *c != b'\r' && *c != b'\n').unwrap_or(b.len());
    b[s..].windows(2).any(|w| w == b"\n\n") || b[s..].windows(3).any(|w| w == b"\n\r\n")
}
/// one head (and whatever follows), cut at the given positions
pub fn one(c: &Value) -> Res {
    let b = dec(&c["octets"]);
    let cuts = arr(&c["cuts"]);
    let who = c["who"].as_str().unwrap_or("");
    let d = format!("{} {} arriving cut at {}", who, show(&b), c["cuts"]);
    let method = c["method"].as_str().unwrap_or("GET");
    if c["direct"].as_bool().unwrap_or(false) {
        let parse = |x: &[u8], prev: Option<usize>| if who == "server" { v::server_parse(x, prev, None) } else { v::client_parse(x, prev, Some(method), c["fold"].as_bool().unwrap_or(false)) };
        let whole = parse(&b, None);
        let mut prev = None;
        let mut ends = cuts.clone();
        ends.push(b.len());
        for e in ends {
            if e == 0 || e > b.len() { continue; }
            let plain = parse(&b[..e], None);
            let seq = parse(&b[..e], prev);
            match (&plain, &seq) {
                (Err(_), Ok(None)) if e < b.len() || !ended(&b) => {}
                (p, s) if p == s => {}
                _ => return Err(format!("{}: with the first {} octets there, parsed to {:?}, without the history to {:?}", d, e, seq, plain)),
            }
            match seq {
                Ok(None) => prev = Some(e),
                Ok(Some(h)) => {
                    // same head, same octets unread
                    let mut h = h;
                    h.rest.extend_from_slice(&b[e..]);
                    if Ok(Some(h.clone())) != whole { return Err(format!("{}: parsed to {:?}, in one piece to {:?}", d, h, whole)); }
                    return Ok(true);
                }
                Err(_) => { if whole.is_ok() { return Err(format!("{}: refused after {} octets, in one piece taken", d, e)); } return Ok(true); }
            }
        }
        if whole.is_err() && !ended(&b) { return Ok(true); }
        if whole != Ok(None) { return Err(format!("{}: left waiting, in one piece parsed to {:?}", d, whole)); }
        return Ok(b.len() > 4);
    }
    let run = |mut segs: Vec<net::Seg>| {
        segs.retain(|s| !matches!(s, net::Seg::Data(d) if d.is_empty()));
        let o = json!({"obs_fold": c["fold"]});
        if who == "server" { net::server(net::ScriptIo::new(segs, true), &o, &json!([{}])) } else {
            let mut s = vec![net::Seg::Wait(1)];
            s.extend(segs);
            net::client(net::ScriptIo::new(s, true), &o, &json!([{"uri": "/a", "method": method}, {"uri": "/b", "method": method}]))
        }
    };
    let view = |o: &net::Out| (o.msgs.iter().map(|m| (m.start.clone(), m.headers.clone(), m.body.clone(), m.trailers.clone(), m.ended)).collect::<Vec<_>>(), matches!(o.result, Some(Err(_))), o.result.is_some(), o.send_err.is_empty());
    let whole = run(vec![net::Seg::Data(b.clone())]);
    let mut segs = vec![];
    let mut last = 0;
    for e in cuts.iter().cloned().chain([b.len()]) {
        if e <= last || e > b.len() { continue; }
        segs.push(net::Seg::Data(b[last..e].to_vec()));
        if c["pend"].as_bool().unwrap_or(true) { segs.push(net::Seg::Pending); }
        last = e;
    }
    let cut = run(segs);
    if view(&whole) != view(&cut) && !c["bad"].as_bool().unwrap_or(false) { return Err(format!("{}: in one piece {:?}, cut {:?}", d, view(&whole), view(&cut))); }
    if c["bad"].as_bool().unwrap_or(false) && view(&whole).0 != view(&cut).0 { return Err(format!("{}: in one piece {:?}, cut {:?}", d, view(&whole), view(&cut))); }
    // a head that is not completely there is not acted on
    let end = us(&c["end"]);
    if end > 0 {
        let at = cuts.get(0).cloned().unwrap_or(0);
        let part = run(vec![net::Seg::Data(b[..at.min(end - 1)].to_vec())]);
        if !part.msgs.is_empty() { return Err(format!("{}: acted on after only {} of {} octets of the head", d, at.min(end - 1), end)); }
        if whole.msgs.is_empty() && !c["bad"].as_bool().unwrap_or(false) { return Err(format!("{}: complete head not acted on ({:?})", d, whole.result)); }
        let just = run(vec![net::Seg::Data(b[..at.min(end)].to_vec()), net::Seg::Pending, net::Seg::Data(b[at.min(end)..end].to_vec())]);
        if just.msgs.is_empty() && !c["bad"].as_bool().unwrap_or(false) { return Err(format!("{}: complete head left waiting after {} octets", d, end)); }
    }
    Ok(true)
}
fn heads(r: &mut Rng) -> (bool, Vec<u8>, usize, bool, &'static str) {
    let server = r.chance(50);
    let nl = |r: &mut Rng, m: usize| -> &'static [u8] { match m { 0 => b"\r\n", 1 => b"\n", _ => if r.chance(50) { b"\r\n" } else { b"\n" } } };
    let m = r.below(3);
    let mut b = vec![];
    let method = *r.pick(&["GET", "HEAD", "POST"]);
    let mut fold = false;
    let block = |r: &mut Rng, b: &mut Vec<u8>, fold: &mut bool| {
        for _ in 0..r.below(3) {
            b.extend(r.pick(&[&b"x: y"[..], b"a:", b"abc: d e", b"n: \t1 ", b"h:\xe9"]).to_vec());
            if !server && r.chance(15) { *fold = true; b.extend(nl(r, m)); b.extend(r.pick(&[&b" z"[..], b"\t", b"  "]).to_vec()); }
            b.extend(nl(r, m));
        }
    };
    if server {
        for _ in 0..r.below(3) { b.extend(nl(r, m)); }
        b.extend(r.pick(&[&b"GET / HTTP/1.1"[..], b"POST /p HTTP/1.0", b"X * HTTP/1.1"]).to_vec());
        b.extend(nl(r, m));
        block(r, &mut b, &mut fold);
        if r.chance(40) { b.extend(b"content-length: 3"); b.extend(nl(r, m)); }
        b.extend(nl(r, m));
        let end = b.len();
        if r.chance(60) { b.extend(r.pick(&[&b"abc"[..], b"\r\n", b"GET /2 HTTP/1.1\r\n\r\n", b"\n\n", b"abcGET /2 HTTP/1.1\r\nq: 1\r\n\r\n"]).to_vec()); }
        (true, b, end, fold, method)
    } else {
        for _ in 0..if r.chance(30) { 1 + r.below(2) } else { 0 } {
            b.extend(r.pick(&[&b"HTTP/1.1 100 Continue"[..], b"HTTP/1.1 103 H", b"HTTP/1.1 100"]).to_vec());
            b.extend(nl(r, m));
            block(r, &mut b, &mut fold);
            b.extend(nl(r, m));
        }
        b.extend(r.pick(&[&b"HTTP/1.1 200 OK"[..], b"HTTP/1.1 204", b"HTTP/1.0 404 no such", b"HTTP/1.1 200 ", b"HTTP/1.1 304 x"]).to_vec());
        b.extend(nl(r, m));
        block(r, &mut b, &mut fold);
        if r.chance(60) { b.extend(b"content-length: 3"); b.extend(nl(r, m)); } else if r.chance(40) && !b.windows(8).any(|w| w == b"HTTP/1.0") { b.extend(b"transfer-encoding: chunked"); b.extend(nl(r, m)); }
        b.extend(nl(r, m));
        let end = b.len();
        if r.chance(60) { b.extend(r.pick(&[&b"abc"[..], b"\r\n", b"3\r\nabc\r\n0\r\n\r\n", b"abcHTTP/1.1 204\r\n\r\n", b"\n\n"]).to_vec()); }
        (false, b, end, fold, method)
    }
}
pub fn run(cx: &mut Cx) {
    cx.rule("request and response heads with CRLF, LF and mixed line ends, leading blank lines, empty values, folded lines, interim responses and following octets: every cut and every pair of cuts through the parser with its memory of the incomplete length, every cut and random cut lists through connections; malformed heads");
    let fixed: &[(&str, &[u8])] = &[
        ("server", b"GET / HTTP/1.1\r\n\r\n"), ("server", b"GET / HTTP/1.1\n\n"), ("server", b"\r\n\n\r\nGET / HTTP/1.1\r\na: b\r\n\n"), ("server", b"GET / HTTP/1.1\na: b\r\n\r\nrest\r\n\r\n"),
        ("server", b"GET / HTTP/1.1\r\na: b\n\r\n"), ("server", b"\n\nGET / HTTP/1.1\n\n\n"), ("server", b"POST / HTTP/1.1\r\ncontent-length: 4\r\n\r\n\r\n\r\n"),
        ("client", b"HTTP/1.1 200 OK\r\n\r\n"), ("client", b"HTTP/1.1 200 OK\n\n"), ("client", b"HTTP/1.1 200\r\na:\r\n\n"), ("client", b"HTTP/1.1 204 \n\r\n\r\n"), ("client", b"HTTP/1.1 200 OK\r\nx: 1\r\n y\r\n\r\n\n"),
        ("server", b"G@T / HTTP/1.1\r\n\r\n"), ("server", b"GET / HTTP/1.1\r\na b\r\n\r\n"), ("server", b"GET / HTTP/1.1\r\ncontent-length: x\r\n\r\n"), ("client", b"HTTP/1.1 2x0 OK\r\n\r\n"), ("client", b"HTTP/1.1 200 OK\r\ncontent-length: 1\r\ncontent-length: 2\r\n\r\n"),
        ("server", b"\r\n\r\n"), ("client", b"\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"), ("server", b"GET / HTTP/1.1\r\r\n\r\n"), ("server", b"GET / HTTP/1.1\r\na: b\r\r\n\r\n"), ("server", b"\r\r\n\r\nGET / HTTP/1.1\r\n\r\n"),
    ];
    for (who, b) in fixed {
        for i in 0..=b.len() { for j in i..=b.len() {
            cx.case(one, json!({"who": who, "octets": enc(b), "cuts": [i, j], "direct": true, "fold": true}));
            for k in 1..4 { cx.case(one, json!({"who": who, "octets": enc(b), "cuts": (i..=j).step_by(k).collect::<Vec<_>>(), "direct": true, "fold": true})); }
        } }
    }
    let mut r = cx.rng(17);
    for n in 0..if cx.thorough { 6000 } else { 700 } {
        if cx.stop() { break; }
        let (server, mut b, mut end, fold, method) = heads(&mut r);
        let who = if server { "server" } else { "client" };
        let mut bad = false;
        if r.chance(15) { let i = r.below(end); b[i] = *r.pick(b"\r\n\0 :x\xff"); bad = true; end = 0; }
        let interim = b.windows(10).any(|w| w == b"HTTP/1.1 1");
        if !interim {
            for i in 1..b.len() { cx.case(one, json!({"who": who, "octets": enc(&b), "cuts": [i], "direct": true, "fold": fold, "method": method})); }
            for _ in 0..20 { let mut v: Vec<usize> = (0..2 + r.below(6)).map(|_| r.below(b.len() + 1)).collect(); v.sort(); cx.case(one, json!({"who": who, "octets": enc(&b), "cuts": v, "direct": true, "fold": fold, "method": method})); }
            cx.case(one, json!({"who": who, "octets": enc(&b), "cuts": (1..b.len()).collect::<Vec<_>>(), "direct": true, "fold": fold, "method": method}));
        }
        let base = json!({"who": who, "octets": enc(&b), "fold": fold, "method": method, "bad": bad, "end": end});
        for i in 1..b.len() { if n % 2 == 0 || r.chance(20) { let mut c = base.clone(); c["cuts"] = json!([i]); c["pend"] = json!(r.chance(50)); cx.case(one, c); } }
        for _ in 0..6 { let mut v: Vec<usize> = (0..2 + r.below(6)).map(|_| r.below(b.len() + 1)).collect(); v.sort(); let mut c = base.clone(); c["cuts"] = json!(v); c["pend"] = json!(r.chance(50)); cx.case(one, c); }
        for k in [1usize, 2, 3] { let mut c = base.clone(); c["cuts"] = json!((1..b.len()).step_by(k).collect::<Vec<_>>()); cx.case(one, c); }
    }
}
