//! C21: reason phrases.
use crate::common::*;
use crate::net;
use bytes::Bytes;
use hyper::ext::ReasonPhrase;
use serde_json::{json, Value};

fn ok(b: &[u8]) -> bool { b.iter().all(|c| *c == 9 || *c == 32 || (0x21..=0x7e).contains(c) || *c >= 0x80) }
pub fn one(c: &Value) -> Res {
    let b = dec(&c["phrase"]);
    let want = ok(&b);
    let d = format!("reason phrase {}", show(&b));
    let mut made: Vec<(&str, Option<ReasonPhrase>)> = vec![
        ("try_from(&[u8])", ReasonPhrase::try_from(&b[..]).ok()),
        ("try_from(Vec)", ReasonPhrase::try_from(b.clone()).ok()),
        ("try_from(Bytes)", ReasonPhrase::try_from(Bytes::from(b.clone())).ok()),
    ];
    if let Ok(s) = String::from_utf8(b.clone()) { made.push(("try_from(String)", ReasonPhrase::try_from(s).ok())); }
    if c["fixed"].as_bool().unwrap_or(false) {
        let l: &'static [u8] = Box::leak(b.clone().into_boxed_slice());
        made.push(("from_static", std::panic::catch_unwind(|| ReasonPhrase::from_static(l)).ok()));
    }
    for (how, m) in made {
        match m {
            Some(p) => {
                if !want { return Err(format!("{}: {} takes it", d, how)); }
                if p.as_bytes() != &b[..] || AsRef::<[u8]>::as_ref(&p) != &b[..] || &Bytes::from(p.clone())[..] != &b[..] { return Err(format!("{}: {} holds {}", d, how, show(p.as_bytes()))); }
            }
            None => if want { return Err(format!("{}: {} refuses it", d, how)); },
        }
    }
    if c["wire"].as_bool().unwrap_or(false) {
        let st = c["status"].as_u64().unwrap_or(200);
        let o = net::server(net::ScriptIo::new(net::cut(b"GET / HTTP/1.1\r\nhost: x\r\n\r\n", &[]), true), &json!({}), &json!([{"reason": enc(&b), "status": st}]));
        if want {
            let mut l = format!("HTTP/1.1 {} ", st).into_bytes();
            l.extend(&b);
            l.extend(b"\r\n");
            if !o.out.starts_with(&l) { return Err(format!("{}: status line written {}", d, show(&o.out[..o.out.len().min(60)]))); }
            if !matches!(net::read_msg(&o.out, true, st == 204 || st == 304), Ok(Some((ref p, n))) if n == o.out.len() && p.headers.iter().any(|h| h.0 == "date")) { return Err(format!("{}: head written {}", d, show(&o.out))); }
        }
        // and read back by a client
        let mut r = format!("HTTP/1.1 {} ", st).into_bytes();
        r.extend(&b);
        r.extend(b"\r\ncontent-length: 0\r\n\r\n");
        let o = net::client(net::ScriptIo::new(net::answer(1, &r, &[]), true), &json!({}), &json!([{"uri": "/a", "raw_reason": true}]));
        let canon = http::StatusCode::from_u16(st as u16).unwrap().canonical_reason().unwrap_or("").as_bytes().to_vec();
        if let Some(m) = o.msgs.get(0) {
            if let Some(g) = &m.reason {
                if want && b.iter().all(|c| *c < 0x80) && g != &b { return Err(format!("{}: read back as {}", d, show(g))); }
                if !ok(g) { return Err(format!("{}: an invalid phrase was handed to the caller", d)); }
            } else if want && !b.is_empty() && b != canon { return Err(format!("{}: not handed to the caller", d)); }
        } else if want && !b.starts_with(b" ") && !b.starts_with(b"\t") { return Err(format!("{}: response refused {:?}", d, o.send_err)); }
    }
    Ok(true)
}
pub fn run(cx: &mut Cx) {
    cx.rule("every single octet and every pair of octets at either end and in the middle of a phrase, through every checked constructor; all lengths up to 70 with one bad octet at every position; the constructors' phrases written by a server and read by a client");
    for n in 0..70usize { cx.case(one, json!({"phrase": enc(&vec![b'a'; n]), "fixed": true})); for i in 0..n { for x in [0u8, 10, 13, 127, 31, 9, 128, 255] { let mut v = vec![b'a'; n]; v[i] = x; cx.case(one, json!({"phrase": enc(&v), "fixed": n % 8 == 0})); } } }
    for a in 0..=255u8 {
        for w in [vec![a], vec![b'O', a, b'K'], vec![a, b'x'], vec![b'x', a]] { cx.case(one, json!({"phrase": enc(&w), "fixed": true, "wire": true})); }
        for b in 0..=255u8 { cx.case(one, json!({"phrase": enc(&[a, b])})); cx.case(one, json!({"phrase": enc(&[b'a', a, b'b', b, b'c'])})); }
    }
    for st in [200u64, 204, 304, 404, 500, 599, 799] { for p in [&b""[..], b"OK", b"Not Found", b"No Content", b"a\tb", b"x y z ", b"\xe9t\xe9", b"200 OK"] { cx.case(one, json!({"phrase": enc(p), "wire": true, "status": st})); } }
    let mut r = cx.rng(21);
    for _ in 0..if cx.thorough { 200000 } else { 20000 } {
        let v: Vec<u8> = (0..r.below(40)).map(|_| if r.chance(97) { r.range(32, 126) as u8 } else { r.below(256) as u8 }).collect();
        cx.case(one, json!({"phrase": enc(&v), "wire": r.chance(5), "fixed": r.chance(5)}));
    }
}
