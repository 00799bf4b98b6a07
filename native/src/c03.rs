//! C03: Content-Length and close-delimited bodies.
use crate::c01;
use crate::common::*;
use crate::net;
use serde_json::{json, Value};

pub fn one(c: &Value) -> Res {
    let s = dec(&c["stream"]);
    let cuts = arr(&c["cuts"]);
    let kind = c["kind"].as_str().unwrap();
    let n = c["n"].as_str().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let d = format!("{} n={} stream of {} octets, fragments {:?}, via {}", kind, n, s.len(), cuts, c["via"]);
    let want: &[u8] = if kind == "length" { &s[..(n.min(s.len() as u64)) as usize] } else { &s };
    let complete = kind == "eof" || n <= s.len() as u64;
    match c["via"].as_str().unwrap_or("") {
        "" => {
            let g = c01::drive(kind, n, &s, &cuts, None, None)?;
            if g.data != want { return Err(format!("{}: delivered {}", d, show(&g.data))); }
            if g.used != want.len() { return Err(format!("{}: consumed {} octets", d, g.used)); }
            if complete != g.ended { return Err(format!("{}: ended={}", d, g.ended)); }
            if !complete && g.err != Some(std::io::ErrorKind::UnexpectedEof) { return Err(format!("{}: short body gave {:?}", d, g.err)); }
            if complete && g.err.is_some() { return Err(format!("{}: failed with {}", d, g.msg)); }
        }
        via => {
            let o = if via == "server" {
                let mut w = format!("POST /a HTTP/1.1\r\nhost: x\r\ncontent-length: {}\r\n\r\n", n).into_bytes();
                w.extend(&s);
                net::server(net::ScriptIo::new(net::cut(&w, &cuts), false), &json!({"half_close":true}), &json!([{"read":0}]))
            } else {
                let mut w = if kind == "length" { format!("HTTP/1.1 200 OK\r\ncontent-length: {}\r\n\r\n", n).into_bytes() } else { b"HTTP/1.1 200 OK\r\n\r\n".to_vec() };
                w.extend(&s);
                let mut segs = net::answer(1, &w, &cuts);
                if let Some(k) = c["io_err"].as_u64() { segs.push(net::Seg::ErrKind(k as usize)); }
                net::client(net::ScriptIo::new(segs, false), &json!({}), &json!([{"method":"GET","uri":"/"}]))
            };
            if o.msgs.is_empty() { return Err(format!("{}: not delivered", d)); }
            let m = &o.msgs[0];
            let complete = complete && !(kind == "eof" && c["io_err"].is_u64());
            if m.body != want { return Err(format!("{}: delivered {}", d, show(&m.body))); }
            if m.ended != complete { return Err(format!("{}: ended={} err={:?}", d, m.ended, m.err)); }
            if let Some(x) = &m.hint_bad { return Err(format!("{}: {}", d, x)); }
            if via == "server" && complete && c["next"].as_bool().unwrap_or(false) {
                if o.msgs.len() != 2 || o.msgs[1].start != "GET /b HTTP/1.1" { return Err(format!("{}: the octets after the body did not start the next request: {:?}", d, o.msgs.iter().map(|m| &m.start).collect::<Vec<_>>())); }
            }
        }
    }
    Ok(!s.is_empty() && n > 0)
}

pub fn run(cx: &mut Cx) {
    cx.rule("declared lengths 0..20 and near 2^64-2 against streams 0..24 octets long (exhaustive, several fragmentations), plus random larger ones; directly, and through client and server connections with a following request; close-delimited bodies ended cleanly and by a transport error");
    let next = b"GET /b HTTP/1.1\r\nhost: x\r\n\r\n";
    let data: Vec<u8> = (0..30u8).map(|i| b"abc\r\n0123;:X"[i as usize % 12]).collect();
    for n in 0..=20u64 {
        for l in 0..=24usize {
            for cuts in [json!([]), json!([1]), json!([0, 2]), json!([3, 0, 5])] {
                cx.case(one, json!({"kind":"length","n":n.to_string(),"stream":enc(&data[..l]),"cuts":cuts}));
                if n == 0 { cx.case(one, json!({"kind":"eof","stream":enc(&data[..l]),"cuts":cuts})); }
            }
        }
    }
    for big in [u64::MAX - 2, u64::MAX - 3, 1 << 63, 1 << 32, (1 << 32) - 1, (1 << 32) + 3] {
        for l in [0usize, 1, 3, 24] {
            cx.case(one, json!({"kind":"length","n":big.to_string(),"stream":enc(&data[..l]),"cuts":[5]}));
            for via in ["server", "client"] { cx.case(one, json!({"kind":"length","n":big.to_string(),"stream":enc(&data[..l]),"cuts":[5],"via":via})); }
        }
    }
    let mut r = cx.rng(3);
    for i in 0..if cx.thorough { 20000 } else { 2500 } {
        if cx.stop() { break; }
        let n = *r.pick(&[0usize, 1, 2, 3, 10, 100, 1000, 8191, 8192, 8193, 20000]);
        let n = if r.chance(50) { r.below(n + 1) } else { n };
        let full = r.chance(75);
        let l = if full { n } else { r.below(n + 1) };
        let mut s: Vec<u8> = (0..l).map(|_| *r.pick(b"GET / HTTP/1.1\r\n0aF\x00\xff")).collect();
        let via = *r.pick(&["", "server", "client"]);
        let mut nx = false;
        if full && (via == "server" || via.is_empty()) && r.chance(60) { s.extend_from_slice(next); nx = true; }
        if full && via == "client" && r.chance(20) { s.push(b'Z'); }
        let eof = via != "server" && r.chance(30);
        let cuts: Vec<usize> = c01::gen_cuts(&mut r).into_iter().map(|c| if n > 1000 && c > 0 { c * 50 } else { c }).collect();
        cx.case(one, json!({"kind": if eof {"eof"} else {"length"}, "n": n.to_string(), "stream": enc(&s), "cuts": cuts, "via": if via.is_empty() { Value::Null } else { json!(via) }, "next": nx, "io_err": if eof && i % 2 == 0 { json!(i / 2 % 14) } else { Value::Null }}));
    }
}
