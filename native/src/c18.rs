//! C18: the size an incoming body reports.
use crate::common::*;
use crate::{h2net, net};
use serde_json::{json, Value};

fn h2check(d: &str, s: &h2net::Seen, announced: Option<u64>, body: bool) -> Result<(), String> {
    if let Some(b) = &s.hint_bad { return Err(format!("{}: {}", d, b)); }
    let first = if s.hint.1 == Some(s.hint.0) { Some(s.hint.0) } else { None };
    match (announced, first) {
        (Some(n), Some(m)) if body && n != m => return Err(format!("{}: {} octets announced in the head, {} reported", d, n, m)),
        (Some(n), None) if body => return Err(format!("{}: {} octets announced in the head, none reported", d, n)),
        _ => {}
    }
    if s.ended { if let Some(m) = first { if m != s.body.len() as u64 { return Err(format!("{}: {} octets reported, {} delivered, and the body ended", d, m, s.body.len())); } } }
    if first.is_none() && s.hint.1.is_some() { return Err(format!("{}: upper bound {:?} for a body of unknown length", d, s.hint.1)); }
    Ok(())
}
pub fn one(c: &Value) -> Res {
    let cap = us(&c["cap"]).max(1);
    match c["kind"].as_str().unwrap_or("") {
        // a real exchange over HTTP/2
        "pair" => {
            let (s, g) = h2net::exchange(cap, &c["req"], &c["resp"]);
            let ann = |l: &[(String, Vec<u8>)]| l.iter().find(|x| x.0 == "content-length").and_then(|x| std::str::from_utf8(&x.1).ok()).and_then(|x| x.parse::<u64>().ok());
            if let Some(s) = &s { h2check(&format!("HTTP/2 request {}", c["req"]), s, ann(&s.headers), true)?; }
            if let Ok(g) = &g { h2check(&format!("HTTP/2 response {} to {}", c["resp"], c["req"]["method"]), g, ann(&g.headers), c["req"]["method"] != "HEAD" && us(&c["resp"]["status"]) != 304 && us(&c["resp"]["status"]) != 204)?; }
            Ok(s.is_some() && g.is_ok())
        }
        // frames from a peer that is not hyper
        "rs" => {
            let m = c["method"].as_str().unwrap_or("GET");
            match h2net::raw_server(cap, m, &c["frames"]) {
                Ok(g) => { h2check(&format!("HTTP/2 {} answered by the frames {}", m, c["frames"]), &g, c["n"].as_u64(), c["body"] == true)?; Ok(g.ended || g.err.is_some()) }
                Err(_) => Ok(false),
            }
        }
        "rc" => {
            match h2net::raw_client(cap, &c["frames"]) {
                Some(g) => { h2check(&format!("HTTP/2 request of the frames {}", c["frames"]), &g, c["n"].as_u64(), true)?; Ok(g.ended || g.err.is_some()) }
                None => Ok(false),
            }
        }
        // HTTP/1
        k => {
            let b = dec(&c["octets"]);
            let segs = net::cut(&b, &arr(&c["cuts"]));
            let o = if k == "s1" { net::server(net::ScriptIo::new(segs, false), &json!({"half_close": true}), &json!([{"read": c["read"]}])) } else {
                let mut s = vec![net::Seg::Wait(1)];
                s.extend(segs);
                net::client(net::ScriptIo::new(s, false), &json!({}), &json!([{"method": c["method"], "read": c["read"]}]))
            };
            let d = format!("{} {} cut at {}", if k == "s1" { "request".to_string() } else { format!("response to {}", c["method"]) }, show(&b), c["cuts"]);
            let m = match o.msgs.get(0) { Some(m) => m, None => return Ok(false) };
            if let Some(x) = &m.hint_bad { return Err(format!("{}: {}", d, x)); }
            match c["n"].as_u64() {
                Some(n) => {
                    if m.hint != (n, Some(n)) { return Err(format!("{}: {} octets announced in the head, {:?} reported", d, n, m.hint)); }
                    if m.eos0 && n > 0 { return Err(format!("{}: {} octets announced, but the body says it has ended", d, n)); }
                    if m.ended && m.body.len() as u64 != n { return Err(format!("{}: {} octets announced, {} delivered, and the body ended", d, n, m.body.len())); }
                }
                None => if m.hint.1.is_some() || m.eos0 { return Err(format!("{}: of unknown length, but {:?} reported", d, m.hint)); }
            }
            Ok(m.ended)
        }
    }
}
fn h(f: &[(&str, String)], end: bool) -> Value { json!({"t": "H", "end": end, "f": f.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()}) }
fn frames(r: &mut Rng, head: Vec<(&str, String)>, total: usize, n: usize) -> Value {
    let mut v = vec![];
    let mut left = total;
    let kind = r.below(8);
    v.push(h(&head, total == 0 && kind < 3));
    let y = |r: &mut Rng, v: &mut Vec<Value>| if r.chance(40) { v.push(json!({"t": "Y"})); };
    if total > 0 || kind >= 3 {
        y(r, &mut v);
        while left > 0 {
            let k = if r.chance(10) { 0 } else { r.range(1, left) };
            left -= k;
            let stop = r.chance(12) && n > 0;
            v.push(json!({"t": "D", "d": enc(&vec![b'a'; k]), "end": !stop && left == 0 && kind < 5}));
            y(r, &mut v);
            if stop { if r.chance(70) { v.push(json!({"t": "R", "code": r.pick(&[0, 0, 0, 8, 2])})); } else { v.push(json!({"t": "D", "d": "", "end": true})); } return json!(v); }
        }
        match kind { 3 | 4 if total == 0 => v.push(json!({"t": "D", "d": "", "end": true})), 5 => v.push(json!({"t": "D", "d": "", "end": true})), 6 => v.push(h(&[("x-t", "1".into())], true)), 7 => v.push(json!({"t": "R", "code": r.pick(&[0, 0, 8])})), _ => {} }
        y(r, &mut v);
    }
    json!(v)
}
pub fn run(cx: &mut Cx) {
    cx.rule("HTTP/1 requests and responses of every framing, complete and cut short, split into reads at random; HTTP/2 exchanges between a real client and server; HTTP/2 frames from a scripted peer (announced lengths right, short and long, END_STREAM on the head, on data, on an empty frame, on trailers, resets with NO_ERROR and others, HEAD/204/304): the size reported before every frame against what follows");
    let mut r = cx.rng(18);
    let n = if cx.thorough { 60_000 } else { 9_000 };
    for _ in 0..n {
        if cx.stop() { return; }
        let cap = *r.pick(&[1usize, 7, 64, 100_000, 100_000]);
        let total = *r.pick(&[0usize, 0, 1, 2, 5, 17, 40]);
        let body = vec![b'x'; total];
        let cuts: Vec<usize> = (0..r.below(5)).map(|_| *r.pick(&[0usize, 1, 2, 9, 30])).collect();
        match r.below(8) {
            0 | 1 => {
                let (b, n) = match r.below(3) {
                    0 => (format!("POST /a HTTP/1.1\r\nhost: h\r\ncontent-length: {}\r\n\r\n", total).into_bytes(), Some(total)),
                    1 => (b"POST /a HTTP/1.1\r\nhost: h\r\ntransfer-encoding: chunked\r\n\r\n".to_vec(), None),
                    _ => (b"GET /a HTTP/1.1\r\nhost: h\r\n\r\n".to_vec(), Some(0)),
                };
                let mut b = b;
                let chunked = n.is_none();
                if chunked { if total > 0 { b.extend(format!("{:x}\r\n", total).bytes()); b.extend(&body); b.extend(b"\r\n"); } b.extend(b"0\r\n\r\n"); } else if n != Some(0) { b.extend(&body); }
                if r.chance(20) { let k = r.below(12).min(b.len()); b.truncate(b.len() - k); }
                if r.chance(30) { b.extend(b"GET /b HTTP/1.1\r\n"); }
                let read = 0;
                cx.case(one, json!({"kind": "s1", "octets": enc(&b), "cuts": cuts, "n": n, "read": read}));
            }
            2 | 3 => {
                let method = *r.pick(&["GET", "GET", "POST", "HEAD"]);
                let status = *r.pick(&[200u16, 200, 204, 304, 404]);
                let nobody = method == "HEAD" || status == 204 || status == 304;
                let f = r.below(3);
                let mut b = format!("HTTP/1.1 {} X\r\n{}\r\n", status, match f { 0 => format!("content-length: {}\r\n", total), 1 => "transfer-encoding: chunked\r\n".into(), _ => String::new() }).into_bytes();
                let mut n = None;
                if nobody { n = Some(0); } else {
                    match f { 0 => { n = Some(total); b.extend(&body); } 1 => { if total > 0 { b.extend(format!("{:x}\r\n", total).bytes()); b.extend(&body); b.extend(b"\r\n"); } b.extend(b"0\r\n\r\n"); } _ => b.extend(&body) }
                    if r.chance(20) { let k = r.below(12).min(b.len()); b.truncate(b.len() - k); }
                }
                cx.case(one, json!({"kind": "c1", "octets": enc(&b), "cuts": cuts, "n": n, "method": method}));
            }
            4 => {
                let mut bd = |r: &mut Rng| -> Value {
                    let mut ch = vec![];
                    let mut left = total;
                    while left > 0 { let k = r.range(1, left); left -= k; ch.push(enc(&vec![b'z'; k])); if r.chance(30) { ch.push(Value::Null); } }
                    json!({"chunks": ch, "exact": if r.chance(50) { json!(total) } else { Value::Null }, "eos": r.chance(50), "trailers": if r.chance(20) { json!([["x-t", "1"]]) } else { Value::Null }})
                };
                let method = *r.pick(&["GET", "POST", "POST", "HEAD"]);
                let status = *r.pick(&[200, 200, 200, 304, 204]);
                let req = json!({"method": method, "body": bd(&mut r)});
                let none = method == "HEAD" || status != 200;
                let resp = json!({"status": status, "headers": if none && r.chance(70) { json!([["content-length", "12"]]) } else { json!([]) }, "body": if none { json!({"chunks": [], "eos": r.chance(50)}) } else { bd(&mut r) }});
                cx.case(one, json!({"kind": "pair", "cap": cap, "req": req, "resp": resp}));
            }
            5 | 6 => {
                let method = *r.pick(&["GET", "GET", "POST", "HEAD"]);
                let status = *r.pick(&["200", "200", "200", "304", "204"]);
                let none = method == "HEAD" || status != "200";
                let ann = r.chance(60);
                let n = if r.chance(80) { total } else { total + r.range(1, 5) };
                let mut f = vec![(":status", status.to_string())];
                if ann { f.push(("content-length", n.to_string())); if r.chance(10) { f.push(("content-length", n.to_string())); } }
                let fs = frames(&mut r, f, if none { 0 } else { total }, n);
                cx.case(one, json!({"kind": "rs", "cap": cap, "method": method, "frames": fs, "n": if ann { json!(n) } else { Value::Null }, "body": !none}));
            }
            _ => {
                let ann = r.chance(60);
                let n = if r.chance(80) { total } else { total + r.range(1, 5) };
                let mut f = vec![(":method", "POST".to_string()), (":scheme", "http".into()), (":path", "/x".into()), (":authority", "h".into())];
                if ann { f.push(("content-length", n.to_string())); }
                let fs = frames(&mut r, f, total, n);
                cx.case(one, json!({"kind": "rc", "cap": cap, "frames": fs, "n": if ann { json!(n) } else { Value::Null }}));
            }
        }
    }
}
