//! C12: reuse of HTTP/1 connections.
use crate::common::*;
use crate::framing::*;
use crate::net;
use serde_json::{json, Value};

fn hdrs(v: &Value) -> Lines { lines(v) }
fn total(b: &Value) -> Vec<u8> { net::ScriptBody::total(b) }
/// the octets of a message body framed as the lines say
fn wire(l: &Lines, v11: bool, body: &[u8]) -> Vec<u8> {
    match request(v11, l).0 {
        Some(Fr::Chunked) => { let mut o = vec![]; for c in body.chunks(4) { o.extend(format!("{:x}\r\n", c.len()).bytes()); o.extend(c); o.extend(b"\r\n"); } o.extend(b"0\r\n\r\n"); o }
        Some(Fr::Len(n)) => body.iter().cloned().cycle().take(n as usize).collect(),
        _ => vec![],
    }
}
/// one server connection
fn server(c: &Value) -> Res {
    let none = vec![];
    let reqs = c["reqs"].as_array().unwrap_or(&none);
    let mut segs = vec![];
    let mut said = vec![];
    for (i, q) in reqs.iter().enumerate() {
        let l = lines(&q["lines"]);
        let v11 = q["v10"] != json!(true);
        let mut all = raw(&format!("{} /{} HTTP/1.{}", q["method"].as_str().unwrap_or("GET"), i, v11 as u8), &l);
        let head = all.len();
        let body = wire(&l, v11, b"request body");
        all.extend(&body);
        let keep = all.len() - if i + 1 == reqs.len() { us(&q["cut_off"]).min(all.len()) } else { 0 };
        said.push(format!("{} + {} body octets ({})", show(&all[..head]), keep as i64 - head as i64, q["svc"]));
        segs.extend(net::cut(&all[..keep], &arr(&q["cuts"])));
        for _ in 0..us(&q["gap"]) { segs.push(net::Seg::Pending); }
    }
    let junk = dec(&c["junk"]);
    if !junk.is_empty() { segs.push(net::Seg::Data(junk.clone())); }
    match c["end"].as_str() { Some("eof") => segs.push(net::Seg::Eof), Some("err") => segs.push(net::Seg::Err), _ => {} }
    let d = format!("{} then {} {}, options {}, transport {}", said.join(", "), show(&junk), c["end"], c["opts"], c["wcaps"]);
    let io = net::ScriptIo::new(segs, true);
    { let mut s = io.0.lock().unwrap(); s.wcaps = arr(&c["wcaps"]); s.vectored = c["vectored"] != json!(false); }
    let mut o = c["opts"].clone();
    if o.is_null() { o = json!({}); }
    o["date"] = json!(false);
    let resps: Vec<Value> = reqs.iter().map(|q| q["svc"].clone()).collect();
    let out = net::server(io, &o, &Value::Array(resps));
    for (i, m) in out.msgs.iter().enumerate() {
        let want = match reqs.get(i) { Some(q) => format!("{} /{} HTTP/1.{}", q["method"].as_str().unwrap_or("GET"), i, (q["v10"] != json!(true)) as u8), None => "nothing".into() };
        if m.start != want { return Err(format!("{}: request {} handed over as {}, expected {}", d, i, m.start, want)); }
    }
    // the responses
    let mut b = &out.out[..];
    let mut seen: Vec<net::Parsed> = vec![];
    while !b.is_empty() {
        let i = seen.len();
        let (p, used) = match net::read_msg(b, true, reqs.get(i).map_or(false, |q| q["method"] == "HEAD")) { Ok(Some(x)) => x, Ok(None) if i < out.msgs.len() && (!matches!(out.result, Some(Ok(()))) || c["end"] != "hold") => break, r => return Err(format!("{}: output is not responses ({:?}): {}", d, r.map(|x| x.is_some()), show(&out.out))) };
        if i > out.msgs.len() || i == out.msgs.len() && !(p.start.contains(" 4") && !seen.iter().any(|p| p.start.contains("HTTP/1.1 400"))) { return Err(format!("{}: {} requests, a further response {}", d, out.msgs.len(), p.start)); }
        b = &b[used..];
        seen.push(p);
    }
    for i in 1..seen.len() {
        let p = &seen[i - 1];
        let c: Vec<Vec<u8>> = p.get("connection");
        let c: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect();
        if has(&c, "close") || p.framing == "close" || !p.complete { return Err(format!("{}: response {} written after one that ends the connection ({:?}): {}", d, i, p.start, show(&out.out))); }
    }
    for i in 1..out.msgs.len() {
        let q = &reqs[i - 1];
        let v11 = q["v10"] != json!(true);
        let why = if !persists(v11, &lines(&q["lines"])) { "the request does not let the connection persist" }
            else if o["keep_alive"] == json!(false) { "keep-alive is off" }
            else if has(&vals(&hdrs(&q["svc"]["headers"]), "connection"), "close") { "the response asks to close" }
            else if q["svc"]["fail"] == json!(true) { "the service failed" }
            else if seen.len() < i { if o["pipeline_flush"] == json!(true) || c["end"] != "hold" || !matches!(out.result, Some(Ok(()))) { "" } else { "the response is not written" } }
            else if !seen[i - 1].complete && o["pipeline_flush"] != json!(true) && seen[i - 1].framing != "close" { "the response is not complete" }
            else if seen[i - 1].framing == "close" { "the response ends with the connection" }
            else if !v11 && !vals(&seen[i - 1].headers, "connection").iter().any(|v| members(v).iter().any(|m| m.eq_ignore_ascii_case(b"keep-alive"))) { "the response to an HTTP/1.0 client does not say keep-alive" }
            else { "" };
        if !why.is_empty() { return Err(format!("{}: request {} served on the connection although {}: {}", d, i, why, show(&out.out))); }
    }
    // what a clean exchange leaves is usable: only where the peer gave no reason whatsoever
    if c["must"] == json!(true) && out.msgs.len() < reqs.len() { return Err(format!("{}: only {} of {} clean exchanges took place: {}", d, out.msgs.len(), reqs.len(), show(&out.out))); }
    Ok(reqs.len() > 1)
}
/// one client connection
fn client(c: &Value) -> Res {
    let none = vec![];
    let reqs = c["reqs"].as_array().unwrap_or(&none);
    let mut segs = vec![];
    let mut said = vec![];
    for (i, q) in reqs.iter().enumerate() {
        let a = &q["answer"];
        let l = lines(&a["lines"]);
        let v11 = a["v10"] != json!(true);
        let code = a["code"].as_u64().unwrap_or(200) as u16;
        let mut all = raw(&format!("HTTP/1.{} {} OK", v11 as u8, code), &l);
        match response(code, v11, q["method"].as_str().unwrap_or("GET"), &l) { Resp::As(Fr::Chunked, _) => all.extend(b"3\r\nabc\r\n0\r\n\r\n"), Resp::As(Fr::Len(n), _) => all.extend((0..n).map(|i| b'a' + (i % 26) as u8)), Resp::As(Fr::Close, _) => all.extend(b"till the end"), _ => {} }
        let keep = all.len() - us(&a["cut_off"]).min(all.len());
        all.truncate(keep);
        all.extend(dec(&a["extra"]));
        said.push(format!("{} answered {}", q, show(&all)));
        segs.push(net::Seg::Wait(i + 1));
        segs.extend(net::cut(&all, &arr(&a["cuts"])));
        if a["eof"] == json!(true) { segs.push(net::Seg::Eof); break; }
        if a["err"] == json!(true) { segs.push(net::Seg::Err); break; }
    }
    let d = format!("{} transport {}", said.join("; "), c["wcaps"]);
    let io = net::ScriptIo::new(segs, true);
    { let mut s = io.0.lock().unwrap(); s.wcaps = arr(&c["wcaps"]); s.vectored = c["vectored"] != json!(false); }
    let rs: Vec<Value> = reqs.iter().enumerate().map(|(i, q)| { let mut q = q.clone(); q["uri"] = json!(format!("/{}", i)); q["go_on"] = json!(true); q }).collect();
    let out = net::client(io, &json!({}), &json!(rs));
    let mut b = &out.out[..];
    let mut n = 0;
    let mut prev = "";
    while !b.is_empty() {
        let (p, used) = match net::read_msg(b, false, false) { Ok(Some(x)) => x, Ok(None) if n + 1 >= out.msgs.len() => break, r => return Err(format!("{}: output is not requests ({:?}): {}", d, r.map(|x| x.is_some()), show(&out.out))) };
        if n > 0 {
            let q = &reqs[n - 1];
            let a = &q["answer"];
            let l = lines(&a["lines"]);
            let v11 = a["v10"] != json!(true);
            let f = response(a["code"].as_u64().unwrap_or(200) as u16, v11, q["method"].as_str().unwrap_or("GET"), &l);
            let why = if !persists(v11, &l) { "the response does not let the connection persist" }
                else if has(&vals(&hdrs(&q["headers"]), "connection"), "close") { "the request asked to close" }
                else if !matches!(f, Resp::As(Fr::Chunked, false) | Resp::As(Fr::Len(_), false)) { "the response does not delimit its body, or is refused" }
                else if us(&a["cut_off"]) > 0 || a["eof"] == json!(true) || a["err"] == json!(true) { "the response broke off, or the transport ended" }
                else if !dec(&a["extra"]).is_empty() { "octets came after the response" }
                else if q["body"]["err"] == json!(true) && prev != "none" { "the request body failed" }
                else { "" };
            if !why.is_empty() { return Err(format!("{}: request {} sent on the connection although {}: {}", d, n, why, show(&out.out))); }
        }
        if !p.start.contains(&format!(" /{} ", n)) { return Err(format!("{}: request {} on the wire is {}: {}", d, n, p.start, show(&out.out))); }
        let q = &reqs[n];
        let lost = p.start.ends_with("1.0") && vals(&hdrs(&q["headers"]), "content-length").is_empty(); // not this property's business
        if p.complete && !lost && p.body != total(&q["body"]) && q["body"]["err"] != json!(true) { return Err(format!("{}: request {} written with body {}: {}", d, n, show(&p.body), show(&out.out))); }
        b = &b[used..];
        prev = p.framing;
        n += 1;
    }
    if c["must"] == json!(true) && (out.msgs.len() < reqs.len() || !out.send_err.is_empty()) { return Err(format!("{}: only {} of {} clean exchanges took place ({:?}): {}", d, out.msgs.len(), reqs.len(), out.send_err, show(&out.out))); }
    Ok(reqs.len() > 1)
}
pub fn one(c: &Value) -> Res { if c["who"] == "client" { client(c) } else { server(c) } }

const CONN: &[&str] = &["close", "keep-alive", "Close", "keep-alive, close", "x, Keep-Alive", "closed", "upgrade", "close\u{b5}", "", ",close", "close;q=1"];
fn conn_lines(r: &mut Rng) -> Vec<Value> {
    let mut v = vec![];
    while r.chance(35) && v.len() < 3 { v.push(json!(["connection", *r.pick(CONN)])); }
    v
}
fn srv_case(r: &mut Rng) -> Value {
    let n = r.range(2, 4);
    let mut quiet = true;
    let mut reqs = vec![];
    for _ in 0..n {
        let v10 = r.chance(20);
        let mut l = if r.chance(40) { conn_lines(r) } else { vec![] };
        if v10 && r.chance(60) { l.push(json!(["connection", "keep-alive"])); }
        let method = *r.pick(&["GET", "POST", "HEAD"]);
        if method == "POST" { if v10 || r.chance(50) { l.push(json!(["content-length", *r.pick(&["0", "5", "40"])])) } else { l.push(json!(["transfer-encoding", "chunked"])) } }
        let rb: Vec<Value> = (0..r.below(3)).map(|_| if r.chance(20) { json!(null) } else { json!(*r.pick(&["r", "answer", "some longer answer body"])) }).collect();
        let t: usize = rb.iter().map(|x| x.as_str().map_or(0, |s| s.len())).sum();
        let mut h = if r.chance(20) { conn_lines(r) } else { vec![] };
        let short = r.chance(4);
        if r.chance(50) { h.push(json!(["content-length", (t + short as usize).to_string()])); }
        let (err, fail) = (r.chance(4), r.chance(3));
        let sv10 = r.chance(5);
        let cut = if r.chance(3) { r.range(1, 4) } else { 0 };
        let mode = r.below(8);
        quiet &= l.iter().chain(h.iter()).all(|x| x[0] != "connection") && !v10 && !sv10 && !short && !err && !fail && cut == 0 && mode < 5;
        reqs.push(json!({"method": method, "v10": v10, "lines": l, "cut_off": cut, "cuts": if r.chance(50) { vec![] } else { (0..r.range(1, 4)).map(|_| r.below(30)).collect::<Vec<_>>() }, "gap": r.below(3),
            "svc": {"headers": h, "body": {"chunks": rb, "eos": r.chance(50), "err": err}, "fail": fail, "version": if sv10 { json!("1.0") } else { json!(null) }, "delay": r.below(3), "read": match mode { 5 => 1, 6 => 2, _ => 0 }, "read_after": mode == 6, "bg": mode == 7}}));
    }
    let mut o = json!({});
    if r.chance(8) { o["keep_alive"] = json!(false); quiet = false; }
    if r.chance(15) { o["half_close"] = json!(true); }
    if r.chance(15) { o["pipeline_flush"] = json!(true); }
    if r.chance(10) { o["shutdown_after"] = json!(r.below(12)); quiet = false; }
    let end = *r.pick(&["hold", "hold", "eof", "err"]);
    let w: Vec<usize> = if r.chance(60) { vec![] } else { let mut w: Vec<usize> = (0..r.range(1, 5)).map(|_| *r.pick(&[0, 0, 1, 9, 60])).collect(); w.push(300); w };
    json!({"who": "server", "reqs": reqs, "opts": o, "junk": if r.chance(8) { "x y z\r\n\r\n" } else { "" }, "end": end, "wcaps": w, "vectored": r.chance(80), "must": quiet && end == "hold"})
}
fn cli_case(r: &mut Rng) -> Value {
    let n = r.range(2, 4);
    let mut quiet = true;
    let mut reqs = vec![];
    for _ in 0..n {
        let method = *r.pick(&["GET", "POST", "HEAD"]);
        let mut h = if r.chance(20) { conn_lines(r) } else { vec![] };
        let rb: Vec<Value> = if method == "POST" { (0..r.below(3)).map(|_| if r.chance(20) { json!(null) } else { json!(*r.pick(&["r", "body", "some longer request body"])) }).collect() } else { vec![] };
        let t: usize = rb.iter().map(|x| x.as_str().map_or(0, |s| s.len())).sum();
        let berr = method == "POST" && r.chance(5);
        if method == "POST" { if r.chance(40) { h.push(json!(["content-length", (t + berr as usize).to_string()])) } else { h.push(json!(["transfer-encoding", "chunked"])) } }
        let v10 = r.chance(15);
        let mut l = if r.chance(40) { conn_lines(r) } else { vec![] };
        if v10 && r.chance(60) { l.push(json!(["connection", "keep-alive"])); }
        let code = *r.pick(&[200u16, 200, 204, 304, 404, 500]);
        let mut delim = true;
        match r.below(10) { 0 => delim = matches!(code, 204 | 304) || method == "HEAD", 1..=5 => l.push(json!(["content-length", *r.pick(&["0", "4", "30"])])), _ => if v10 { l.push(json!(["content-length", "2"])) } else { l.push(json!(["transfer-encoding", "chunked"])) } }
        let extra = if r.chance(6) { *r.pick(&["x", "\r\n", "HTTP/1.1 200 OK\r\n\r\n"]) } else { "" };
        let cut = if r.chance(4) { r.range(1, 3) } else { 0 };
        let eof = cut > 0 || r.chance(4);
        quiet &= h.iter().chain(l.iter()).all(|x| x[0] != "connection") && !v10 && delim && extra.is_empty() && !eof && !berr;
        reqs.push(json!({"method": method, "headers": h, "body": {"chunks": rb, "eos": r.chance(50), "err": berr},
            "answer": {"code": code, "v10": v10, "lines": l, "extra": extra, "cut_off": cut, "eof": eof && r.chance(80), "err": eof, "cuts": if extra.is_empty() && r.chance(50) { (0..r.range(1, 4)).map(|_| r.below(30)).collect::<Vec<_>>() } else { vec![] }}}));
    }
    let w: Vec<usize> = if r.chance(60) { vec![] } else { let mut w: Vec<usize> = (0..r.range(1, 5)).map(|_| *r.pick(&[0, 0, 1, 9, 60])).collect(); w.push(300); w };
    // bodies with chunk ends confuse the count of heads the script waits for
    if reqs.iter().any(|q| q["method"] == "POST" && q["headers"].as_array().unwrap().iter().any(|h| h[0] == "transfer-encoding")) { quiet = false; }
    json!({"who": "client", "reqs": reqs, "wcaps": w, "vectored": r.chance(80), "must": quiet})
}
pub fn run(cx: &mut Cx) {
    cx.rule("a further request is served, or sent, on a connection only if the exchange before let it persist: versions, Connection fields of both messages, complete messages in both directions, no error, no octets left over; messages and their order on the wire are as given; and clean exchanges do follow one another");
    // every pair of versions and Connection fields
    for v10 in [false, true] { for a in CONN { for b in ["", "close", "keep-alive", "keep-alive, close"] { for v in [json!(null), json!("1.0")] {
        let h = if b.is_empty() { json!([]) } else { json!([["connection", b]]) };
        let h2 = |mut h: Value| { h.as_array_mut().unwrap().push(json!(["content-length", "2"])); h };
        let l = if a.is_empty() { json!([["host", "h"]]) } else { json!([["connection", *a]]) };
        cx.case(one, json!({"who": "server", "reqs": [{"v10": v10, "lines": l, "svc": {"headers": h2(h.clone()), "version": v, "body": {"chunks": ["ok"]}}}, {"lines": [], "svc": {}}]}));
        cx.case(one, json!({"who": "client", "reqs": [{"headers": h, "answer": {"v10": v10, "lines": h2(l)}}, {"answer": {"lines": [["content-length", "0"]]}}]}));
        cx.case(one, json!({"who": "server", "reqs": [{"v10": v10, "lines": [["connection", "x"], ["connection", *a]], "svc": {"headers": h2(json!([["connection", "x"], ["connection", b]])), "version": v, "body": {"chunks": ["ok"]}}}, {"lines": [], "svc": {}}]}));
    } } } }
    let mut r = cx.rng(12);
    while !cx.stop() && cx.evals < if cx.thorough { 80_000 } else { 12_000 } {
        let c = if r.chance(60) { srv_case(&mut r) } else { cli_case(&mut r) };
        cx.case(one, c);
    }
}
