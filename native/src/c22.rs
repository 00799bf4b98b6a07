//! C22: 100 Continue.
use crate::common::*;
use crate::framing::*;
use crate::net;
use serde_json::{json, Value};

fn due(v11: bool, l: &Lines) -> bool {
    let e: Vec<&Vec<u8>> = l.iter().filter(|x| x.0.eq_ignore_ascii_case("expect")).map(|x| &x.1).collect();
    v11 && e.last().map_or(false, |v| trim(v).eq_ignore_ascii_case(b"100-continue")) && matches!(request(v11, l), (Some(Fr::Chunked), _) | (Some(Fr::Len(1..)), _))
}
fn wire(l: &Lines, v11: bool, body: &[u8]) -> Vec<u8> {
    match request(v11, l).0 {
        Some(Fr::Chunked) => { let mut o = vec![]; if !body.is_empty() { o.extend(format!("{:x}\r\n", body.len()).bytes()); o.extend(body); o.extend(b"\r\n"); } o.extend(b"0\r\n\r\n"); o }
        Some(Fr::Len(n)) => body.iter().cloned().cycle().take(n as usize).collect(),
        _ => vec![],
    }
}
/// exchanges on one connection: requests, what the service does, how the transport behaves
pub fn one(c: &Value) -> Res {
    let none = vec![];
    let reqs = c["reqs"].as_array().unwrap_or(&none);
    let mut segs = vec![];
    let mut dues = vec![];
    let mut said = vec![];
    for (i, q) in reqs.iter().enumerate() {
        let l = lines(&q["lines"]);
        let v11 = q["v10"] != json!(true);
        let head = raw(&format!("POST /{} HTTP/1.{}", i, v11 as u8), &l);
        let body = wire(&l, v11, &dec(&q["body"]));
        dues.push(due(v11, &l));
        said.push(format!("{} + body of {} ({})", show(&head), body.len(), q["svc"]));
        let cuts = arr(&q["cuts"]);
        if q["join"] == json!(true) {
            let mut all = head.clone();
            all.extend(&body);
            if let Some(net::Seg::Data(d)) = segs.last_mut() { d.extend(all) } else { segs.push(net::Seg::Data(all)); }
        } else {
            segs.extend(net::cut(&head, &cuts));
            for _ in 0..us(&q["gap"]) { segs.push(net::Seg::Pending); }
            if q["gate"] == json!(true) { segs.push(net::Seg::Wait(1)); }
            segs.extend(net::cut(&body, &cuts));
            for _ in 0..us(&q["gap_after"]) { segs.push(net::Seg::Pending); }
        }
    }
    let junk = dec(&c["junk"]);
    if !junk.is_empty() { segs.push(net::Seg::Data(junk.clone())); }
    let d = format!("{} then {} (transport {}, flush_pipeline {})", said.join(", "), show(&junk), c["wcaps"], c["pipeline_flush"]);
    let io = net::ScriptIo::new(segs, true);
    { let mut s = io.0.lock().unwrap(); s.wcaps = arr(&c["wcaps"]); s.vectored = c["vectored"] != json!(false); }
    let resps: Vec<Value> = reqs.iter().map(|q| q["svc"].clone()).collect();
    let o = net::server(io, &json!({"pipeline_flush": c["pipeline_flush"], "date": false}), &Value::Array(resps.clone()));
    // walk the output
    let mut b = &o.out[..];
    let mut got = 0;
    let mut ask = 0;
    const CONT: &[u8] = b"HTTP/1.1 100 Continue\r\n\r\n";
    let mut any = false;
    loop {
        let mut n = 0;
        while b.starts_with(CONT) { n += 1; b = &b[CONT.len()..]; }
        let (svc, is_due) = match reqs.get(got) { Some(q) => (&q["svc"], dues[got] && got < o.msgs.len()), None => (&Value::Null, false) };
        if n > 1 { return Err(format!("{}: {} times 100 Continue before response {}: {}", d, n, got, show(&o.out))); }
        if n == 1 && !is_due { return Err(format!("{}: 100 Continue although not due before response {}: {}", d, got, show(&o.out))); }
        let asks = svc["bg"] != json!(true) && svc["read_after"] != json!(true) && us(&svc["read"]) != 1;
        let bg = svc["bg"] == json!(true); // asked for by another task, some time
        if n == 1 && !asks && !bg { return Err(format!("{}: 100 Continue before response {}, whose body was not asked for by then: {}", d, got, show(&o.out))); }
        if is_due && asks && n == 0 { return Err(format!("{}: body {} asked for, no 100 Continue: {}", d, got, show(&o.out))); }
        any |= n == 1;
        ask += (is_due && asks) as usize;
        if b.is_empty() { break; }
        let (p, used) = match net::read_msg(b, true, false) { Ok(Some(x)) => x, r => return Err(format!("{}: output not responses: {:?} in {}", d, r.map(|_| ()), show(&o.out))) };
        if got < o.msgs.len() {
            if !p.start.starts_with(&format!("HTTP/1.{} {}", (reqs[got]["v10"] != json!(true)) as u8, svc["status"].as_u64().unwrap_or(200))) || p.body != net::ScriptBody::total(&svc["body"]) || !p.complete && p.framing != "close" {
                return Err(format!("{}: response {} written as {:?}: {}", d, got, p, show(&o.out)));
            }
        } else if !p.start.starts_with("HTTP/1.1 400") { return Err(format!("{}: a response to no request: {:?}: {}", d, p.start, show(&o.out))); }
        b = &b[used..];
        got += 1;
    }
    let _ = ask;
    Ok(any || got > 1)
}
pub fn req(r: &mut Rng, n: usize) -> Value {
    let mut l = vec![json!(["host", "h"])];
    let body = ["", "a", "hello", "0123456789abcdef0123456789"][r.below(4)];
    match r.below(5) { 0 => {} 1 | 2 => l.push(json!(["content-length", body.len().to_string()])), 3 => l.push(json!(["transfer-encoding", "chunked"])), _ => { l.push(json!(["transfer-encoding", "gzip, chunked"])); } }
    let e = ["100-continue", "100-Continue", "100-continue, x", "x", "100-continue ", "", "200-ok"];
    if r.chance(70) { l.push(json!(["expect", if r.chance(60) { e[0] } else { *r.pick(&e) }])); }
    if r.chance(10) { l.push(json!(["expect", *r.pick(&e)])); }
    let v10 = r.chance(8) && l.iter().all(|x| x[0] != "transfer-encoding");
    if r.chance(30) { l.reverse(); }
    let mut rb = vec![];
    for _ in 0..r.below(3) { rb.push(if r.chance(20) { json!(null) } else { json!(["r", "answer", "some longer answer body 0123456789"][r.below(3)]) }); }
    let mode = r.below(10);
    let svc = json!({"status": *r.pick(&[200u16, 201, 404]), "headers": if r.chance(50) { let t: usize = rb.iter().map(|x| x.as_str().map_or(0, |s| s.len())).sum(); json!([["content-length", t.to_string()]]) } else { json!([]) },
        "body": {"chunks": rb, "eos": r.chance(50)},
        "read": match mode { 0..=4 => 0, 5 => 1, 6 => 2, _ => 0 }, "read_after": mode == 7, "bg": mode >= 8, "bg_wait": r.below(3), "delay": r.below(3)});
    json!({"lines": l, "v10": v10, "body": body, "cuts": if r.chance(40) { vec![] } else { (0..r.range(1, 4)).map(|_| r.below(9)).collect::<Vec<_>>() }, "gap": r.below(4), "gap_after": r.below(4), "gate": n == 0 && r.chance(20) && mode <= 4, "join": r.chance(30), "svc": svc})
}
pub fn run(cx: &mut Cx) {
    cx.rule("before each response there is at most one 100 Continue; there is one iff the request was HTTP/1.1, its last Expect line is 100-continue, it has a body, and the service asked for the body before responding; the output is exactly such interims and the responses, in order");
    // every expectation value and framing, asked first / not asked / asked later
    for v10 in [false, true] { for e in ["100-continue", "100-CONTINUE", "100-continue,x", "x", ""] { for fr in [("content-length", "5"), ("content-length", "0"), ("transfer-encoding", "chunked"), ("x", "y")] { for svc in [json!({}), json!({"read": 1}), json!({"read_after": true}), json!({"bg": true}), json!({"read": 2}), json!({"delay": 2})] {
        if v10 && fr.0 == "transfer-encoding" { continue; }
        cx.case(one, json!({"reqs": [{"lines": [["expect", e], [fr.0, fr.1]], "v10": v10, "body": "hello", "gap": 2, "svc": svc}, {"lines": [["expect", "100-continue"], ["content-length", "3"]], "body": "abc", "svc": {}}]}));
    } } } }
    // the previous response is stuck in the transport while its request's body ends
    for vectored in [true, false] { for stall in 1..12usize { for gap in 0..6usize { for junk in ["", "garbage\r\n\r\n"] {
        let mut w = vec![0; stall];
        w.push(100_000);
        let first = json!({"lines": [["content-length", "5"]], "body": "hello", "gap": gap, "gap_after": 1, "svc": {"bg": true, "body": {"chunks": ["the first answer"], "exact": 16}, "headers": [["content-length", "16"]]}});
        let second = json!({"lines": [["expect", "100-continue"], ["content-length", "3"]], "body": "abc", "gap": 2, "svc": {}});
        cx.case(one, json!({"reqs": if junk.is_empty() { json!([first, second]) } else { json!([first]) }, "junk": junk, "wcaps": w, "vectored": vectored}));
    } } } }
    let mut r = cx.rng(22);
    while !cx.stop() && cx.evals < if cx.thorough { 60_000 } else { 9_000 } {
        let n = r.range(1, 3);
        let reqs: Vec<Value> = (0..n).map(|i| req(&mut r, i)).collect();
        let w: Vec<usize> = if r.chance(50) { vec![] } else { let mut w: Vec<usize> = (0..r.range(1, 5)).map(|_| *r.pick(&[0, 0, 0, 1, 7, 40])).collect(); w.push(200); w };
        cx.case(one, json!({"reqs": reqs, "junk": if r.chance(15) { "x y z\r\n\r\n" } else { "" }, "wcaps": w, "vectored": r.chance(80), "pipeline_flush": r.chance(20)}));
    }
}
