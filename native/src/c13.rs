//! C13: outbound octets, once each, in order.
use crate::common::*;
use crate::net;
use bytes::Bytes;
use hyper::verif::io::VBuffered;
use serde_json::{json, Value};
use std::task::{Context, Poll};

fn tagged(k: usize, n: usize) -> Vec<u8> { (0..n).map(|i| (k * 31 + i * 7 + i / 251) as u8).collect() }
/// {"ops":[["head",n]|["buf",n,split,full]|["flush"]],"vec":bool,"flatten":bool,"wcaps":[..],"zero":n|null}
fn queue(c: &Value) -> Res {
    let io = net::ScriptIo::new(vec![], true);
    let wc = arr(&c["wcaps"]);
    let stuck = !wc.is_empty() && wc.iter().all(|x| *x == 0);
    { let mut s = io.0.lock().unwrap(); s.vectored = c["vec"].as_bool().unwrap_or(true); s.wcaps = wc; s.wzero_at = c["zero"].as_u64().map(|x| x as usize); }
    let mut b: VBuffered<net::ScriptIo, net::Piece> = VBuffered::new(io.clone());
    if c["flatten"].as_bool().unwrap_or(false) { b.flatten(); }
    let d = format!("{}", c);
    let w = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut want: Vec<u8> = vec![];
    let mut k = 0;
    for op in c["ops"].as_array().unwrap() {
        let n = us(&op[1]);
        k += 1;
        match op[0].as_str().unwrap() {
            "head" => { let t = tagged(k, n); if b.head(&t) { want.extend(t); } }
            "buf" if n > 0 => { let t = tagged(k, n); b.buffer(net::Piece::new(Bytes::from(t.clone()), us(&op[2]), op[3].as_bool().unwrap_or(true))); want.extend(t); }
            "flush" => {
                let polls = if op[1].is_null() { 100_000 } else { n };
                let mut done = false;
                for _ in 0..polls {
                    match b.poll_flush(&mut cx) {
                        Poll::Pending => {}
                        Poll::Ready(Ok(())) => { done = true; break; }
                        Poll::Ready(Err(e)) => {
                            let out = io.0.lock().unwrap().out.clone();
                            let zero = c["zero"].as_u64().map(|z| z as usize);
                            if zero.map(|z| out.len() >= z && want.len() > out.len()).unwrap_or(false) && e.kind() == std::io::ErrorKind::WriteZero {
                                return if out[..] == want[..out.len()] { Ok(true) } else { Err(format!("{}: the transport took {}", d, show(&out))) };
                            }
                            return Err(format!("{}: flush failed: {}", d, e));
                        }
                    }
                }
                let out = io.0.lock().unwrap().out.clone();
                if out.len() > want.len() || out[..] != want[..out.len()] { return Err(format!("{}: the transport took {} octets that are not the ones queued: {}", d, out.len(), show(&out))); }
                if done && out.len() != want.len() { return Err(format!("{}: flush completed after {} of {} octets", d, out.len(), want.len())); }
                if !done && op[1].is_null() && !stuck { return Err(format!("{}: flush never completes", d)); }
                if b.has_buffered_write() != (out.len() < want.len()) { return Err(format!("{}: has_buffered_write() is wrong with {} of {} octets sent", d, out.len(), want.len())); }
            }
            _ => {}
        }
    }
    Ok(!want.is_empty())
}
pub fn one(c: &Value) -> Res {
    if c["who"] == "queue" { return queue(c); }
    // a whole exchange
    let server = c["who"] == "server";
    let bodies: Vec<Value> = c["bodies"].as_array().unwrap().clone();
    let (out, res) = if server {
        let mut wire = vec![];
        let tail = dec(&c["tail"]);
        for i in 0..bodies.len() {
            let last = i + 1 == bodies.len() && c["close"] == json!(true);
            wire.extend(format!("GET /{} HTTP/1.1\r\nhost: x\r\n{}\r\n", i, if last { "connection: close\r\n" } else { "" }).as_bytes());
        }
        wire.extend(&tail);
        let io = net::ScriptIo::new(net::cut(&wire, &arr(&c["cuts"])), false);
        { let mut s = io.0.lock().unwrap(); s.wcaps = arr(&c["wcaps"]); s.vectored = c["vec"].as_bool().unwrap_or(true); }
        let resps: Vec<Value> = bodies.iter().map(|b| json!({"body": b, "headers": b["headers"]})).collect();
        let o = net::server(io, &json!({"half_close": true, "date": false, "pipeline_flush": c["pipe"], "writev": c["writev"]}), &json!(resps));
        (o.out.clone(), o)
    } else {
        let mut segs = vec![];
        for i in 0..bodies.len() { segs.extend(net::answer(2 * i + 1, b"", &[])); }
        segs.clear();
        let io = net::ScriptIo::new(segs, true);
        { let mut s = io.0.lock().unwrap(); s.wcaps = arr(&c["wcaps"]); s.vectored = c["vec"].as_bool().unwrap_or(true); }
        let o = net::client(io, &json!({"writev": c["writev"]}), &json!([{"method": "POST", "uri": "/0", "headers": bodies[0]["headers"], "body": bodies[0]}]));
        (o.out.clone(), o)
    };
    let _ = res;
    let mut p = 0;
    for (i, b) in bodies.iter().enumerate() {
        match net::read_msg(&out[p..], server, false) {
            Ok(Some((m, n))) if m.complete => {
                p += n;
                if m.body != net::ScriptBody::total(b) { return Err(format!("{}: body {} arrived as {}", c, i, show(&m.body))); }
            }
            x => return Err(format!("{}: message {} on the wire: {:?}; {}", c, i, x.map(|y| y.map(|z| z.1)), show(&out[p..]))),
        }
        if !server { break; }
    }
    if p != out.len() { return Err(format!("{}: stray octets on the wire: {}", c, show(&out[p..]))); }
    Ok(true)
}
pub fn run(cx: &mut Cx) {
    cx.rule("write queues of heads and buffers (one piece, or several pieces listed fully or only one at a time), flattened or queued, vectored or not, every small pattern of partial writes, transports that stop taking octets; and whole exchanges through server and client connections");
    for n in 1..=4usize {
        for split in [0usize, 1, 2] {
            for full in [true, false] {
                for vec in [true, false] {
                    for flat in [true, false] {
                        for w in [vec![], vec![1usize], vec![2], vec![3], vec![0, 1], vec![1, 4], vec![5, 0, 2]] {
                            let mut ops = vec![json!(["head", 3])];
                            for i in 0..n { ops.push(json!(["buf", 1 + (i * 3) % 5, split, full])); }
                            ops.push(json!(["flush", 2]));
                            if n % 2 == 0 { ops.push(json!(["buf", 2, split, full])); }
                            ops.push(json!(["flush"]));
                            ops.push(json!(["head", 2]));
                            ops.push(json!(["flush"]));
                            cx.case(one, json!({"who": "queue", "ops": ops, "vec": vec, "flatten": flat, "wcaps": w}));
                        }
                        for z in 0..6 {
                            cx.case(one, json!({"who": "queue", "ops": [["head", 2], ["buf", 3, split, full], ["buf", n, 0, true], ["flush"]], "vec": vec, "flatten": flat, "zero": z}));
                        }
                    }
                }
            }
        }
    }
    // the connection ends with octets left unread
    for pipe in [true, false] { for n in 1..4usize { for tail in ["\r\n", "x", "GET /9 HTTP/1.1\r\n\r\n"] { for w in [vec![], vec![1usize], vec![0, 3]] {
        let bodies: Vec<Value> = (0..n).map(|i| json!({"chunks": [enc(&tagged(i, 5))], "headers": [["content-length", "5"]]})).collect();
        cx.case(one, json!({"who": "server", "bodies": bodies, "wcaps": w, "pipe": pipe, "tail": tail, "close": true}));
    } } } }
    let mut r = cx.rng(13);
    for i in 0..if cx.thorough { 20000 } else { 3000 } {
        if cx.stop() { break; }
        let wc: Vec<usize> = if r.chance(70) { (0..1 + r.below(4)).map(|_| *r.pick(&[0usize, 1, 2, 7, 30, 500])).collect() } else { vec![] };
        let wc = if wc.iter().all(|x| *x == 0) { vec![] } else { wc };
        if i % 3 == 0 {
            let lim = if r.chance(10) { 90 } else { 10 };
            let ops: Vec<Value> = (0..1 + r.below(lim)).map(|_| match r.below(6) {
                0 => json!(["head", r.below(30)]), 1 => json!(["flush", r.below(4)]), 2 => json!(["flush"]),
                _ => { let l = if r.chance(5) { 9000 } else { 12 }; json!(["buf", 1 + r.below(l), r.below(5), r.chance(50)]) }
            }).chain([json!(["flush"])]).collect();
            cx.case(one, json!({"who": "queue", "ops": ops, "vec": r.chance(70), "flatten": r.chance(30), "wcaps": wc, "zero": if r.chance(10) { json!(r.below(60)) } else { Value::Null }}));
        } else {
            let bodies: Vec<Value> = (0..1 + r.below(3)).map(|_| {
                let big = r.chance(4);
                let chunks: Vec<Value> = (0..r.below(5)).map(|_| { let n = 1 + r.below(if big { 3000 } else { 40 }); enc(&tagged(r.below(9), n)) }).collect();
                let t: usize = chunks.iter().map(|c| dec(c).len()).sum();
                let mut b = json!({"chunks": chunks, "split": r.below(9), "full": r.chance(50)});
                if i % 3 == 1 { b["chunks"].as_array_mut().unwrap().push(enc(b"z")); }
                let t = t + if i % 3 == 1 { 1 } else { 0 };
                if r.chance(40) { b["headers"] = json!([["content-length", t.to_string()]]); } else { b["headers"] = json!([["transfer-encoding", "chunked"]]); }
                b
            }).collect();
            let big = bodies.iter().any(|b| b["chunks"].as_array().unwrap().iter().any(|c| dec(c).len() > 100));
            let wc = if big { wc.into_iter().map(|x| x * 50).collect() } else { wc };
            cx.case(one, json!({"who": if i % 3 == 1 { "client" } else { "server" }, "bodies": bodies, "wcaps": wc, "vec": r.chance(70), "writev": if r.chance(20) { json!(r.chance(50)) } else { Value::Null }, "pipe": if r.chance(20) { json!(true) } else { Value::Null }, "cuts": if r.chance(30) { json!([7, 0, 20]) } else { json!([]) }}));
        }
    }
}
