//! C08: outbound chunked bodies decode to what was given.
use crate::common::*;
use crate::net;
use hyper::verif::encode::VEncoder;
use serde_json::{json, Value};

fn bufs_of(c: &Value) -> Vec<Vec<u8>> {
    c["bufs"].as_array().unwrap().iter().map(|b| if b.is_u64() { (0..us(b)).map(|i| b"0\r\n\r\nABC"[i % 8]).collect() } else { dec(b) }).collect()
}
/// strict reading of a complete chunked body; Err if it is not exactly one
fn read(w: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
    let mut m = b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
    let h = m.len();
    m.extend(w);
    match net::read_msg(&m, true, false)? {
        Some((p, used)) if p.complete => {
            if used != m.len() { return Err(format!("{} octets after the last chunk", m.len() - used)); }
            if !p.trailers.is_empty() { return Err("trailers".into()); }
            let _ = h;
            Ok((p.body, p.chunks))
        }
        _ => Err("not a complete chunked body".into()),
    }
}
pub fn one(c: &Value) -> Res {
    let bufs = bufs_of(c);
    let all = bufs.concat();
    let d = format!("buffers of {:?} octets, {}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>(), c["mode"]);
    match c["mode"].as_str().unwrap_or("") {
        "" => {
            let mut e = VEncoder::chunked();
            if c["tr"].as_bool().unwrap_or(false) { e = e.trailing(vec![http::header::ETAG]); }
            let mut w = vec![];
            for b in &bufs {
                if e.is_eof() { return Err(format!("{}: ended early", d)); }
                let x = e.encode(b.clone().into());
                if x.is_empty() { return Err(format!("{}: nothing written for a buffer", d)); }
                w.extend(x);
                // a prefix never decodes to a complete body
                if read(&w).is_ok() { return Err(format!("{}: complete before the end was written", d)); }
            }
            match e.end() { Ok(Some(t)) => w.extend(t), x => return Err(format!("{}: end() gave {:?}", d, x)) }
            match read(&w) {
                Ok((b, _)) if b == all => {}
                Ok((b, _)) => return Err(format!("{}: decodes to {}", d, show(&b))),
                Err(x) => return Err(format!("{}: wrote {}: {}", d, show(&w), x)),
            }
        }
        m @ ("and_end" | "queue") => {
            let last = c["last"].as_bool().unwrap_or(false);
            let (keep, w) = VEncoder::chunked().set_last(last).encode_and_end(all.clone().into(), m == "queue");
            match read(&w) {
                Ok((b, _)) if b == all => {}
                x => return Err(format!("{}: wrote {}: {:?}", d, show(&w), x.err())),
            }
            if keep == last { return Err(format!("{}: connection may persist = {}", d, keep)); }
        }
        m => {
            let mut chunks: Vec<Value> = vec![];
            for (i, b) in bufs.iter().enumerate() { if arr(&c["pend"]).contains(&i) { chunks.push(Value::Null); } chunks.push(enc(b)); }
            let body = json!({"chunks": chunks, "eos": c["eos"], "err": c["err"]});
            let failed = c["err"].as_bool().unwrap_or(false);
            let server = m == "server";
            let o = if server {
                let io = net::ScriptIo::new(net::cut(b"GET /a HTTP/1.1\r\nhost: x\r\n\r\nGET /b HTTP/1.1\r\nhost: x\r\n\r\n", &[]), false);
                { let mut s = io.0.lock().unwrap(); s.wcaps = arr(&c["wcaps"]); s.vectored = c["vec"].as_bool().unwrap_or(true); }
                net::server(io, &json!({"half_close": true}), &json!([{"body": body}, {"status": 204}]))
            } else {
                let segs = vec![net::Seg::Pending];
                let io = net::ScriptIo::new(segs, true);
                { let mut s = io.0.lock().unwrap(); s.wcaps = arr(&c["wcaps"]); s.vectored = c["vec"].as_bool().unwrap_or(true); }
                net::client(io, &json!({}), &json!([{"method":"POST","uri":"/a","body": body}]))
            };
            let no_body = c["eos"].as_bool().unwrap_or(false) && bufs.is_empty() && !failed;
            match net::read_msg(&o.out, server, false) {
                Ok(Some((p, used))) => {
                    if no_body { return Ok(false); }
                    if p.framing != "chunked" { return Err(format!("{}: framed as {}", d, p.framing)); }
                    if p.body != all && !(failed && all.starts_with(&p.body)) { return Err(format!("{}: decodes to {}", d, show(&p.body))); }
                    if p.complete == failed { return Err(format!("{}: complete={} but the body {}", d, p.complete, if failed { "failed" } else { "ended" })); }
                    if !p.trailers.is_empty() { return Err(format!("{}: trailers appeared", d)); }
                    if failed && o.out.windows(5).any(|w| w == b"0\r\n\r\n") && !all.windows(5).any(|w| w == b"0\r\n\r\n") { return Err(format!("{}: a failed body was terminated", d)); }
                    let rest = &o.out[used..];
                    if !rest.is_empty() && !(server && rest.starts_with(b"HTTP/1.1 204 ")) { return Err(format!("{}: octets after the last chunk: {}", d, show(rest))); }
                }
                Ok(None) if failed => {}
                Ok(None) => return Err(format!("{}: no head written", d)),
                Err(e) => return Err(format!("{}: {}: {}", d, e, show(&o.out))),
            }
        }
    }
    Ok(!all.is_empty())
}

pub fn run(cx: &mut Cx) {
    cx.rule("one buffer of every size 1..4200 and around powers of 16 up to 2^21 (exhaustive over that set), every division of up to 7 octets, contents that look like chunk framing, random longer sequences; encoder alone, one-shot end, and through server and client connections with partial writes, pending and failing bodies");
    let mut sizes: Vec<usize> = (1..=4200).collect();
    for k in [65535usize, 65536, 65537, 1048575, 1048576, 1048577, 1 << 21] { sizes.push(k); }
    for n in &sizes {
        cx.case(one, json!({"bufs": [n]}));
        if n % 3 == 0 || *n > 4096 || *n < 40 { for m in ["and_end", "queue"] { cx.case(one, json!({"bufs": [n], "mode": m, "last": n % 2 == 0})); } }
    }
    let data = b"0\r\n\r\nA;";
    for l in 0..=7usize {
        for mask in 0..(1usize << l.saturating_sub(1)) {
            let mut bufs = vec![];
            let mut s = 0;
            for i in 0..l { if i + 1 == l || mask >> i & 1 == 1 { bufs.push(enc(&data[s..i + 1])); s = i + 1; } }
            cx.case(one, json!({"bufs": bufs, "tr": mask % 2 == 0}));
            for m in ["server", "client"] {
                cx.case(one, json!({"bufs": bufs, "mode": m, "eos": mask % 2 == 0, "pend": if mask % 3 == 0 { json!([0, 1]) } else { json!([]) }}));
            }
        }
    }
    let mut r = cx.rng(8);
    for i in 0..if cx.thorough { 15000 } else { 2000 } {
        if cx.stop() { break; }
        let k = r.below(7);
        let bufs: Vec<Value> = (0..k).map(|_| if r.chance(20) { json!(1 + r.below(20000)) } else { let n = 1 + r.below(40); enc(&(0..n).map(|_| *r.pick(b"0\r\n;aF \x00\xff")).collect::<Vec<u8>>()) }).collect();
        let wc: Vec<usize> = if r.chance(60) { (0..1 + r.below(4)).map(|_| *r.pick(&[0usize, 1, 2, 7, 30, 5000])).collect() } else { vec![] };
        let big = bufs.iter().any(|b| b.is_u64());
        let wc = if wc.iter().all(|x| *x == 0) || (big && wc.iter().sum::<usize>() < 1000) { vec![] } else { wc };
        let pend: Vec<usize> = (0..3).map(|_| r.below(7)).collect();
        cx.case(one, json!({"bufs": bufs, "mode": (["", "server", "client"])[i % 3], "wcaps": wc, "vec": r.chance(60), "eos": r.chance(50), "err": r.chance(15), "pend": pend}));
    }
}
