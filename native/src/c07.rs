//! C07: fixed-length outbound bodies; close-delimited bodies carry the octets as they are.
use crate::common::*;
use crate::net;
use hyper::verif::encode::VEncoder;
use serde_json::{json, Value};

/// {"n":"5"|null,"bufs":[..],"mode":""|"and_end"|"server"|"client"|"queue"}
pub fn one(c: &Value) -> Res {
    let bufs: Vec<Vec<u8>> = c["bufs"].as_array().unwrap().iter().map(dec).collect();
    let all: Vec<u8> = bufs.concat();
    let n = c["n"].as_str().map(|s| s.parse::<u64>().unwrap());
    let d = format!("declared {:?}, buffers of {:?} octets, {}", n, bufs.iter().map(|b| b.len()).collect::<Vec<_>>(), c["mode"]);
    let lim = n.map(|n| n.min(all.len() as u64) as usize).unwrap_or(all.len());
    match c["mode"].as_str().unwrap_or("") {
        "" => {
            let mut e = match n { Some(n) => VEncoder::length(n), None => VEncoder::close_delimited() };
            let mut w: Vec<u8> = vec![];
            for b in &bufs {
                if e.is_eof() != (n == Some(w.len() as u64)) { return Err(format!("{}: is_eof() is wrong after {} octets", d, w.len())); }
                w.extend(e.encode(b.clone().into()));
                let upto = n.map(|n| n.min(u64::MAX) as u64).unwrap_or(u64::MAX);
                if w.len() as u64 > upto { return Err(format!("{}: wrote {} octets", d, w.len())); }
            }
            if w != all[..lim] { return Err(format!("{}: wrote {}", d, show(&w))); }
            let done = n.map(|n| n == w.len() as u64).unwrap_or(true);
            match e.end() {
                Ok(None) if done => {}
                Err(k) if !done && k == n.unwrap() - w.len() as u64 => {}
                x => return Err(format!("{}: end() gave {:?} after {} octets", d, x, w.len())),
            }
        }
        m @ ("and_end" | "queue") => {
            let e = match n { Some(n) => VEncoder::length(n), None => VEncoder::close_delimited() }.set_last(c["last"].as_bool().unwrap_or(false));
            let (keep, w) = e.encode_and_end(all.clone().into(), m == "queue");
            if w != all[..lim] { return Err(format!("{}: wrote {}", d, show(&w))); }
            let done = n.map(|n| n <= all.len() as u64).unwrap_or(false);
            let want = done && !c["last"].as_bool().unwrap_or(false);
            if keep != want { return Err(format!("{}: connection may persist = {}", d, keep)); }
        }
        m => {
            // via a connection: the body reports itself as whatever it wants; the header declares n
            let n = n.unwrap();
            let hdrs = json!([["content-length", n.to_string()]]);
            let body = json!({"chunks": c["bufs"], "exact": c["exact"], "eos": c["eos"], "err": c["err"]});
            let (out, o, heads) = if m == "server" {
                let wire = b"GET /a HTTP/1.1\r\nhost: x\r\n\r\nGET /b HTTP/1.1\r\nhost: x\r\n\r\n";
                let io = net::ScriptIo::new(net::cut(wire, &[]), false);
                io.0.lock().unwrap().wcaps = arr(&c["wcaps"]);
                io.0.lock().unwrap().vectored = c["vec"].as_bool().unwrap_or(true);
                let o = net::server(io, &json!({"half_close": true}), &json!([{"headers": hdrs, "body": body}, {"status": 204}]));
                (o.out.clone(), o, true)
            } else {
                let mut segs = net::answer(1, b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n", &[]);
                segs.extend(net::answer(2, b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n", &[]));
                let io = net::ScriptIo::new(segs, false);
                io.0.lock().unwrap().wcaps = arr(&c["wcaps"]);
                io.0.lock().unwrap().vectored = c["vec"].as_bool().unwrap_or(true);
                let o = net::client(io, &json!({}), &json!([{"method":"POST","uri":"/a","headers": hdrs, "body": body}, {"method":"GET","uri":"/b"}]));
                (o.out.clone(), o, false)
            };
            let short = (all.len() as u64) < n;
            if short && !out.windows(4).any(|w| w == b"\r\n\r\n") { return Ok(true); } // given up before anything was written
            let end = match out.windows(4).position(|w| w == b"\r\n\r\n") { Some(e) => e + 4, None => return Err(format!("{}: no head written", d)) };
            let rest = &out[end..];
            if short {
                if rest != all { return Err(format!("{}: a short body is followed by {}", d, show(rest))); }
                if heads && o.msgs.len() > 1 && o.out.len() > end + all.len() { return Err(format!("{}: another response was sent after a short body", d)); }
            } else {
                if rest.len() < lim || rest[..lim] != all[..lim] { return Err(format!("{}: wrote {}", d, show(rest))); }
                let after = &rest[lim..];
                if !after.is_empty() {
                    let ok = if heads { after.starts_with(b"HTTP/1.1 204 ") } else { after.starts_with(b"GET /b HTTP/1.1\r\n") };
                    if !ok { return Err(format!("{}: octets beyond the declared length: {}", d, show(after))); }
                }
            }
        }
    }
    Ok(!all.is_empty())
}

pub fn run(cx: &mut Cx) {
    cx.rule("declared lengths 0..8 against every way of cutting up to 7 octets into non-empty buffers (exhaustive), lengths near 2^64, random larger ones, close-delimited; one-shot ends; and through server and client connections with partial writes, where the second exchange shows what followed");
    let data = b"abc0\r\n\r\n";
    for n in 0..=8u64 {
        for l in 0..=7usize {
            for mask in 0..(1usize << l.saturating_sub(1)) {
                let mut bufs = vec![];
                let mut s = 0;
                for i in 0..l { if i + 1 == l || mask >> i & 1 == 1 { bufs.push(enc(&data[s..i + 1])); s = i + 1; } }
                cx.case(one, json!({"n": n.to_string(), "bufs": bufs}));
                if n == 0 { cx.case(one, json!({"n": null, "bufs": bufs})); }
                if mask % 5 == 0 {
                    for m in ["server", "client"] {
                        cx.case(one, json!({"n": n.to_string(), "bufs": bufs, "mode": m, "exact": null}));
                    }
                }
            }
            if l > 0 {
                for m in ["and_end", "queue"] {
                    for last in [false, true] {
                        if n > 0 { cx.case(one, json!({"n": n.to_string(), "bufs": [enc(&data[..l])], "mode": m, "last": last})); }
                        if n == 1 { cx.case(one, json!({"n": null, "bufs": [enc(&data[..l])], "mode": m, "last": last})); }
                    }
                }
            }
        }
    }
    for big in [u64::MAX,  u64::MAX - 2, 1 << 63, 1 << 32, (1 << 32) + 2] {
        cx.case(one, json!({"n": big.to_string(), "bufs": ["abc", "de"]}));
        cx.case(one, json!({"n": big.to_string(), "bufs": ["abc"], "mode": "and_end"}));
    }
    let mut r = cx.rng(7);
    for i in 0..if cx.thorough { 20000 } else { 2500 } {
        if cx.stop() { break; }
        let k = 1 + r.below(6);
        let bufs: Vec<Vec<u8>> = (0..k).map(|_| { let n = 1 + if r.chance(80) { r.below(20) } else { r.below(9000) }; (0..n).map(|_| *r.pick(b"HTTP/1.1 204\r\n0aF\x00\xff")).collect() }).collect();
        let t: usize = bufs.iter().map(|b| b.len()).sum();
        let n = match r.below(4) { 0 => t, 1 => t + 1 + r.below(5), 2 => r.below(t + 1), _ => t - bufs[k - 1].len() + r.below(bufs[k - 1].len() + 1) };
        let mode = ["", "server", "client"][i % 3];
        let chunks: Vec<Value> = bufs.iter().map(|b| enc(b)).collect();
        let wc: Vec<usize> = if r.chance(60) { (0..1 + r.below(4)).map(|_| *r.pick(&[0usize, 1, 2, 7, 30, 500])).collect() } else { vec![] };
        let wc = if wc.iter().all(|x| *x == 0) { vec![] } else { wc };
        cx.case(one, json!({"n": n.to_string(), "bufs": chunks, "mode": mode, "wcaps": if t > 500 { json!([]) } else { json!(wc) }, "vec": r.chance(60), "eos": r.chance(40), "err": r.chance(10),
            "exact": if r.chance(30) { json!(n) } else { Value::Null }}));
    }
}
