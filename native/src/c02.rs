//! C02: limits on chunked framing. Reference automaton and drivers are c01's.
use crate::c01;
use crate::common::*;
use crate::net;
use serde_json::{json, Value};

fn rep(b: u8, n: usize) -> Vec<u8> { std::iter::repeat(b).take(n).collect() }
/// stream from a compact description (the streams are long)
fn build(c: &Value) -> Vec<u8> {
    let mut s = vec![];
    for p in c["parts"].as_array().unwrap() {
        match p[0].as_str().unwrap() {
            "raw" => s.extend(dec(&p[1])),
            "rep" => s.extend(rep(us(&p[1]) as u8, us(&p[2]))),
            "chunk" => { // size, ext octets
                s.extend(format!("{:x}", us(&p[1])).bytes());
                if us(&p[2]) > 0 { s.push(b';'); s.extend(rep(p[3].as_u64().unwrap_or(b'e' as u64) as u8, us(&p[2]))); }
                s.extend(b"\r\n");
                s.extend(rep(b'd', us(&p[1])));
                s.extend(b"\r\n");
            }
            "last" => {
                s.push(b'0');
                if us(&p[1]) > 0 { s.push(b';'); s.extend(rep(p[2].as_u64().unwrap_or(b'e' as u64) as u8, us(&p[1]))); }
                s.extend(b"\r\n");
            }
            "tr" => for i in 0..us(&p[1]) { s.extend(format!("t{}: ", i).bytes()); s.extend(rep(b'v', us(&p[2]))); s.extend(b"\r\n"); },
            _ => {}
        }
    }
    s
}
pub fn one(c: &Value) -> Res {
    let s = build(c);
    let mut k = json!({"stream": enc(&s), "cuts": c["cuts"], "hdrs": c["hdrs"], "bytes": c["bytes"]});
    if c["via"].is_string() {
        // through connections, with the connection's own header-count limit
        let max = c["hdrs"].as_u64().map(|x| x as usize).unwrap_or(100);
        let e = c01::expect(&s, max, 16384);
        let okay = e.end.is_some() && e.tr.as_ref().map(|t| c01::ref_trailers(t, e.cnt).is_some()).unwrap_or(true);
        let cuts = arr(&c["cuts"]);
        let mut opts = json!({"half_close": true});
        if !c["hdrs"].is_null() { opts["max_headers"] = c["hdrs"].clone(); }
        let o = if c["via"] == "server" {
            let mut w = b"POST /a HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
            w.extend(&s);
            net::server(net::ScriptIo::new(net::cut(&w, &cuts), false), &opts, &json!([{"read":0}]))
        } else {
            let mut w = b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\nx: y\r\n\r\n".to_vec();
            w.extend(&s);
            net::client(net::ScriptIo::new(net::answer(1, &w, &cuts), false), &opts, &json!([{"method":"GET","uri":"/"}]))
        };
        if o.msgs.is_empty() { return Err(format!("message not delivered: {}", c)); }
        let m = &o.msgs[0];
        if okay && (!m.ended || m.err.is_some() || m.body != e.data) { return Err(format!("body within the limits rejected ({:?}): {}", m.err, c)); }
        if !okay && (m.ended || m.err.is_none()) { return Err(format!("body over a limit accepted: {}", c)); }
        return Ok(true);
    }
    k["via"] = Value::Null;
    match c01::one(&k) {
        Ok(b) => Ok(b),
        Err(e) => Err(format!("{} (built from {})", e.chars().take(160).collect::<String>(), c["parts"])),
    }
}

pub fn run(cx: &mut Cx) {
    cx.rule("streams at and around each limit: extension total 16383/16384 in one chunk (and of every octet), spread over several chunks and over the last chunk; trailer octets around the byte limit (default and configured); trailer fields around the field limit (default and configured); size digits around 2^64; each whole and fragmented, directly and through client and server connections; plus random mixes");
    let vias = [Value::Null, json!("server"), json!("client")];
    for via in &vias {
        for cuts in [json!([]), json!([1000]), json!([7, 0, 4096])] {
            for n in [1usize, 100, 16382, 16383, 16384, 16385, 40000] {
                for split in [1usize, 2, 3, 17] {
                    if n < split { continue; }
                    let mut parts = vec![];
                    let mut left = n;
                    for i in 0..split {
                        let k = if i + 1 == split { left } else { n / split };
                        left -= k;
                        if i + 1 == split && n % 2 == 0 { parts.push(json!(["last", k])); } else { parts.push(json!(["chunk", 1 + i, k])); }
                    }
                    if n % 2 == 1 { parts.push(json!(["last", 0])); }
                    parts.push(json!(["raw", "\r\n"]));
                    cx.case(one, json!({"parts": parts, "cuts": cuts, "via": via}));
                }
            }
            for n in [1usize, 2, 10, 99, 100, 101, 150] {
                cx.case(one, json!({"parts": [["last", 0], ["tr", n, 3], ["raw", "\r\n"]], "cuts": cuts, "via": via}));
                for max in [1usize, 2, 10, 11, 120] {
                    if n > 100 && max < 100 { continue; }
                    if !via.is_null() && max < 10 { continue; }
                    cx.case(one, json!({"parts": [["last", 0], ["tr", n, 3], ["raw", "\r\n"]], "cuts": cuts, "via": via, "hdrs": max}));
                }
            }
            for n in 16360usize..=16392 {
                cx.case(one, json!({"parts": [["last", 0], ["tr", 1, n], ["raw", "\r\n"]], "cuts": cuts, "via": via}));
                cx.case(one, json!({"parts": [["last", 0], ["tr", 2, n / 2], ["raw", "\r\n"]], "cuts": cuts, "via": via}));
            }
            for d in ["FFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFF", "0FFFFFFFFFFFFFFFF", "10000000000000000", "fffffffffffffffff", "80000000000000000", "1000000000000000a", "fffffffffffffffe", "20000000000000001", "00000000000000000000000000000001"] {
                cx.case(one, json!({"parts": [["raw", d], ["raw", "\r\nx\r\n0\r\n\r\n"]], "cuts": cuts, "via": via}));
            }
        }
    }
    // every octet of an extension counts, whichever it is
    for b in (0u16..256).filter(|b| *b != 13 && *b != 10) {
        for n in [16383usize, 16384] {
            cx.case(one, json!({"parts": [["chunk", 1, n, b], ["last", 0], ["raw", "\r\n"]], "cuts": []}));
        }
        cx.case(one, json!({"parts": [["chunk", 3, 8000, b], ["chunk", 2, 8384, b'e'], ["last", 0], ["raw", "\r\n"]], "cuts": [5000], "via": vias[b as usize % 3]}));
    }
    // the byte limit when configured
    for b in [8usize, 20, 64, 1000] {
        for d in 0..24usize {
            let v = (b + 4).saturating_sub(d);
            for cuts in [json!([]), json!([1])] {
                cx.case(one, json!({"parts": [["last", 0], ["tr", 1, v], ["raw", "\r\n"]], "cuts": cuts, "bytes": b}));
            }
        }
    }
    let mut r = cx.rng(2);
    for i in 0..if cx.thorough { 4000 } else { 300 } {
        if cx.stop() { break; }
        let mut parts = vec![];
        let mut left = *r.pick(&[16383usize, 16384, 16000, 17000]);
        while left > 0 && r.chance(90) {
            let k = (1 + r.below(6000)).min(left);
            left -= k;
            parts.push(json!(["chunk", 1 + r.below(5), k, *r.pick(&[b'e', b'\t', b' ', b'"', b';', b'\\', 0u8, 0x80, 0xff])]));
        }
        parts.push(json!(["last", left]));
        if r.chance(50) { let n = *r.pick(&[1usize, 3, 50, 99, 100, 101]); parts.push(json!(["tr", n, r.below(200)])); }
        parts.push(json!(["raw", "\r\n"]));
        cx.case(one, json!({"parts": parts, "cuts": c01::gen_cuts(&mut r).into_iter().map(|c| if c == 1 { 100 } else { c }).collect::<Vec<_>>(), "via": vias[i % 3]}));
    }
}
