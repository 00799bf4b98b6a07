//! C16: inbound head buffer.
use crate::common::*;
use crate::net;
use serde_json::{json, Value};

const MIN: usize = 8192;
const DEFAULT: usize = 8192 + 4096 * 100;
pub fn one(c: &Value) -> Res {
    let who = c["who"].as_str().unwrap_or("");
    if who == "strategy" { return strategy(c); }
    if who == "limit" {
        let n = us(&c["max"]);
        let client = c["client"].as_bool().unwrap_or(false);
        let ok = std::panic::catch_unwind(|| {
            if client { let mut b = hyper::client::conn::http1::Builder::new(); b.max_buf_size(n); } else { let mut b = hyper::server::conn::http1::Builder::new(); b.max_buf_size(n); }
        }).is_ok();
        if ok != (n >= MIN) { return Err(format!("max_buf_size({}) on the {}: {}", n, if client { "client" } else { "server" }, if ok { "taken" } else { "refused" })); }
        return Ok(true);
    }
    let max = c["max"].as_u64().map(|x| x as usize);
    let exact = c["exact"].as_u64().map(|x| x as usize);
    let lim = exact.unwrap_or(max.unwrap_or(DEFAULT));
    let size = us(&c["size"]); // octets of the head
    let cuts = arr(&c["cuts"]);
    let first: &[u8] = if who == "client" { b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n" } else { b"POST /a HTTP/1.1\r\nhost: x\r\ncontent-length: 3\r\n" };
    let mut b = first.to_vec();
    let tail = b"\r\n\r\n";
    let line = us(&c["line"]).max(8);
    let mut k = 0;
    while b.len() + tail.len() < size {
        let left = size - b.len() - tail.len();
        if left < 6 || k > 90 { b.extend(vec![b'a'; left]); break; }
        let n = if k == 0 && left >= line { line.min(left) } else { left.min(line) };
        let n = if k >= 90 { left } else { n };
        b.extend(format!("x{:02}: ", k % 100).as_bytes());
        let n = n.saturating_sub(7).min(size - b.len() - tail.len());
        b.extend(vec![b'v'; n]);
        k += 1;
        if b.len() + tail.len() < size && b.len() + tail.len() + 2 + 6 < size { b.extend(b"\r\n"); } else { let l = size - b.len() - tail.len(); b.extend(vec![b'w'; l]); break; }
    }
    b.extend(tail);
    let size = b.len();
    let whole = c["whole"].as_bool().unwrap_or(true);
    if whole { b.extend(b"abc"); } else { b.truncate(size - 4); let n = us(&c["more"]); b.extend(vec![b'z'; n]); }
    let d = format!("{} max {:?}{} head of {} octets{} cuts {}", who, max, exact.map(|e| format!(" exact {}", e)).unwrap_or_default(), size, if whole { "" } else { " never ending" }, c["cuts"]);
    let mut opts = json!({});
    if let Some(m) = max { opts["max_buf"] = json!(m); }
    if let Some(m) = exact { opts["read_exact"] = json!(m); }
    let o = if who == "client" {
        let mut seg = vec![net::Seg::Wait(1)];
        seg.extend(net::cut(&b, &cuts));
        net::client(net::ScriptIo::new(seg, true), &opts, &json!([{"uri": "/a"}]))
    } else {
        net::server(net::ScriptIo::new(net::cut(&b, &cuts), true), &opts, &json!([{}]))
    };
    // octets taken from the peer while the head was not complete
    let mut before = 0;
    for (_, n) in &o.reads { if before < size || !whole { before += n; } }
    if !whole && before > lim { return Err(format!("{}: {} octets were buffered", d, before)); }
    if whole && size > lim && before > lim { return Err(format!("{}: {} octets were buffered", d, before)); }
    for (cap, _) in &o.reads { if *cap > lim.max(MIN) { return Err(format!("{}: a read of {} octets was offered", d, cap)); } }
    let got = o.msgs.len() == 1;
    if whole && size <= lim {
        if !got { return Err(format!("{}: refused ({:?} {:?})", d, o.result, o.send_err)); }
        if o.msgs[0].body != b"abc" { return Err(format!("{}: body {}", d, show(&o.msgs[0].body))); }
    } else {
        if got { return Err(format!("{}: accepted", d)); }
        let total = b.len();
        if total >= lim {
            match o.result { Some(Err(_)) => {}, ref r => if !(who == "client" && !o.send_err.is_empty()) { return Err(format!("{}: the connection did not fail: {:?}", d, r)); } }
            if who == "server" && !o.out.starts_with(b"HTTP/1.1 431") { return Err(format!("{}: answered {}", d, show(&o.out))); }
        }
    }
    Ok(size > 100)
}
fn strategy(c: &Value) -> Res {
    let max = us(&c["max"]);
    let mut s = hyper::verif::io::VStrategy::new(max);
    for n in arr(&c["reads"]) {
        let nx = s.next();
        if nx < MIN || nx > max.max(MIN) || s.max() != max { return Err(format!("max {}, reads {}: asks for {}", max, c["reads"], nx)); }
        s.record(n.min(usize::MAX));
    }
    let nx = s.next();
    if nx < MIN || nx > max { return Err(format!("max {}, reads {}: asks for {}", max, c["reads"], nx)); }
    Ok(true)
}
pub fn run(cx: &mut Cx) {
    cx.rule("read-size strategy: every sequence of up to 6 reads out of sizes at and around its steps, for limits at and around powers of two; limits around the minimum; server and client connections with limits at and around the minimum and powers of two, heads a few octets below, at and above the limit or never ending, cut in various ways; exact read sizes");
    for n in [0usize, 1, MIN - 1, MIN, MIN + 1, 1 << 20] { for cl in [false, true] { cx.case(one, json!({"who": "limit", "max": n, "client": cl})); } }
    for max in [MIN, MIN + 1, 10000, 2 * MIN - 1, 2 * MIN, 2 * MIN + 1, 3 * MIN, 100_000, 1 << 20, DEFAULT, usize::MAX >> 1, usize::MAX] {
        let szs = [0usize, 1, 4095, 4096, MIN - 1, MIN, MIN + 1, 10000, 2 * MIN, 4 * MIN, max / 2, max.saturating_sub(1), max, usize::MAX];
        let k = szs.len();
        let depth = if cx.thorough { 5u32 } else { 3 };
        for i in 0..k.pow(depth) { let mut x = i; let mut v = vec![max, max]; for _ in 0..depth { v.push(szs[x % k]); x /= k; } cx.case(one, json!({"who": "strategy", "max": max, "reads": v})); }
        let mut r = cx.rng(max as u64);
        for _ in 0..if cx.thorough { 3000 } else { 300 } { let n = r.below(80); let v: Vec<usize> = (0..n).map(|_| if r.chance(70) { *r.pick(&szs) } else { r.below(1 << 21) }).collect(); cx.case(one, json!({"who": "strategy", "max": max, "reads": v})); }
    }
    for who in ["server", "client"] {
        for max in [MIN, MIN + 1, 10000, 2 * MIN - 1, 2 * MIN, 20000, 40000] {
            for cuts in [json!([]), json!([1000]), json!([8192]), json!([0, 4097]), json!([max - 1, 1]), json!([max]), json!([max, 0, 1]), json!([5000, 0]), json!([100])] {
                for line in [50, 200, 9000, 100000] {
                    for dl in [-300i64, -4, -3, -2, -1, 0, 1, 2, 3, 4, 300, 20000] {
                        if dl.abs() > 3 || line > 50 || cx.thorough { cx.case(one, json!({"who": who, "max": max, "size": max as i64 + dl, "cuts": cuts, "line": line})); }
                    }
                    for more in [0, 300, 100_000] { cx.case(one, json!({"who": who, "max": max, "size": 3 * max, "cuts": cuts, "line": line, "whole": false, "more": more})); }
                }
            }
        }
        for cuts in [json!([]), json!([65536])] { for dl in [-5i64, 0, 1, 100] { cx.case(one, json!({"who": who, "size": DEFAULT as i64 + dl, "cuts": cuts, "line": 60000})); } }
    }
    for e in [200usize, 1000, 8191, 9000] { for dl in [-50i64, -1, 0, 1, 2, 100, 9000] { for cuts in [json!([]), json!([100]), json!([1])] {
        if e as i64 + dl > 60 { cx.case(one, json!({"who": "client", "exact": e, "size": e as i64 + dl, "cuts": cuts, "line": 60})); }
    } } }
}
