//! C06: Content-Length values.
use crate::common::*;
use crate::net;
use hyper::verif::role as v;
use serde_json::{json, Value};

const LIMIT: u128 = u64::MAX as u128 - 2;
/// one or more digits, as a number that fits 64 bits
fn num(b: &[u8]) -> Option<u64> {
    if b.is_empty() || !b.iter().all(|c| (b'0'..=b'9').contains(c)) { return None; }
    let mut n: u128 = 0;
    for c in b { n = n * 10 + (*c - b'0') as u128; if n > u64::MAX as u128 { return None; } }
    Some(n as u64)
}
fn trim(b: &[u8]) -> &[u8] {
    let ws = |c: &u8| *c == b' ' || *c == b'\t';
    let a = b.iter().position(|c| !ws(c)).unwrap_or(b.len());
    let z = b.iter().rposition(|c| !ws(c)).map(|p| p + 1).unwrap_or(a);
    &b[a..z]
}
/// every member of every value valid and equal
fn all(vs: &[Vec<u8>]) -> Option<u64> {
    let mut got = None;
    for x in vs {
        if x.iter().any(|c| *c >= 0x7f) { return None; }
        for m in x.split(|c| *c == b',') {
            let n = num(trim(m))?;
            if got.map_or(false, |g| g != n) { return None; }
            got = Some(n);
        }
    }
    got
}
fn legal(x: &[u8]) -> bool { x.iter().all(|c| *c == 9 || (*c >= 32 && *c != 127)) }
pub fn one(c: &Value) -> Res {
    let vs: Vec<Vec<u8>> = c["values"].as_array().map(|a| a.iter().map(dec).collect()).unwrap_or_default();
    let d = format!("Content-Length {:?}", vs.iter().map(|x| show(x)).collect::<Vec<_>>());
    match c["mode"].as_str().unwrap_or("") {
        "" => {
            if vs.len() == 1 && v::cl_parse(&vs[0]) != num(&vs[0]) { return Err(format!("{}: read as {:?}", d, v::cl_parse(&vs[0]))); }
            let g = v::cl_parse_all(&vs);
            if g != all(&vs) { return Err(format!("{}: as a list read as {:?}, expected {:?}", d, g, all(&vs))); }
        }
        m => {
            let mut h = String::new();
            let mut raw = vec![];
            for x in &vs { h.push_str("x"); raw.extend(b"content-length:"); raw.extend(x); raw.extend(b"\r\n"); }
            let t: Vec<Vec<u8>> = vs.iter().map(|x| trim(x).to_vec()).collect();
            // what is allowed: the number, or refusal; numbers other than the agreed one never
            let single = t.iter().map(|x| num(x)).collect::<Option<Vec<_>>>().and_then(|n| if n.iter().all(|x| *x == n[0]) { n.first().cloned() } else { None });
            let agreed = all(&t).filter(|n| (*n as u128) <= LIMIT);
            let single = single.filter(|n| (*n as u128) <= LIMIT);
            let body = b"0123456789abcdef";
            let mut b;
            let o = if m == "server" {
                b = b"POST /a HTTP/1.1\r\nhost: x\r\n".to_vec(); b.extend(&raw); b.extend(b"\r\n"); b.extend(body);
                net::server(net::ScriptIo::new(net::cut(&b, &[]), true), &json!({}), &json!([{"read": 2}]))
            } else {
                b = b"HTTP/1.1 200 OK\r\n".to_vec(); b.extend(&raw); b.extend(b"\r\n"); b.extend(body);
                net::client(net::ScriptIo::new(net::answer(1, &b, &[]), true), &json!({}), &json!([{"uri": "/a", "read": 2}]))
            };
            let got = o.msgs.get(0).map(|m| m.hint);
            match (got, agreed) {
                (Some(_), None) => return Err(format!("{}: {} took a message whose length is not agreed: {:?}", d, m, o.msgs[0].hint)),
                (Some((lo, hi)), Some(n)) => if lo != n || hi != Some(n) { return Err(format!("{}: {} read {}..{:?}", d, m, lo, hi)); },
                (None, Some(n)) => if m == "client" || single.is_some() { return Err(format!("{}: {} refused the valid length {} ({:?} {:?})", d, m, n, o.result, o.send_err)); },
                (None, None) => {}
            }
        }
    }
    Ok(vs.iter().any(|x| !x.is_empty()))
}
pub fn run(cx: &mut Cx) {
    cx.rule("every single octet, every two-octet value, every value of up to 4 octets over digits, signs, blanks and separators, numbers around every power of ten and of two up to far beyond 64 bits with leading zeros; lists and repetitions of those; parsed directly and through server and client connections");
    for a in 0..=255u8 { if legal(&[a]) { cx.case(one, json!({"values": [enc(&[a])]})); for b in 0..=255u8 { if legal(&[b]) { cx.case(one, json!({"values": [enc(&[a, b])]})); } } } }
    cx.case(one, json!({"values": [""]}));
    cx.case(one, json!({"values": []}));
    let al = b"0179+- \t,xX.e_";
    let k = al.len();
    for n in 0..k * k * k {
        let v = [al[n % k], al[n / k % k], al[n / k / k]];
        cx.case(one, json!({"values": [enc(&v)]}));
        for x in al { if cx.thorough || n % 5 == 0 { cx.case(one, json!({"values": [enc(&[v[0], v[1], v[2], *x])]})); } }
    }
    let mut nums: Vec<String> = vec![];
    for p in 0..130u32 { if let Some(b) = 2u128.checked_pow(p.min(127)) { for dl in -3i128..=3 { let x = (b as i128).saturating_add(dl); if x >= 0 { nums.push(x.to_string()); } } } }
    for p in 0..38u32 { let b = 10i128.pow(p); for dl in -1..=1 { nums.push((b + dl).to_string()); } }
    for k in 1..=12u64 { let m = u64::MAX as u128; nums.push((m * k as u128).to_string()); nums.push((m * k as u128 + k as u128 - 1).to_string()); nums.push((m + 1 + k as u128).to_string()); nums.push(((m + 1) * k as u128 + 7).to_string()); }
    nums.sort(); nums.dedup();
    for n in &nums {
        for w in [n.clone(), format!("0{}", n), format!("{}{}", "0".repeat(30), n), format!("+{}", n), format!("-{}", n), format!(" {} ", n), format!("{} {}", n, n), format!("{}.", n), format!("{}\u{b2}", n), format!("0x{}", n)] {
            cx.case(one, json!({"values": [w.clone()]}));
            for m in ["server", "client"] { cx.case(one, json!({"values": [w.clone()], "mode": m})); }
        }
    }
    let pool = ["5", "05", "6", "5,5", "5, 5", "5 ,5", "5,6", "6,5", "5,", ",5", "", " ", ",", "+5", "5 5", "5;5", "18446744073709551615", "18446744073709551613", "18446744073709551614", "18446744073709551621", "x", "\u{b5}", "5,\t5", "5,,5", "0", "0,0", "-0", "5\u{b5}", "0x5", "5.0"];
    for a in pool { for b in pool { for m in ["", "server", "client"] {
        cx.case(one, json!({"values": [a, b], "mode": m}));
        if m.is_empty() || cx.thorough { for c in pool { cx.case(one, json!({"values": [a, b, c], "mode": m})); } }
    } } }
    for a in pool { for m in ["server", "client"] { cx.case(one, json!({"values": [a], "mode": m})); } }
    for c in 0..=255u8 { if legal(&[c]) { for m in ["server", "client"] { for w in [vec![c], vec![b'5', c], vec![c, b'5'], vec![b'5', c, b'5']] { cx.case(one, json!({"values": [enc(&w)], "mode": m})); } } } }
    let mut r = cx.rng(6);
    for _ in 0..if cx.thorough { 200000 } else { 10000 } {
        if cx.stop() { break; }
        let vs: Vec<Value> = (0..1 + r.below(4)).map(|_| { let k = 1 + r.below(3); json!((0..k).map(|_| if r.chance(60) { r.pick(&["5", "5 ", "\t5", "05"]).to_string() } else if r.chance(50) { r.pick(&pool).to_string() } else { r.pick(&nums).clone() }).collect::<Vec<_>>().join(",")) }).collect();
        cx.case(one, json!({"values": vs, "mode": *r.pick(&["", "", "server", "client"])}));
    }
}
