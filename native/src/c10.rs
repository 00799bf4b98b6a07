//! C10: response heads agree with the body sent.
use crate::c10::head::*;
use crate::common::*;
use crate::framing::*;
use crate::net;
use hyper::verif::role as v;
use serde_json::{json, Value};
mod head {
    use super::*;
    pub fn head_lines(b: &[u8]) -> Result<(String, Lines), String> {
        if !b.ends_with(b"\r\n\r\n") { return Err(format!("the head does not end in an empty line: {}", show(b))); }
        let b = &b[..b.len() - 4];
        let mut out = vec![];
        let mut start = None;
        let mut i = 0;
        loop {
            let e = b[i..].windows(2).position(|w| w == b"\r\n").map(|p| i + p).unwrap_or(b.len());
            let l = &b[i..e];
            if l.is_empty() { return Err(format!("an empty line within the head: {}", show(b))); }
            if start.is_none() { start = Some(String::from_utf8_lossy(l).to_string()); } else {
                let c = l.windows(2).position(|w| w == b": ").ok_or(format!("line {} is not a field", show(l)))?;
                out.push((String::from_utf8_lossy(&l[..c]).to_lowercase(), l[c + 2..].to_vec()));
            }
            if e >= b.len() { break; }
            i = e + 2;
        }
        Ok((start.unwrap_or_default(), out))
    }
}
fn body_of(v: &Value) -> Option<Option<u64>> { if v.is_null() { None } else if v == "unknown" { Some(None) } else { Some(v.as_u64()) } }
fn can_body(method: &str, s: u16) -> bool { !(method == "HEAD" || method == "CONNECT" && (200..300).contains(&s) || s < 200 || s == 204 || s == 304) }
fn direct(c: &Value) -> Res {
    let method = c["method"].as_str();
    let m = method.unwrap_or("");
    let ver = c["version"].as_str().unwrap_or("1.1");
    let v11 = ver != "1.0";
    let s = c["status"].as_u64().unwrap_or(200) as u16;
    let h = net::hmap(&c["lines"]);
    let given: Lines = net::hlist(&h);
    let body = body_of(&c["body"]);
    let ucl = vals(&given, "content-length");
    let ute = vals(&given, "transfer-encoding");
    // what the caller owes: its Content-Length is what its body says (asserted by the code in debug builds)
    if let Some(Some(n)) = body { if ucl.iter().any(|v| num(v) != Some(n)) { return Ok(false); } }
    let (ka, date) = (c["close"] != json!(true), c["date"] == json!(true));
    let d = format!("{} response {} version {} with {:?}, body {}", m, s, ver, given.iter().map(|x| format!("{}: {}", x.0, show(&x.1))).collect::<Vec<_>>(), c["body"]);
    let connect = m == "CONNECT" && (200..300).contains(&s);
    let e = match v::server_encode(s, ver, h, body, method, ka, c["title"] == json!(true), date) {
        Ok(e) => e,
        Err((e, dst)) => {
            if s < 200 && s != 101 {
                // not supported: a 500 goes out instead
                let Some(w) = dst.strip_prefix(b"PREVIOUS") else { return Err(format!("{}: earlier octets changed", d)) };
                let (start, l) = head_lines(w)?;
                if !start.starts_with("HTTP/1.1 500 ") || !vals(&l, "transfer-encoding").is_empty() { return Err(format!("{}: {} written instead", d, show(w))); }
                return Ok(true);
            }
            if dst != b"PREVIOUS" { return Err(format!("{}: refused but {} was left behind", d, show(&dst))); }
            // refused only for fields that cannot both be written
            let rawcl: Vec<&[u8]> = given.iter().filter(|x| x.0 == "content-length").map(|x| &x.1[..]).collect();
            let fine = ucl.is_empty() && ute.is_empty() || !connect && (ute.is_empty() && ucl.len() == 1 && num(rawcl[0]).is_some() || ucl.is_empty());
            if fine { return Err(format!("{}: refused: {}", d, e)); }
            return Ok(true);
        }
    };
    if s < 200 && s != 101 { return Err(format!("{}: written", d)); }
    let Some(w) = e.dst.strip_prefix(b"PREVIOUS") else { return Err(format!("{}: earlier octets changed", d)) };
    let (start, l) = head_lines(w)?;
    let d = format!("{}: written {}, body written as {}", d, show(w), e.kind);
    if !start.starts_with(&format!("HTTP/1.{} {} ", v11 as u8, s)) { return Err(format!("{}: status line", d)); }
    let (te, cl) = (vals(&l, "transfer-encoding"), vals(&l, "content-length"));
    if !te.is_empty() && !cl.is_empty() || te.len() > 1 || cl.len() > 1 { return Err(format!("{}: several delimiters", d)); }
    if !te.is_empty() && !v11 { return Err(format!("{}: transfer coding towards HTTP/1.0", d)); }
    if (s < 200 || s == 204 || connect) && (!te.is_empty() || !cl.is_empty()) { return Err(format!("{}: no delimiter may be sent", d)); }
    if !can_body(m, s) {
        if e.kind != "0" { return Err(format!("{}: a body where there is none", d)); }
        if let (Some(v), Some(Some(n))) = (cl.first(), body) { if n > 0 && num(v) != Some(n) { return Err(format!("{}: Content-Length and body differ", d)); } }
    } else if !te.is_empty() {
        if e.kind != "chunked" || !members(te[0]).last().unwrap().eq_ignore_ascii_case(b"chunked") { return Err(format!("{}: transfer coding and body differ", d)); }
        // the codings the service names, and chunked once more only if they do not end in it
        if let Some(t) = ute.last() {
            let mut all: Vec<&[u8]> = ute.iter().flat_map(|v| members(v)).collect();
            if !ends_chunked(t) { all.push(b"chunked"); }
            if members(te[0]) != all { return Err(format!("{}: the codings are not the ones given, then chunked", d)); }
        }
    } else if !cl.is_empty() {
        if num(cl[0]).map(|n| n.to_string()) != Some(e.kind.clone()) { return Err(format!("{}: Content-Length and body differ", d)); }
    } else if e.kind != "close" { return Err(format!("{}: a body without a delimiter", d)); }
    if can_body(m, s) {
        let want = if v11 && !ute.is_empty() { "chunked".into() } else { match body { None | Some(Some(0)) => "0".to_string(), Some(Some(n)) => n.to_string(), Some(None) => match ucl.first() { Some(v) => num(v).map_or("?".into(), |n| n.to_string()), None => if v11 { "chunked".into() } else { "close".into() } } } };
        if e.kind != want { return Err(format!("{}: expected {}", d, want)); }
    }
    let asks = vals(&given, "connection").iter().any(|v| text(v) && members(v).iter().any(|m| m.eq_ignore_ascii_case(b"close")));
    if e.is_last != (!ka || asks || s == 101 || connect) { return Err(format!("{}: last on the connection: {}", d, e.is_last)); }
    // the rest goes out as given, lists on one line
    let chunkable = v11 && can_body(m, s);
    let special = |n: &str| n == "transfer-encoding" || n == "content-length" || n == "trailer" && !chunkable;
    let mut want: Lines = given.iter().filter(|x| !special(&x.0) && x.0 != "connection" && x.0 != "trailer").cloned().collect();
    for n in ["connection", "trailer"] {
        let all: Vec<Vec<u8>> = given.iter().filter(|x| x.0 == n && !special(n)).map(|x| x.1.clone()).collect();
        if !all.is_empty() { want.push((n.into(), all.join(&b", "[..]))); }
    }
    let mut got: Lines = l.iter().filter(|x| !(x.0 == "transfer-encoding" || x.0 == "content-length")).cloned().collect();
    if date && vals(&given, "date").is_empty() {
        let n = got.iter().filter(|x| x.0 == "date").count();
        if n != 1 { return Err(format!("{}: {} dates", d, n)); }
        got.retain(|x| x.0 != "date");
    }
    let key = |l: &Lines| { let mut l = l.clone(); l.sort_by(|a, b| a.0.cmp(&b.0)); l };
    if key(&got) != key(&want) { return Err(format!("{}: other fields differ, expected {:?}", d, want.iter().map(|x| format!("{}: {}", x.0, show(&x.1))).collect::<Vec<_>>())); }
    Ok(!given.is_empty())
}
fn conn(c: &Value) -> Res {
    let none = vec![];
    let reqs = c["reqs"].as_array().unwrap_or(&none);
    let mut all = vec![];
    for (i, q) in reqs.iter().enumerate() { all.extend(format!("{} /{} HTTP/1.{}\r\nhost: h\r\n\r\n", q["method"].as_str().unwrap_or("GET"), i, (q["v10"] != json!(true)) as u8).bytes()); }
    let svc: Vec<Value> = reqs.iter().map(|q| q["svc"].clone()).collect();
    let o = net::server(net::ScriptIo::new(net::cut(&all, &[]), true), &json!({"date": false}), &json!(svc));
    let d = format!("requests {}: written {}", c["reqs"], show(&o.out));
    let mut b = &o.out[..];
    let mut i = 0;
    let mut open = true;
    while !b.is_empty() {
        let Some(q) = reqs.get(i) else { return Err(format!("{}: more responses than requests", d)) };
        let m = q["method"].as_str().unwrap_or("GET");
        let s = us(&q["svc"]["status"]) as u16;
        if !open { return Err(format!("{}: octets follow an incomplete response", d)); }
        let nobody = !can_body(m, s);
        let (p, used) = match net::read_msg(b, true, nobody) { Ok(Some(x)) => x, r => return Err(format!("{}: not a response at {} ({:?})", d, show(b), r.map(|_| ()))) };
        if !p.start.contains(&format!(" {} ", s)) { return Err(format!("{}: {} where response {} ({}) was due", d, p.start, i, s)); }
        let total = net::ScriptBody::total(&q["svc"]["body"]);
        if !nobody && !total.starts_with(&p.body) { return Err(format!("{}: body {} of response {}", d, show(&p.body), i)); }
        if !nobody && (p.complete && p.framing == "chunked" || p.framing == "close") && p.body != total { return Err(format!("{}: body {} of response {}", d, show(&p.body), i)); }
        open = p.complete;
        b = &b[used..];
        i += 1;
    }
    Ok(i > 0)
}
pub fn one(c: &Value) -> Res { if c["mode"] == "conn" { conn(c) } else { direct(c) } }
const EXTRA: &[(&str, &str)] = &[("trailer", "x-a, x-b"), ("trailer", "x-c"), ("date", "now"), ("connection", "close"), ("connection", "keep-alive"), ("content-length", "5"), ("transfer-encoding", "gzip"), ("transfer-encoding", "chunked"), ("x-a", "1"), ("server", "s")];
pub fn run(cx: &mut Cx) {
    cx.rule("every field line of a pool around framing, every ordered pair, random longer heads, with statuses, versions, methods and body sizes, through the head writer; and sequences of requests answered with such heads and real bodies on server connections, what is written being read back by an independent parser");
    let n = if cx.thorough { 40000 } else { 4000 };
    const ST: &[u16] = &[200, 200, 204, 304, 404, 101, 100, 201, 299, 300, 500, 199, 205];
    heads(cx, 10, n, |cx, l, r| {
        let mut l = l;
        if r.chance(30) { for _ in 0..r.range(1, 3) { let x = *r.pick(EXTRA); l.as_array_mut().unwrap().push(json!([x.0, x.1])); } }
        for version in ["1.1", "1.0"] { for body in [json!(null), json!("unknown"), json!(*r.pick(&[0u64, 5, 5, 7]))] {
            cx.case(one, json!({"method": *r.pick(&[Some("GET"), Some("POST"), Some("HEAD"), Some("CONNECT"), None]), "status": *r.pick(ST), "version": if version == "1.1" && r.chance(10) { "2" } else { version }, "lines": l, "body": body,
                "title": r.chance(20), "close": r.chance(20), "date": r.chance(40)}));
        } }
        if r.chance(if cx.thorough { 60 } else { 25 }) || l.as_array().unwrap().len() < 2 {
            let mut reqs = vec![];
            for k in 0..2 {
                let ch: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&["hello", "some octets", "x"])).collect();
                let t: usize = ch.iter().map(|c| c.len()).sum();
                let exact = r.chance(50);
                let mut lines = if k == 0 || r.chance(50) { l.clone() } else { json!([]) };
                // what the caller owes
                if exact { lines.as_array_mut().unwrap().retain(|x| !x[0].as_str().unwrap().eq_ignore_ascii_case("content-length") || num(trim(&dec(&x[1]))) == Some(t as u64)); }
                reqs.push(json!({"method": *r.pick(&["POST", "GET", "HEAD"]), "v10": r.chance(20), "svc": {"status": *r.pick(&[200, 204, 304, 404, 201]), "version": if r.chance(10) { json!("1.0") } else { json!(null) }, "headers": lines,
                    "body": {"chunks": ch, "exact": if exact { json!(t) } else { json!(null) }, "eos": r.chance(70)}}}));
            }
            cx.case(one, json!({"mode": "conn", "reqs": reqs}));
        }
    });
}
