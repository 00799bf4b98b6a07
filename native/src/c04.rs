//! C04: request framing.
use crate::common::*;
use crate::framing::*;
use crate::net;
use hyper::verif::role as v;
use serde_json::{json, Value};

const PAY: &[u8] = b"5\r\nhello\r\n0\r\n\r\nGET /next HTTP/1.1\r\nhost: x\r\n\r\n";
pub fn one(c: &Value) -> Res {
    let l = lines(&c["lines"]);
    let v11 = c["v10"] != json!(true);
    let method = c["method"].as_str().unwrap_or("POST");
    let start = format!("{} /a HTTP/1.{}", method, v11 as u8);
    let b = raw(&start, &l);
    let d = format!("request {}", show(&b));
    let (want, may) = request(v11, &l);
    let (te, cl) = (vals(&l, "transfer-encoding"), vals(&l, "content-length"));
    // what is handed on
    let handed: Lines = if !te.is_empty() { l.iter().filter(|x| !x.0.eq_ignore_ascii_case("content-length")).cloned().collect() } else {
        let mut seen = false;
        l.iter().filter(|x| !x.0.eq_ignore_ascii_case("content-length") || !std::mem::replace(&mut seen, true)).cloned().collect() };
    let all_same: Lines = if te.is_empty() { l.clone() } else { handed.clone() };
    if c["mode"] == json!("conn") {
        let mut all = b.clone();
        all.extend(PAY);
        let o = net::server(net::ScriptIo::new(net::cut(&all, &[]), true), &json!({}), &json!([{}]));
        let Some(w) = want else {
            if !o.msgs.is_empty() { return Err(format!("{}: must be refused, the service got {} {:?}", d, o.msgs[0].start, o.msgs[0].headers)); }
            if !matches!(o.result, Some(Err(_))) || !o.out.starts_with(b"HTTP/1.1 4") { return Err(format!("{}: must be refused with an error, the connection says {:?} after writing {}", d, o.result, show(&o.out))); }
            return Ok(true);
        };
        if o.msgs.is_empty() { if may { return Ok(true); } return Err(format!("{}: not handed to the service: {:?}", d, o.result)); }
        let m = &o.msgs[0];
        let (body, hint): (&[u8], (u64, Option<u64>)) = match w { Fr::Chunked => (b"hello", (0, None)), Fr::Len(n) => (&PAY[..(n as usize).min(PAY.len())], (n, Some(n))), Fr::Close => unreachable!() };
        if m.body != body || m.hint != hint { return Err(format!("{}: framed as {:?} the body is {}, size {:?}; the service read {}, size {:?}", d, w, show(body), hint, show(&m.body), m.hint)); }
        if !same_headers(&m.headers, &handed) && !same_headers(&m.headers, &all_same) { return Err(format!("{}: handed on with {:?}", d, m.headers)); }
        let whole = !matches!(w, Fr::Len(n) if n as usize > PAY.len());
        if m.ended != whole { return Err(format!("{}: body ended: {}, error {:?}", d, m.ended, m.err)); }
        return Ok(true);
    }
    let cached = c["max"].as_u64().map(|x| x as usize);
    let mut all = b.clone();
    all.extend(b"rest");
    match (v::server_parse(&all, None, cached), want) {
        (Ok(Some(h)), None) => Err(format!("{}: must be refused, taken as {}", d, h.framing)),
        (Err(_), None) => Ok(true),
        (Err(e), Some(w)) => if may { Ok(true) } else { Err(format!("{}: is framed as {:?}, refused: {}", d, w, e)) },
        (Ok(None), _) => Err(format!("{}: complete, but more was asked for", d)),
        (Ok(Some(h)), Some(w)) => {
            if h.framing != fr_name(&w) { return Err(format!("{}: taken as {}, expected {}", d, h.framing, fr_name(&w))); }
            if h.rest != b"rest" || h.subject != format!("{} /a", method) || h.version != format!("HTTP/1.{}", v11 as u8) { return Err(format!("{}: read as {:?}", d, h)); }
            let hs: Vec<(String, Vec<u8>)> = h.headers.clone();
            if !same_headers(&hs, &handed) && !same_headers(&hs, &all_same) { return Err(format!("{}: handed on with {:?}", d, hs)); }
            if !te.is_empty() && !cl.is_empty() && h.keep_alive { return Err(format!("{}: both framings named and the connection kept", d)); }
            Ok(!l.is_empty())
        }
    }
}
pub fn run(cx: &mut Cx) {
    cx.rule("every field line of a pool around framing, every ordered pair, random longer heads, with both versions and several methods; parsed directly and sent through server connections with a body both framings can read, followed by another request");
    let n = if cx.thorough { 60000 } else { 6000 };
    heads(cx, 4, n, |cx, l, r| {
        for v10 in [false, true] {
            let m = ["POST", "POST", "GET", "HEAD", "CONNECT", "PUT", "DELETE", "OPTIONS"][r.below(8)];
            if m != "CONNECT" { cx.case(one, json!({"lines": l, "v10": v10, "method": m})); }
            if r.chance(if cx.thorough { 60 } else { 35 }) || l.as_array().unwrap().len() < 2 { cx.case(one, json!({"lines": l, "v10": v10, "method": if m == "CONNECT" || m == "HEAD" { "POST" } else { m }, "mode": "conn"})); }
        }
    });
}
