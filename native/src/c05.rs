//! C05: response framing.
use crate::common::*;
use crate::framing::*;
use crate::net;
use hyper::verif::role as v;
use serde_json::{json, Value};

const PAY: &[u8] = b"5\r\nhello\r\n0\r\n\r\n";
pub fn one(c: &Value) -> Res {
    let l = lines(&c["lines"]);
    let v11 = c["v10"] != json!(true);
    let code = us(&c["code"]) as u16;
    let method = c["method"].as_str().unwrap_or("GET");
    let b = raw(&format!("HTTP/1.{} {:03} OK", v11 as u8, code), &l);
    let want = response(code, v11, method, &l);
    let mut pre = vec![];
    for n in arr(&c["interim"]) { pre.extend(raw(&format!("HTTP/1.1 {:03} Wait", n), &vec![("x-i".into(), b"1".to_vec()), ("content-length".into(), b"3".to_vec())])); }
    let d = format!("response {}{} to {}", show(&pre), show(&b), method);
    if c["mode"] == json!("conn") {
        let mut all = pre.clone();
        all.extend(&b);
        // after an interim head: the final one
        if want == Resp::Skip { all.extend(b"HTTP/1.1 200 Fine\r\ncontent-length: 2\r\n\r\nhi"); } else { all.extend(PAY); }
        let mut io = net::answer(1, &all, &[]);
        io.push(net::Seg::Eof);
        let o = net::client(net::ScriptIo::new(io, false), &json!({}), &json!([{"uri": if method == "CONNECT" { "h:80" } else { "/a" }, "method": method}]));
        let msg = o.msgs.first();
        return match (want, msg) {
            (Resp::Bad, Some(m)) => Err(format!("{}: must be refused, the caller got {:?}", d, m)),
            (Resp::Bad, None) => if o.send_err.is_empty() { Err(format!("{}: no error reached the caller", d)) } else { Ok(true) },
            (Resp::Skip, None) | (Resp::As(..), None) => Err(format!("{}: no response reached the caller: {:?} {:?}", d, o.send_err, o.result)),
            (Resp::Skip, Some(m)) => {
                let hi: &[u8] = if method == "HEAD" || method == "CONNECT" { b"" } else { b"hi" };
                if o.msgs.len() != 1 || !m.start.starts_with("HTTP/1.1 200") || m.body != hi { Err(format!("{}: interim, the caller got {:?}", d, o.msgs)) } else { Ok(true) }
            }
            (Resp::As(f, up), Some(m)) => {
                let (body, hint): (&[u8], (u64, Option<u64>)) = match f { Fr::Chunked => (b"hello", (0, None)), Fr::Close => (PAY, (0, None)), Fr::Len(n) => (&PAY[..(n as usize).min(PAY.len())], (n, Some(n))) };
                if m.body != body || m.hint != hint { return Err(format!("{}: framed as {:?} the body is {}, size {:?}; the caller read {}, size {:?}", d, f, show(body), hint, show(&m.body), m.hint)); }
                if !m.start.starts_with(&format!("HTTP/1.{} {:03}", v11 as u8, code)) || !same_headers(&m.headers, &l) { return Err(format!("{}: the caller got {:?}", d, m)); }
                let whole = !matches!(f, Fr::Len(n) if n as usize > PAY.len());
                if m.ended != whole || m.err.is_none() != whole { return Err(format!("{}: body ended: {}, error {:?}", d, m.ended, m.err)); }
                let _ = up;
                Ok(true)
            }
        };
    }
    let mut all = pre.clone();
    all.extend(&b);
    if want != Resp::Skip || c["more"] == json!(true) { all.extend(if want == Resp::Skip { &b"HTTP/1.1 203 Fine\r\ncontent-length: 2\r\n\r\n"[..] } else { b"rest" }); }
    match (v::client_parse(&all, None, Some(method), false), want) {
        (Ok(Some(h)), Resp::Bad) => Err(format!("{}: must be refused, taken as {}", d, h.framing)),
        (Err(_), Resp::Bad) => Ok(true),
        (Ok(None), Resp::Skip) if c["more"] != json!(true) => Ok(true),
        (Ok(Some(h)), Resp::Skip) if c["more"] == json!(true) && h.subject == "203" && h.rest.is_empty() && h.headers.len() == 1 => Ok(true),
        (r, Resp::Skip) => Err(format!("{}: interim, parsed to {:?}", d, r)),
        (Err(e), w) => Err(format!("{}: is framed as {:?}, refused: {}", d, w, e)),
        (Ok(None), _) => Err(format!("{}: complete, but more was asked for", d)),
        (Ok(Some(h)), Resp::As(f, up)) => {
            if h.framing != fr_name(&f) || h.wants_upgrade != up { return Err(format!("{}: taken as {} (tunnel {}), expected {} (tunnel {})", d, h.framing, h.wants_upgrade, fr_name(&f), up)); }
            if h.rest != b"rest" || h.subject != code.to_string() || h.version != format!("HTTP/1.{}", v11 as u8) || !same_headers(&h.headers, &l) { return Err(format!("{}: read as {:?}", d, h)); }
            Ok(!l.is_empty())
        }
    }
}
pub fn run(cx: &mut Cx) {
    cx.rule("every status code with several framings and methods; every field line of a pool around framing, every ordered pair, random longer heads, with both versions, with and without interim heads before; parsed directly and read through client connections");
    let ms = ["GET", "HEAD", "CONNECT", "POST", "OPTIONS", "DELETE", "get"];
    for code in 100..=999u16 {
        for m in ms {
            for l in [json!([]), json!([["content-length", "5"]]), json!([["transfer-encoding", "chunked"]]), json!([["transfer-encoding", "gzip"], ["content-length", "5"]]), json!([["content-length", "x"]])] {
                for v10 in [false, true] {
                    cx.case(one, json!({"lines": l, "v10": v10, "code": code, "method": m, "more": code % 2 == 0}));
                    if code != 101 && m != "get" && !(m == "CONNECT" && code / 100 == 2) && (code % 100 < 5 || cx.thorough) { cx.case(one, json!({"lines": l, "v10": v10, "code": code, "method": m, "mode": "conn"})); }
                }
            }
        }
    }
    let n = if cx.thorough { 60000 } else { 5000 };
    let codes = [200u16, 200, 204, 206, 301, 304, 404, 500, 100, 103, 101, 199, 205];
    heads(cx, 5, n, |cx, l, r| {
        for v10 in [false, true] {
            let m = ms[if r.chance(60) { 0 } else { r.below(6) }];
            let code = codes[if r.chance(50) { 0 } else { r.below(codes.len()) }];
            let interim: Vec<u16> = (0..r.below(3)).map(|_| [100u16, 102, 103, 199][r.below(4)]).collect();
            cx.case(one, json!({"lines": l, "v10": v10, "code": code, "method": m, "interim": interim, "more": r.chance(50)}));
            if code != 101 && !(m == "CONNECT" && code / 100 == 2) && (r.chance(if cx.thorough { 60 } else { 30 }) || l.as_array().unwrap().len() < 2) { cx.case(one, json!({"lines": l, "v10": v10, "code": code, "method": m, "mode": "conn", "interim": interim})); }
        }
    });
}
