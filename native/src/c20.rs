//! C20: the adaptive HTTP/2 window.
use crate::common::*;
use crate::h2net;
use hyper::verif::ping::VBdp;
use serde_json::{json, Value};
use std::time::Duration;

const MIN: u64 = 65_535;
const LIMIT: u64 = 16 * 1024 * 1024;
/// one frame at a time: (type, flags, stream, payload, end offset)
fn frames(b: &[u8], skip: usize) -> Vec<(u8, u8, u32, Vec<u8>, usize)> {
    let mut v = vec![];
    let mut p = skip;
    while p + 9 <= b.len() {
        let n = (b[p] as usize) << 16 | (b[p + 1] as usize) << 8 | b[p + 2] as usize;
        if p + 9 + n > b.len() { break; }
        v.push((b[p + 3], b[p + 4], u32::from_be_bytes([b[p + 5], b[p + 6], b[p + 7], b[p + 8]]) & 0x7fff_ffff, b[p + 9..p + 9 + n].to_vec(), p + 9 + n));
        p += 9 + n;
    }
    v
}
/// what one side asked its peer to send, against what it had received when it asked
fn judge(who: &str, log: &[u8], rlog: &[u8], order: &[(usize, usize)], client: bool) -> Result<usize, String> {
    let (wskip, rskip) = if client { (24, 0) } else { (0, 24) };
    let data: Vec<(usize, usize)> = frames(rlog, rskip).iter().filter(|f| f.0 == 0).map(|f| (f.4, f.3.len())).collect();
    let mut last = MIN;
    let mut asked = 0;
    let mut credit = MIN;
    for f in frames(log, wskip) {
        // octets of DATA this side had read from the transport when this frame was on the wire
        let read = order.iter().find(|o| o.0 >= f.4).map(|o| o.1).unwrap_or(usize::MAX);
        let got: u64 = data.iter().filter(|d| d.0 <= read).map(|d| d.1 as u64).sum();
        if f.0 == 4 && f.1 & 1 == 0 {
            for e in f.3.chunks(6) { if e.len() == 6 && e[1] == 4 && e[0] == 0 {
                let w = u32::from_be_bytes([e[2], e[3], e[4], e[5]]) as u64;
                if w < last { return Err(format!("{}: asked for a stream window of {} after {}", who, w, last)); }
                if w > LIMIT { return Err(format!("{}: asked for a stream window of {}", who, w)); }
                if w > last { asked += 1; }
                last = w;
            } }
        }
        if f.0 == 8 && f.2 == 0 && f.3.len() == 4 {
            credit += (u32::from_be_bytes([f.3[0], f.3[1], f.3[2], f.3[3]]) & 0x7fff_ffff) as u64;
            if credit > got + LIMIT { return Err(format!("{}: {} octets of connection window were outstanding", who, credit - got)); }
        }
    }
    Ok(asked)
}
pub fn one(c: &Value) -> Res {
    if c["samples"].is_array() {
        let start = c["start"].as_u64().unwrap_or(MIN);
        let mut b = VBdp::new(start as u32);
        let mut w = start;
        let mut moved = false;
        for (i, s) in c["samples"].as_array().unwrap().iter().enumerate() {
            let bytes = s[0].as_u64().unwrap_or(0) as usize;
            let rtt = Duration::new(s[1].as_u64().unwrap_or(0), s[2].as_u64().unwrap_or(0) as u32 % 1_000_000_000);
            let r = b.calculate(bytes, rtt);
            let d = format!("sample {} of {}: {} octets in {:?} with a window of {}", i, c["samples"].as_array().unwrap().len(), bytes, rtt, w);
            if let Some(n) = r {
                if (n as u64) < w { return Err(format!("{}: shrunk to {}", d, n)); }
                if n as u64 > LIMIT { return Err(format!("{}: {} asked for", d, n)); }
                moved = true;
                w = n as u64;
            }
            if b.window() as u64 != w { return Err(format!("{}: the estimator holds {} and asked for {}", d, b.window(), w)); }
        }
        return Ok(moved);
    }
    // a real exchange with the adaptive window on
    let n = us(&c["octets"]);
    let piece = us(&c["piece"]).max(1);
    let body = json!({"chunks": (0..n.div_ceil(piece)).map(|i| enc(&vec![b'x'; piece.min(n - i * piece)])).collect::<Vec<_>>()});
    let (mut a, mut b) = h2net::duplex(us(&c["cap"]).max(1));
    a.tracing = true;
    b.tracing = true;
    let (la, ra, oa) = (a.log.clone(), a.rlog.clone(), a.order.clone());
    let (lb, rb, ob) = (b.log.clone(), b.rlog.clone(), b.order.clone());
    let up = c["up"] == true;
    let none = json!({"chunks": [], "eos": true});
    let (s, g) = h2net::exchange_with((a, b), &json!({"adaptive": true, "steps": c["steps"], "window": c["window"]}), &json!({"method": "POST", "uri": "http://h/x", "body": if up { &body } else { &none }}), &json!({"body": if up { &none } else { &body }}), 2_000_000);
    let d = format!("{} of {} octets with clock steps {}", if up { "upload" } else { "download" }, n, c["steps"]);
    let got = if up { s } else { g.map(Some).map_err(|e| format!("{}: {}", d, e))? };
    match got { Some(s) if s.body.len() == n && s.ended => {} o => return Err(format!("{}: not delivered ({:?})", d, o.map(|s| (s.body.len(), s.err)))) }
    let x = judge(&format!("{}: client", d), &la.borrow(), &ra.borrow(), &oa.borrow(), true)?;
    let y = judge(&format!("{}: server", d), &lb.borrow(), &rb.borrow(), &ob.borrow(), false)?;
    Ok(x + y > 0)
}
pub fn run(cx: &mut Cx) {
    cx.rule("estimator: sequences of samples with octet counts around the window, its two thirds, the limit, 2^32 and 2^63 and round-trip times from zero to very long; exchanges: uploads and downloads between a real client and server with scripted clocks, every SETTINGS and WINDOW_UPDATE frame read back");
    const B: [u64; 26] = [0, 1, 2, 100, 43689, 43690, 43691, 65534, 65535, 65536, 87380, 131070, 1 << 20, 5592405, 5592406, 8388607, 8388608, 8388609, 11184810, 16777215, 16777216, 16777217, 1 << 31, 1 << 32, (1 << 32) + 7, (1 << 63) - 1];
    const T: [(u64, u64); 9] = [(0, 0), (0, 1), (0, 1000), (0, 1_000_000), (0, 50_000_000), (1, 0), (3600, 5), (u64::MAX, 999_999_999), (0, 999_999_999)];
    for a in B { for t in T { for b in B { for t2 in [T[2], T[5]] { cx.case(one, json!({"samples": [[a, t.0, t.1], [b, t2.0, t2.1], [b, t2.0, t2.1]]})); } } } }
    for (n, cap, up, w, steps) in [(300_000usize, 16384usize, true, 0u64, vec![1000u64]), (300_000, 16384, false, 0, vec![1000]), (3_000_000, 1 << 20, false, 0, vec![50_000_000, 1]), (3_000_000, 1 << 20, true, 0, vec![50_000_000, 1]), (200_000, 700, false, 1000, vec![150_000_000]), (200_000, 700, true, 40, vec![150_000_000]), (40_000_000, 1 << 26, false, 1 << 30, vec![30_000_000]), (40_000_000, 1 << 26, true, 1 << 30, vec![30_000_000])] {
        cx.case(one, json!({"octets": n, "cap": cap, "up": up, "piece": 100_000, "window": if w == 0 { Value::Null } else { json!(w) }, "steps": steps}));
    }
    let mut r = cx.rng(20);
    for _ in 0..if cx.thorough { 200000 } else { 20000 } {
        let mut w = MIN;
        let v: Vec<Value> = (0..r.range(1, 40)).map(|_| {
            let b = match r.below(5) { 0 => *r.pick(&B), 1 => w * 2 / 3, 2 => w * 2 / 3 - 1, 3 => r.next() % (w * 2), _ => r.next() >> r.range(1, 60) };
            if r.chance(50) { w = (b * 2).max(MIN).min(LIMIT); }
            let t = *r.pick(&T);
            json!([b.min((1 << 63) - 1), t.0, t.1])
        }).collect();
        cx.case(one, json!({"samples": v}));
    }
    for _ in 0..if cx.thorough { 300 } else { 12 } {
        cx.case(one, json!({"octets": r.range(1000, 2_000_000), "cap": *r.pick(&[900usize, 20_000, 1 << 20]), "up": r.chance(50), "piece": *r.pick(&[1000usize, 30_000, 400_000]), "window": if r.chance(50) { json!(*r.pick(&[1u64, 100, 65535, 1 << 20])) } else { Value::Null }, "steps": (0..r.range(1, 5)).map(|_| json!(r.next() % 300_000_000)).collect::<Vec<_>>()}));
    }
}
