//! C33: the header-read timeout of the server, against a clock the test moves.
use crate::common::*;
use crate::net;
use bytes::Bytes;
use http_body::{Body, Frame};
use hyper::rt::{Sleep, Timer};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

pub struct Clk { pub base: Instant, pub now: u64, pub waits: Vec<(u64, Waker)> }
#[derive(Clone)]
pub struct Clock(pub Arc<Mutex<Clk>>);
impl Clock {
    pub fn now(&self) -> u64 { self.0.lock().unwrap().now }
    pub fn until(&self, at: u64) -> Nap { Nap { c: self.clone(), at } }
    pub fn next(&self) -> Option<u64> { let c = self.0.lock().unwrap(); c.waits.iter().map(|w| w.0).filter(|t| *t > c.now).min() }
    pub fn go(&self, t: u64) {
        let w: Vec<Waker> = { let mut c = self.0.lock().unwrap(); c.now = t; let (due, rest) = std::mem::take(&mut c.waits).into_iter().partition(|w| w.0 <= t); c.waits = rest; let due: Vec<(u64, Waker)> = due; due.into_iter().map(|x| x.1).collect() };
        for x in w { x.wake(); }
    }
    fn ms(&self, i: Instant) -> u64 { i.saturating_duration_since(self.0.lock().unwrap().base).as_millis() as u64 }
}
pub struct Nap { c: Clock, at: u64 }
impl Future for Nap {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut c = self.c.0.lock().unwrap();
        if c.now >= self.at { return Poll::Ready(()); }
        let w = cx.waker().clone();
        let at = self.at;
        c.waits.push((at, w));
        Poll::Pending
    }
}
impl Sleep for Nap {}
impl Timer for Clock {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn Sleep>> { Box::pin(self.until(self.now() + d.as_millis() as u64)) }
    fn sleep_until(&self, i: Instant) -> Pin<Box<dyn Sleep>> { Box::pin(self.until(self.ms(i))) }
    fn now(&self) -> Instant { let c = self.0.lock().unwrap(); c.base + Duration::from_millis(c.now) }
}

#[derive(Default)]
pub struct Wire { pub inn: VecDeque<u8>, pub eof: bool, pub waker: Option<Waker>, pub out: Vec<u8>, pub blocked: bool }
#[derive(Clone, Default)]
pub struct Io(pub Arc<Mutex<Wire>>);
impl hyper::rt::Read for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        if s.inn.is_empty() && !s.eof { s.waker = Some(cx.waker().clone()); return Poll::Pending; }
        let n = buf.remaining().min(s.inn.len());
        let v: Vec<u8> = s.inn.drain(..n).collect();
        buf.put_slice(&v);
        Poll::Ready(Ok(()))
    }
}
impl hyper::rt::Write for Io {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let mut s = self.0.lock().unwrap(); if s.blocked { return Poll::Pending; } s.out.extend_from_slice(b); Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { if self.0.lock().unwrap().blocked { Poll::Pending } else { Poll::Ready(Ok(())) } }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
/// two octets, some time after the head
struct Late(Option<Nap>);
impl Body for Late {
    type Data = Bytes;
    type Error = io::Error;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, io::Error>>> {
        match &mut self.0 {
            None => Poll::Ready(None),
            Some(n) => { if Pin::new(n).poll(cx).is_pending() { return Poll::Pending; } self.0 = None; Poll::Ready(Some(Ok(Frame::data(Bytes::from_static(b"ok"))))) }
        }
    }
    fn is_end_stream(&self) -> bool { self.0.is_none() }
    fn size_hint(&self) -> http_body::SizeHint { http_body::SizeHint::with_exact(if self.0.is_some() { 2 } else { 0 }) }
}

/// {"timeout": ms|null|"default", "reqs": [{"frags": [[gap, text]..], "head": octets, "delay": ms, "late": ms}], "eof": gap|null, "ticks": [ms..]}
pub fn one(c: &Value) -> Res {
    let none = vec![];
    let limit: Option<u64> = match &c["timeout"] { Value::Null => None, Value::String(_) => Some(30_000), v => v.as_u64() };
    let reqs = c["reqs"].as_array().unwrap_or(&none).clone();
    // arrivals
    let mut arrivals: VecDeque<(u64, Vec<u8>)> = VecDeque::new();
    let mut t = 0;
    let mut plan = vec![]; // (head complete at, message complete at)
    for q in &reqs {
        let head = us(&q["head"]);
        let mut n = 0;
        let mut h = None;
        for f in q["frags"].as_array().unwrap_or(&none) {
            t += f[0].as_u64().unwrap_or(0);
            let d = dec(&f[1]);
            n += d.len();
            arrivals.push_back((t, d));
            if h.is_none() && n >= head { h = Some(t); }
        }
        plan.push((h, t));
    }
    let eof = c["eof"].as_u64().map(|g| t + g);
    let clock = Clock(Arc::new(Mutex::new(Clk { base: Instant::now(), now: 0, waits: vec![] })));
    let io = Io::default();
    let served: Arc<Mutex<Vec<u64>>> = Default::default();
    let (ck, sv, rq) = (clock.clone(), served.clone(), Arc::new(reqs.clone()));
    let svc = hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
        let (ck, rq) = (ck.clone(), rq.clone());
        let i = { let mut s = sv.lock().unwrap(); s.push(ck.now()); s.len() - 1 };
        async move {
            let mut body = Box::pin(req.into_body());
            while let Some(f) = futures_util::future::poll_fn(|cx| body.as_mut().poll_frame(cx)).await { if f.is_err() { return Err(io::Error::new(io::ErrorKind::Other, "body")); } }
            let q = rq.get(i).cloned().unwrap_or(json!({}));
            let d = q["delay"].as_u64().unwrap_or(0);
            if d > 0 { ck.until(ck.now() + d).await; }
            let l = q["late"].as_u64().map(|l| ck.until(ck.now() + l));
            Ok::<_, io::Error>(http::Response::new(Late(l)))
        }
    });
    let mut b = hyper::server::conn::http1::Builder::new();
    b.timer(clock.clone());
    b.auto_date_header(false);
    match &c["timeout"] { Value::Null => { b.header_read_timeout(None); } Value::String(_) => {} v => { b.header_read_timeout(Duration::from_millis(v.as_u64().unwrap_or(1))); } }
    if c["pipeline_flush"] == json!(true) { b.pipeline_flush(true); }
    if c["half_close"] == json!(true) { b.half_close(true); }
    let mut conn = Box::pin(b.serve_connection(io.clone(), svc));
    let flag = Arc::new(net::Flag(std::sync::atomic::AtomicBool::new(true)));
    let w = futures_util::task::waker(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut ticks: Vec<u64> = arr(&c["ticks"]).iter().map(|x| *x as u64).collect();
    ticks.sort();
    let mut ticks: VecDeque<u64> = ticks.into();
    let mut ended: Option<(u64, Result<(), (bool, String)>)> = None;
    let stop = arrivals.back().map_or(0, |a| a.0) + 5_000_000;
    let mut polls = 0;
    let mut closed = false;
    'run: loop {
        while flag.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
            polls += 1;
            if polls > 20_000 { return Err("the connection's task is woken again and again although nothing happens".into()); }
            if let Poll::Ready(r) = conn.as_mut().poll(&mut cx) { ended = Some((clock.now(), r.map_err(|e| (e.is_timeout(), e.to_string())))); break 'run; }
        }
        let now = clock.now();
        let eo = if closed { None } else { eof };
        let t = match [arrivals.front().map(|a| a.0), clock.next(), ticks.front().cloned(), eo].iter().flatten().cloned().min() { Some(t) if t <= stop => t.max(now), _ => break };
        clock.go(t);
        let mut s = io.0.lock().unwrap();
        let mut news = false;
        while arrivals.front().map_or(false, |a| a.0 <= t) { let a = arrivals.pop_front().unwrap(); s.inn.extend(a.1); news = true; }
        if eo.map_or(false, |e| e <= t) { s.eof = true; news = true; closed = true; }
        if news { if let Some(w) = s.waker.take() { w.wake(); } }
        drop(s);
        while ticks.front().map_or(false, |x| *x <= t) { ticks.pop_front(); flag.0.store(true, std::sync::atomic::Ordering::SeqCst); }
    }
    let served = served.lock().unwrap().clone();
    let d = format!("timeout {:?}, arrivals {}, eof {:?}, polled besides at {}: served at {:?}, ended {:?}", limit, c["reqs"], eof, c["ticks"], served, ended);
    // what must be
    let mut first = 0u64; // when the head is first awaited
    for i in 0..=reqs.len() {
        let due = limit.map(|l| first + l);
        let came = plan.get(i).and_then(|p| p.0);
        if came.is_some() && came == due || eof.is_some() && eof == due { return Ok(false); } // a tie is decided either way
        let late = match (due, came) { (Some(d), Some(a)) => a > d, (Some(_), None) => true, _ => false };
        if came.is_none() || late {
            // this head does not come in time
            if served.len() > i { return Err(format!("{}: request {} served although its head did not come", d, i)); }
            if let Some(e) = eof { if due.map_or(true, |x| e < x) {
                return match &ended { Some((_, Err((true, _)))) => Err(format!("{}: reported as timed out although the client had closed", d)), Some(_) => Ok(true), None => Err(format!("{}: not ended although the client closed", d)) };
            } }
            return match (due, &ended) {
                (Some(x), Some((at, Err((true, _))))) if *at == x => Ok(true),
                (Some(x), _) => Err(format!("{}: head {} first awaited at {}, so the connection must end with the timeout error at {}", d, i, first, x)),
                (None, None) => Ok(true),
                (None, Some(_)) => Err(format!("{}: ended without a timeout set", d)),
            };
        }
        let at = came.unwrap().max(first);
        if eof.map_or(false, |e| e <= at) { return Ok(false); }
        if served.get(i) != Some(&at) { return Err(format!("{}: head {} was complete at {} and awaited since {}, in time, but was not served then", d, i, came.unwrap(), first)); }
        let q = &reqs[i];
        first = plan[i].1.max(at) + q["delay"].as_u64().unwrap_or(0) + q["late"].as_u64().unwrap_or(0);
        if eof.map_or(false, |e| e <= first) { return match &ended { Some((_, Err((true, _)))) => Err(format!("{}: reported as timed out while no head was awaited", d)), _ => Ok(true) }; }
    }
    Ok(true)
}
fn frags(r: &mut Rng, s: &str, gap: usize, v: &mut Vec<Value>) {
    let b = s.as_bytes();
    let mut p = 0;
    while p < b.len() {
        let n = if r.chance(40) { b.len() - p } else { r.range(1, b.len() - p) };
        let g = if r.chance(40) { 0 } else { r.below(gap + 1) };
        v.push(json!([g, String::from_utf8_lossy(&b[p..p + n])]));
        p += n;
    }
}
fn case(r: &mut Rng) -> Value {
    let limit = *r.pick(&[100usize, 1000, 5000]);
    let to = match r.below(12) { 0 => json!(null), 1 => json!("default"), _ => json!(limit) };
    let unit = if to == json!("default") { 30_000 } else { limit };
    let n = r.range(1, 4);
    let slow = *r.pick(&[3usize, 3, 2, 1]);
    let mut reqs = vec![];
    for _ in 0..n {
        let post = r.chance(35);
        let blen = r.range(1, 6);
        let v10 = r.chance(25);
        let line = if v10 { "HTTP/1.0\r\nconnection: keep-alive" } else { "HTTP/1.1\r\nhost: a" };
        let head = if post { format!("POST /x {}\r\ncontent-length: {}\r\n\r\n", line, blen) } else { format!("GET / {}\r\n\r\n", line) };
        let mut f = vec![];
        if r.chance(50) { f.push(json!([r.below(unit * 4 / 3), ""])); }
        frags(r, &head, unit / slow, &mut f);
        if post { if r.chance(50) { f.push(json!([unit + r.below(unit), ""])); } frags(r, &"b".repeat(blen), unit, &mut f); }
        reqs.push(json!({"frags": f, "head": head.len(), "delay": if r.chance(50) { 0 } else { r.below(unit * 2) }, "late": if r.chance(50) { json!(null) } else { json!(r.below(unit * 2)) }}));
    }
    // a last head that never completes
    if r.chance(40) { let mut f = vec![]; frags(r, "GET / HTTP/1.1\r\nhost: a\r\n", unit / 2, &mut f); reqs.push(json!({"frags": f, "head": 1000})); }
    let ticks: Vec<usize> = (0..r.below(6)).map(|_| r.below(unit * 6)).collect();
    json!({"timeout": to, "reqs": reqs, "eof": if r.chance(30) { json!(r.below(unit * 2)) } else { json!(null) }, "ticks": ticks, "pipeline_flush": r.chance(20), "half_close": r.chance(20)})
}
pub fn run(cx: &mut Cx) {
    cx.rule("with a clock the test moves: the connection ends with the timeout error exactly when the time since a head was first awaited runs out before it is complete; heads in time are served when they are complete; bodies, services and responses may take any time");
    let mut r = cx.rng(33);
    while !cx.stop() && cx.evals < if cx.thorough { 200_000 } else { 20_000 } { let c = case(&mut r); cx.case(one, c); }
}
