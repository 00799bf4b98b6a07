//! C34: HTTP/2 keep-alive, against a clock the test moves and a peer that answers pings as told.
use crate::c33::{Clk, Clock, Io};
use crate::common::*;
use crate::net;
use bytes::Bytes;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

type Task = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Clone, Default)]
struct Ex(Rc<RefCell<Vec<Task>>>);
impl<F: Future<Output = ()> + 'static> hyper::rt::Executor<F> for Ex { fn execute(&self, f: F) { self.0.borrow_mut().push(Box::pin(f)); } }
/// no body, or one that never comes
struct None0(bool);
impl http_body::Body for None0 {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_frame(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<Bytes>, std::io::Error>>> { if self.0 { Poll::Pending } else { Poll::Ready(None) } }
    fn is_end_stream(&self) -> bool { !self.0 }
}
fn frame(t: u8, flags: u8, sid: u32, p: &[u8]) -> Vec<u8> {
    let mut v = vec![(p.len() >> 16) as u8, (p.len() >> 8) as u8, p.len() as u8, t, flags];
    v.extend(sid.to_be_bytes());
    v.extend(p);
    v
}
/// {"who": "server"|"client", "interval": ms, "timeout": ms, "answers": [ms|null..], "streams": [ms..] (server: requests come; client: a request goes out at the first, never answered),
///  "head": ms|null (client: the response's head comes then), "upload": the request's body is never done (the response then ends with its head, otherwise its body never comes), "cancel": ms|null (client: the request is given up then), "blocked": ms|null (from then on the transport takes nothing), "while_idle": bool, "bdp": bool, "ticks": [ms..], "stop": ms}
pub fn one(c: &Value) -> Res {
    let server = c["who"] == "server";
    let (iv, to) = (us(&c["interval"]) as u64, us(&c["timeout"]) as u64);
    let answers: Vec<Option<u64>> = c["answers"].as_array().map(|a| a.iter().map(|x| x.as_u64()).collect()).unwrap_or_default();
    let mut streams: Vec<u64> = arr(&c["streams"]).iter().map(|x| *x as u64).collect();
    streams.sort();
    let stop = us(&c["stop"]) as u64;
    let clock = Clock(Arc::new(Mutex::new(Clk { base: Instant::now(), now: 0, waits: vec![] })));
    let io = Io::default();
    let ex = Ex::default();
    let ended: Rc<RefCell<Option<(u64, Result<(), (bool, String)>)>>> = Default::default();
    let failed: Rc<RefCell<Option<(u64, bool, String)>>> = Default::default();
    let (ck, en) = (clock.clone(), ended.clone());
    let mut arrivals: Vec<(u64, Vec<u8>)> = vec![];
    let mut sender = None;
    if server {
        let svc = hyper::service::service_fn(|_r: http::Request<hyper::body::Incoming>| async { Ok::<_, std::io::Error>(http::Response::new(None0(false))) });
        let mut b = hyper::server::conn::http2::Builder::new(ex.clone());
        b.timer(clock.clone()).keep_alive_interval(Duration::from_millis(iv)).keep_alive_timeout(Duration::from_millis(to)).adaptive_window(c["bdp"] == json!(true));
        let conn = b.serve_connection(io.clone(), svc);
        ex.0.borrow_mut().push(Box::pin(async move { let r = conn.await; *en.borrow_mut() = Some((ck.now(), r.map_err(|e| (e.is_timeout() || format!("{:?}", e).contains("KeepAliveTimedOut"), format!("{:?}", e))))); }));
        arrivals.push((0, [b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec(), frame(4, 0, 0, &[])].concat()));
        for (i, t) in streams.iter().enumerate() { arrivals.push((*t, frame(1, 5, 1 + 2 * i as u32, &[0x82, 0x84, 0x86, 0x41, 1, b'h']))); }
    } else {
        let mut b = hyper::client::conn::http2::Builder::new(ex.clone());
        b.timer(clock.clone()).keep_alive_interval(Duration::from_millis(iv)).keep_alive_timeout(Duration::from_millis(to)).keep_alive_while_idle(c["while_idle"] == json!(true)).adaptive_window(c["bdp"] == json!(true));
        let (io2, ex2) = (io.clone(), ex.clone());
        let slot: Rc<RefCell<Option<hyper::client::conn::http2::SendRequest<None0>>>> = Default::default();
        sender = Some(slot.clone());
        ex.0.borrow_mut().push(Box::pin(async move {
            if let Ok((s, conn)) = b.handshake(io2).await {
                *slot.borrow_mut() = Some(s);
                ex2.0.borrow_mut().push(Box::pin(async move { let r = conn.await; *en.borrow_mut() = Some((ck.now(), r.map_err(|e| (e.is_timeout(), format!("{:?}", e))))); }));
            }
        }));
        arrivals.push((0, frame(4, 0, 0, &[])));
    }
    let upload = c["upload"] == json!(true);
    let head = c["head"].as_u64().filter(|t| !server && streams.first().map_or(false, |s| s < t));
    if let Some(t) = head { arrivals.push((t, frame(1, if upload { 5 } else { 4 }, 1, &[0x88]))); }
    let data: Vec<u64> = arr(&c["data"]).iter().map(|x| *x as u64).filter(|t| !upload && head.map_or(false, |h| h < *t)).collect();
    for t in &data { arrivals.push((*t, frame(0, 0, 1, b"x"))); }
    arrivals.sort_by_key(|a| a.0);
    let mut arrivals: VecDeque<(u64, Vec<u8>)> = arrivals.into();
    let mut ticks: VecDeque<u64> = { let mut t: Vec<u64> = arr(&c["ticks"]).iter().map(|x| *x as u64).collect(); t.sort(); t.into() };
    let mut opens: VecDeque<u64> = if server { VecDeque::new() } else { streams.first().cloned().into_iter().collect() };
    let flag = Arc::new(net::Flag(std::sync::atomic::AtomicBool::new(true)));
    let w = futures_util::task::waker(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut tasks: Vec<Task> = vec![];
    let mut pings: Vec<u64> = vec![];
    let mut seen = if server { 0 } else { 24 };
    let mut polls = 0;
    let blocked = c["blocked"].as_u64();
    let cancel = c["cancel"].as_u64().filter(|t| !server && streams.first().map_or(false, |s| s < t));
    let given_up = Rc::new(std::cell::Cell::new(false));
    loop {
        while flag.0.swap(false, std::sync::atomic::Ordering::SeqCst) || !ex.0.borrow().is_empty() {
            polls += 1;
            if polls > 20_000 { return Err("the connection's task is woken again and again although nothing happens".into()); }
            tasks.extend(ex.0.borrow_mut().drain(..));
            tasks.retain_mut(|t| t.as_mut().poll(&mut cx).is_pending());
        }
        let now = clock.now();
        // what it wrote
        loop {
            let s = io.0.lock().unwrap();
            if s.out.len() < seen + 9 { break; }
            let h = &s.out[seen..seen + 9];
            let n = ((h[0] as usize) << 16) | ((h[1] as usize) << 8) | h[2] as usize;
            if s.out.len() < seen + 9 + n { break; }
            let (t, f) = (h[3], h[4]);
            let p = s.out[seen + 9..seen + 9 + n].to_vec();
            seen += 9 + n;
            if t == 4 && f & 1 == 0 { let i = arrivals.iter().position(|a| a.0 > now).unwrap_or(arrivals.len()); arrivals.insert(i, (now, frame(4, 1, 0, &[]))); }
            if t == 6 && f & 1 == 0 {
                if let Some(Some(d)) = answers.get(pings.len()) { let at = now + d; let i = arrivals.iter().position(|a| a.0 > at).unwrap_or(arrivals.len()); arrivals.insert(i, (at, frame(6, 1, 0, &p))); }
                pings.push(now);
            }
        }
        if ended.borrow().is_some() && (server || given_up.get() || failed.borrow().is_some() || opens.is_empty() && streams.is_empty()) { break; }
        let t = match [arrivals.front().map(|a| a.0), clock.next(), ticks.front().cloned(), opens.front().cloned(), cancel.filter(|_| !given_up.get()), blocked.filter(|_| !io.0.lock().unwrap().blocked)].iter().flatten().cloned().min() { Some(t) if t <= stop => t.max(now), _ => break };
        clock.go(t);
        let mut s = io.0.lock().unwrap();
        let mut news = false;
        while arrivals.front().map_or(false, |a| a.0 <= t) { let a = arrivals.pop_front().unwrap(); s.inn.extend(a.1); news = true; }
        if blocked.map_or(false, |x| x <= t) { s.blocked = true; }
        if news { if let Some(w) = s.waker.take() { w.wake(); } }
        drop(s);
        while ticks.front().map_or(false, |x| *x <= t) { ticks.pop_front(); flag.0.store(true, std::sync::atomic::Ordering::SeqCst); }
        if cancel.map_or(false, |x| x <= t) && !given_up.replace(true) { flag.0.store(true, std::sync::atomic::Ordering::SeqCst); }
        while opens.front().map_or(false, |x| *x <= t) {
            opens.pop_front();
            if let Some(s) = sender.as_ref().and_then(|s| s.borrow_mut().as_mut().map(|s| s.send_request(http::Request::new(None0(upload))))) {
                let (f, ck, mut s, g, g2) = (failed.clone(), clock.clone(), Box::pin(s), given_up.clone(), given_up.clone());
                let s = std::future::poll_fn(move |cx| if g.get() { Poll::Ready(None) } else { s.as_mut().poll(cx).map(Some) });
                ex.0.borrow_mut().push(Box::pin(async move { let r = match s.await { Some(r) => r, None => return }; match r {
                        Ok(resp) => { if head.is_none() { *f.borrow_mut() = Some((ck.now(), false, "a response".into())); } 
                            let mut body = resp.into_body();
                            std::future::poll_fn(|cx| {
                                if g2.get() { return Poll::Ready(()); }
                                while let Poll::Ready(Some(Ok(_))) = http_body::Body::poll_frame(Pin::new(&mut body), cx) {}
                                Poll::Pending
                            }).await;
                        }
                        Err(e) => *f.borrow_mut() = Some((ck.now(), e.is_timeout(), format!("{:?}", e))),
                    } }));
            }
        }
    }
    let ended = ended.borrow().clone();
    let d = format!("{} with interval {} timeout {}, while idle {}, pings answered after {}, streams at {:?}, polled besides at {}: body of the request open {}, head of the response at {:?}, data at {:?}, given up at {:?}, transport full from {:?}: pings at {:?}, ended {:?}, request {:?}", c["who"], iv, to, c["while_idle"], c["answers"], streams, c["ticks"], upload, head, data, cancel, blocked, pings, ended, failed.borrow());
    // what must be
    let mut want = vec![];
    let mut last = 0;
    let mut dead = None;
    let busy_from = if server || c["while_idle"] == json!(true) { 0 } else { match streams.first() { Some(t) => *t, None => u64::MAX } };
    let mut reads: VecDeque<u64> = if server { streams.clone().into() } else { { let mut v: Vec<u64> = head.into_iter().chain(data.iter().cloned()).filter(|h| !cancel.map_or(false, |x| x < *h)).collect(); v.sort(); v.into() } };
    if head.is_some() && (head == cancel || data.iter().any(|t| Some(*t) == cancel) || blocked.is_some()) { return Ok(false); }
    let over = cancel.filter(|x| !upload || !head.map_or(false, |h| h < *x));
    loop {
        let mut next = last + iv;
        if reads.front() == Some(&next) || busy_from == next { return Ok(false); }
        if let Some(r) = reads.front() { if *r < next { last = (*r).max(last); reads.pop_front(); continue; } }
        if busy_from == u64::MAX { break; }
        next = next.max(busy_from);
        if next > stop { break; }
        if let Some(x) = over.filter(|_| c["while_idle"] != json!(true)) { if x == next { return Ok(false); } if next > x { break; } }
        want.push(next);
        if blocked == Some(next) { return Ok(false); }
        if blocked.map_or(false, |b| b < next) { want.pop(); dead = Some(next + to); break; }
        match answers.get(want.len() - 1).cloned().flatten() {
            Some(a) if a == to => return Ok(false),
            Some(a) if a < to => { last = next + a; if last > stop { break; } while reads.front().map_or(false, |r| *r <= last) { reads.pop_front(); } }
            _ => { dead = Some(next + to); break; }
        }
    }
    if pings.iter().any(|p| *p == stop) || want.last().map_or(false, |p| *p == stop) || dead == Some(stop) { return Ok(false); }
    if c["bdp"] != json!(true) && pings != want { return Err(format!("{}: pings expected at {:?}", d, want)); }
    match dead.filter(|x| *x <= stop) {
        Some(x) => {
            match &ended { Some((at, Err((true, _)))) if *at == x => {} _ => return Err(format!("{}: the ping at {} was not answered, so the connection must be closed as timed out at {}", d, x - to, x)) }
            if cancel.map_or(false, |y| y == x) { return Ok(false); }
            if !server && streams.first().map_or(false, |s| *s < x) && !cancel.map_or(false, |y| y < x) && !head.map_or(false, |h| h <= x) { match &*failed.borrow() { Some((at, true, _)) if *at == x => {} _ => return Err(format!("{}: the request must fail as timed out at {}", d, x)) } }
        }
        None => {
            if let Some(e) = &ended { return Err(format!("{}: ended at {} although every ping was answered in time", d, e.0)); }
            if let Some(f) = &*failed.borrow() { return Err(format!("{}: the request ended at {} although every ping was answered in time", d, f.0)); }
        }
    }
    Ok(!want.is_empty() || dead.is_some())
}
fn case(r: &mut Rng) -> Value {
    let iv = *r.pick(&[100usize, 1000, 20_000]);
    let to = *r.pick(&[50usize, 400, 3000, 30_000]);
    let server = r.chance(50);
    let n = r.range(1, 6);
    let p = *r.pick(&[5usize, 5, 30]);
    let answers: Vec<Value> = (0..n).map(|_| if r.chance(p) { json!(null) } else if r.chance(10) { json!(to + r.range(1, to)) } else if r.chance(40) { json!(0) } else { json!(r.below(to)) }).collect();
    let total = (iv + to) * n;
    let streams: Vec<usize> = (0..if server { r.below(6) } else { r.below(2) }).map(|_| r.range(1, total)).collect();
    let ticks: Vec<usize> = (0..r.below(6)).map(|_| r.below(total)).collect();
    json!({"who": if server { "server" } else { "client" }, "interval": iv, "timeout": to, "answers": answers, "streams": streams, "upload": r.chance(30), "head": if r.chance(40) { json!(r.range(1, total)) } else { json!(null) }, "data": (0..r.below(4)).map(|_| r.range(1, total)).collect::<Vec<_>>(), "blocked": if r.chance(20) { json!(r.range(1, total)) } else { json!(null) }, "cancel": if r.chance(40) { json!(r.range(1, total)) } else { json!(null) }, "while_idle": server || r.chance(60), "ticks": ticks, "stop": total + iv + to + 1})
}
pub fn run(cx: &mut Cx) {
    cx.rule("with a clock the test moves and a peer that answers pings when told: a ping goes out the interval after the last frame, and the connection (and its requests) end as timed out exactly when a ping has gone unanswered for the timeout");
    let mut r = cx.rng(34);
    while !cx.stop() && cx.evals < if cx.thorough { 100_000 } else { 10_000 } { let c = case(&mut r); cx.case(one, c); }
}
