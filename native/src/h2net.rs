//! A real HTTP/2 client and server over an in-memory duplex, on one thread.
use crate::common::*;
use crate::net::{hlist, hmap, yield_now, ScriptBody};
use bytes::Bytes;
use http::{Request, Response};
use http_body::Body;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Half { q: VecDeque<u8>, closed: bool, rd: Option<Waker> }
/// `log`: everything written by this side; `seen`: octets this side has read, noted at each write
pub struct Duplex { r: Rc<RefCell<Half>>, w: Rc<RefCell<Half>>, cap: usize, pub log: Rc<RefCell<Vec<u8>>>, pub rlog: Rc<RefCell<Vec<u8>>>, pub order: Rc<RefCell<Vec<(usize, usize)>>>, pub tracing: bool }
pub fn duplex(cap: usize) -> (Duplex, Duplex) {
    let (a, b): (Rc<RefCell<Half>>, Rc<RefCell<Half>>) = Default::default();
    let d = |r, w| Duplex { r, w, cap, log: Default::default(), rlog: Default::default(), order: Default::default(), tracing: false };
    (d(a.clone(), b.clone()), d(b, a))
}
impl hyper::rt::Read for Duplex {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let mut h = self.r.borrow_mut();
        if h.q.is_empty() {
            if h.closed { return Poll::Ready(Ok(())); }
            h.rd = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.remaining().min(h.q.len()).min(self.cap);
        let d: Vec<u8> = h.q.drain(..n).collect();
        buf.put_slice(&d);
        drop(h);
        if self.tracing { self.rlog.borrow_mut().extend(&d); }
        Poll::Ready(Ok(()))
    }
}
impl hyper::rt::Write for Duplex {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut h = self.w.borrow_mut();
        if h.closed { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); }
        let n = buf.len().min(self.cap);
        h.q.extend(&buf[..n]);
        if self.tracing { self.log.borrow_mut().extend(&buf[..n]); self.order.borrow_mut().push((self.log.borrow().len(), self.rlog.borrow().len())); }
        if let Some(w) = h.rd.take() { w.wake(); }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut h = self.w.borrow_mut();
        h.closed = true;
        if let Some(w) = h.rd.take() { w.wake(); }
        Poll::Ready(Ok(()))
    }
}
impl Drop for Duplex { fn drop(&mut self) { let mut h = self.w.borrow_mut(); h.closed = true; if let Some(w) = h.rd.take() { w.wake(); } } }

type Task = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Clone, Default)]
pub struct Exec(Rc<RefCell<Vec<Task>>>);
impl<F: Future<Output = ()> + 'static> hyper::rt::Executor<F> for Exec { fn execute(&self, f: F) { self.0.borrow_mut().push(Box::pin(f)); } }
impl Exec {
    pub fn spawn(&self, f: impl Future<Output = ()> + 'static) { self.0.borrow_mut().push(Box::pin(f)); }
    /// poll woken tasks until none is woken
    pub fn run(&self, limit: usize) {
        let mut tasks: Vec<(Task, std::sync::Arc<crate::net::Flag>)> = vec![];
        for _ in 0..limit {
            for t in self.0.borrow_mut().drain(..) { tasks.push((t, std::sync::Arc::new(crate::net::Flag(std::sync::atomic::AtomicBool::new(true))))); }
            let mut any = false;
            let mut i = 0;
            while i < tasks.len() {
                if tasks[i].1 .0.swap(false, std::sync::atomic::Ordering::SeqCst) {
                    any = true;
                    let w = crate::net::waker(tasks[i].1.clone());
                    if tasks[i].0.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { drop(tasks.swap_remove(i)); continue; }
                }
                i += 1;
            }
            if !any && self.0.borrow().is_empty() { break; }
        }
    }
}
#[derive(Default, Clone, Debug)]
pub struct Seen { pub head: String, pub headers: Vec<(String, Vec<u8>)>, pub body: Vec<u8>, pub trailers: Option<Vec<(String, Vec<u8>)>>, pub err: Option<String>, pub ended: bool, pub hint: (u64, Option<u64>), pub hint_bad: Option<String> }
async fn slurp<B: Body<Data = Bytes>>(body: B, s: Rc<RefCell<Seen>>) where B::Error: std::fmt::Display {
    let mut body = Box::pin(body);
    let mut base = body.size_hint();
    s.borrow_mut().hint = (base.lower(), base.upper());
    let mut got = 0u64;
    loop {
        let eos = body.is_end_stream();
        let f = futures_util::future::poll_fn(|cx| body.as_mut().poll_frame(cx)).await;
        let mut m = s.borrow_mut();
        match f {
            None => { m.ended = true; if let Some(e) = base.exact() { if e != 0 { m.hint_bad = Some(format!("the body ended with {} octets still announced", e)); } } return; }
            Some(Err(e)) => { m.err = Some(e.to_string()); return; }
            Some(Ok(f)) => {
                if eos { m.hint_bad = Some("is_end_stream() was true but another frame came".into()); }
                if f.is_data() {
                    let d = f.into_data().ok().unwrap();
                    got += d.len() as u64;
                    m.body.extend_from_slice(&d);
                    let h = body.size_hint();
                    if let Some(e) = base.exact() {
                        if h.exact() != e.checked_sub(d.len() as u64) { m.hint_bad = Some(format!("{} octets announced, {} came, now {:?} announced", e, d.len(), h.exact())); }
                    } else if base.upper().is_some() || h.upper().is_some() { m.hint_bad = Some(format!("a body of unknown length announces {:?}", h)); }
                    base = h;
                } else if let Ok(t) = f.into_trailers() { m.trailers = Some(hlist(&t)); }
            }
        }
    }
}
/// One exchange: (what the server's service saw, what the caller saw)
/// req: {"method","uri","headers","body"}; resp: {"status","headers","body"}
pub fn exchange(cap: usize, req: &Value, resp: &Value) -> (Option<Seen>, Result<Seen, String>) { exchange_with(duplex(cap.max(1)), &serde_json::json!({}), req, resp, 20_000) }
/// a clock that moves on by the next of the given steps whenever it is read
#[derive(Clone)]
pub struct Clock { base: std::time::Instant, st: std::sync::Arc<std::sync::Mutex<(u64, usize, Vec<u64>)>> }
impl Clock { pub fn new(steps: Vec<u64>) -> Clock { Clock { base: std::time::Instant::now(), st: std::sync::Arc::new(std::sync::Mutex::new((0, 0, steps))) } } }
struct Never;
impl Future for Never { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Pending } }
impl hyper::rt::Sleep for Never {}
impl hyper::rt::Timer for Clock {
    fn sleep(&self, _: std::time::Duration) -> Pin<Box<dyn hyper::rt::Sleep>> { Box::pin(Never) }
    fn sleep_until(&self, _: std::time::Instant) -> Pin<Box<dyn hyper::rt::Sleep>> { Box::pin(Never) }
    fn now(&self) -> std::time::Instant {
        let mut s = self.st.lock().unwrap();
        let k = if s.2.is_empty() { 1000 } else { s.2[s.1 % s.2.len()] };
        s.1 += 1;
        s.0 += k;
        self.base + std::time::Duration::from_nanos(s.0)
    }
}
/// opts: {"adaptive":bool,"steps":[ns],"window":n|null}
pub fn exchange_with(pair: (Duplex, Duplex), opts: &Value, req: &Value, resp: &Value, rounds: usize) -> (Option<Seen>, Result<Seen, String>) {
    let (a, b) = pair;
    let clock = Clock::new(opts["steps"].as_array().map(|v| v.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default());
    let ex = Exec::default();
    let seen: Rc<RefCell<Vec<Rc<RefCell<Seen>>>>> = Default::default();
    let seen2 = seen.clone();
    let resp = resp.clone();
    let svc = hyper::service::service_fn(move |req: Request<hyper::body::Incoming>| {
        let s = Rc::new(RefCell::new(Seen { head: format!("{} {} {:?}", req.method(), req.uri(), req.version()), headers: hlist(req.headers()), ..Default::default() }));
        seen2.borrow_mut().push(s.clone());
        let r = resp.clone();
        async move {
            slurp(req.into_body(), s).await;
            let mut p = Response::builder().status(r["status"].as_u64().unwrap_or(200) as u16).body(ScriptBody::from(&r["body"])).unwrap();
            *p.headers_mut() = hmap(&r["headers"]);
            yield_now().await;
            Ok::<_, io::Error>(p)
        }
    });
    let mut sb = hyper::server::conn::http2::Builder::new(ex.clone());
    let mut cb = hyper::client::conn::http2::Builder::new(ex.clone());
    if let Some(n) = opts["window"].as_u64() { sb.initial_stream_window_size(n as u32).initial_connection_window_size(n as u32); cb.initial_stream_window_size(n as u32).initial_connection_window_size(n as u32); }
    if opts["adaptive"] == true { sb.timer(clock.clone()).adaptive_window(true); cb.timer(clock).adaptive_window(true); }
    let conn = sb.serve_connection(b, svc);
    ex.spawn(async move { let _ = conn.await; });
    let got: Rc<RefCell<Result<Rc<RefCell<Seen>>, String>>> = Rc::new(RefCell::new(Err("no answer".into())));
    let got2 = got.clone();
    let ex2 = ex.clone();
    let q = req.clone();
    ex.spawn(async move {
        let (mut tx, c) = match cb.handshake::<_, ScriptBody>(a).await { Ok(x) => x, Err(e) => { *got2.borrow_mut() = Err(e.to_string()); return; } };
        ex2.spawn(async move { let _ = c.await; });
        let mut r = Request::builder().method(q["method"].as_str().unwrap_or("GET")).uri(q["uri"].as_str().unwrap_or("http://h/")).body(ScriptBody::from(&q["body"])).unwrap();
        *r.headers_mut() = hmap(&q["headers"]);
        match tx.send_request(r).await {
            Ok(p) => {
                let s = Rc::new(RefCell::new(Seen { head: format!("{}", p.status().as_u16()), headers: hlist(p.headers()), ..Default::default() }));
                *got2.borrow_mut() = Ok(s.clone());
                slurp(p.into_body(), s).await;
            }
            Err(e) => { let mut m = e.to_string(); let mut s = std::error::Error::source(&e); while let Some(x) = s { m += &format!(": {}", x); s = x.source(); } *got2.borrow_mut() = Err(m); }
        }
    });
    ex.run(rounds);
    let s = seen.borrow().get(0).map(|s| s.borrow().clone());
    let g = got.borrow().as_ref().map(|s| s.borrow().clone()).map_err(|e| e.clone());
    (s, g)
}

// ---- a peer that sends the frames it is told to ----------------------------------
fn frame(t: u8, flags: u8, sid: u32, p: &[u8]) -> Vec<u8> {
    let mut v = vec![(p.len() >> 16) as u8, (p.len() >> 8) as u8, p.len() as u8, t, flags];
    v.extend(sid.to_be_bytes());
    v.extend(p);
    v
}
fn hpack(fields: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (n, x) in fields { v.push(0); v.push(n.len() as u8); v.extend(n.as_bytes()); v.push(x.len() as u8); v.extend(x); }
    v
}
/// frames: [{"t":"H","end":b,"f":[[n,v]..]} | {"t":"D","end":b,"d":..} | {"t":"R","code":n} | {"t":"Y"}]
fn wire(fs: &Value, sid: u32) -> Vec<Option<Vec<u8>>> {
    let mut out = vec![];
    for f in fs.as_array().cloned().unwrap_or_default() {
        let end = (f["end"] == true) as u8;
        match f["t"].as_str().unwrap_or("") {
            "H" => { let l: Vec<(String, Vec<u8>)> = f["f"].as_array().cloned().unwrap_or_default().iter().map(|x| (String::from_utf8_lossy(&dec(&x[0])).to_string(), dec(&x[1]))).collect(); out.push(Some(frame(1, 4 | end, sid, &hpack(&l)))) }
            "D" => out.push(Some(frame(0, end, sid, &dec(&f["d"])))),
            "R" => out.push(Some(frame(3, 0, sid, &(f["code"].as_u64().unwrap_or(0) as u32).to_be_bytes()))),
            _ => out.push(None),
        }
    }
    out
}
/// the peer: says its settings, waits (a server) for a request head, then writes the frames
async fn peer(mut io: Duplex, client: bool, fs: Value) {
    let mut first = vec![];
    if client { first.extend(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"); }
    first.extend(frame(4, 0, 0, &[]));
    let mut q: VecDeque<Option<Vec<u8>>> = VecDeque::new();
    q.push_back(Some(first));
    let mut got = vec![];
    let mut sent = client;
    if client { q.extend(wire(&fs, 1)); }
    futures_util::future::poll_fn(move |cx| {
        use hyper::rt::{Read, Write};
        loop {
            let mut raw = [0u8; 4096];
            let mut b = hyper::rt::ReadBuf::new(&mut raw);
            match Pin::new(&mut io).poll_read(cx, b.unfilled()) { Poll::Ready(Ok(())) if !b.filled().is_empty() => got.extend_from_slice(b.filled()), Poll::Pending => break, _ => return Poll::Ready(()) }
        }
        if !sent {
            let mut p = 24;
            while p + 9 <= got.len() {
                if got[p + 3] == 1 { sent = true; q.push_back(Some(frame(4, 1, 0, &[]))); q.extend(wire(&fs, 1)); break; }
                p += 9 + ((got[p] as usize) << 16 | (got[p + 1] as usize) << 8 | got[p + 2] as usize);
            }
        }
        while let Some(f) = q.pop_front() {
            match f {
                Some(mut f) => while !f.is_empty() { match Pin::new(&mut io).poll_write(cx, &f) { Poll::Ready(Ok(n)) => { f.drain(..n); } _ => return Poll::Ready(()) } },
                None => { cx.waker().wake_by_ref(); return Poll::Pending; }
            }
        }
        Poll::<()>::Pending
    }).await
}
/// hyper's client against a peer that answers with the given frames
pub fn raw_server(cap: usize, method: &str, fs: &Value) -> Result<Seen, String> {
    let (a, b) = duplex(cap.max(1));
    let ex = Exec::default();
    ex.spawn(peer(b, false, fs.clone()));
    let got: Rc<RefCell<Result<Rc<RefCell<Seen>>, String>>> = Rc::new(RefCell::new(Err("no answer".into())));
    let got2 = got.clone();
    let ex2 = ex.clone();
    let m = method.to_string();
    ex.spawn(async move {
        let (mut tx, c) = match hyper::client::conn::http2::Builder::new(ex2.clone()).handshake::<_, ScriptBody>(a).await { Ok(x) => x, Err(e) => { *got2.borrow_mut() = Err(e.to_string()); return; } };
        ex2.spawn(async move { let _ = c.await; });
        let r = Request::builder().method(&m[..]).uri("http://h/").body(ScriptBody::from(&serde_json::json!({"chunks": [], "eos": true}))).unwrap();
        match tx.send_request(r).await {
            Ok(p) => {
                let s = Rc::new(RefCell::new(Seen { head: format!("{}", p.status().as_u16()), headers: hlist(p.headers()), ..Default::default() }));
                *got2.borrow_mut() = Ok(s.clone());
                slurp(p.into_body(), s).await;
            }
            Err(e) => *got2.borrow_mut() = Err(e.to_string()),
        }
    });
    ex.run(5000);
    let g = got.borrow().as_ref().map(|s| s.borrow().clone()).map_err(|e| e.clone());
    g
}
/// hyper's server against a peer that asks with the given frames
pub fn raw_client(cap: usize, fs: &Value) -> Option<Seen> {
    let (a, b) = duplex(cap.max(1));
    let ex = Exec::default();
    ex.spawn(peer(a, true, fs.clone()));
    let seen: Rc<RefCell<Option<Rc<RefCell<Seen>>>>> = Default::default();
    let seen2 = seen.clone();
    let svc = hyper::service::service_fn(move |req: Request<hyper::body::Incoming>| {
        let s = Rc::new(RefCell::new(Seen { head: format!("{} {}", req.method(), req.uri()), headers: hlist(req.headers()), ..Default::default() }));
        *seen2.borrow_mut() = Some(s.clone());
        async move {
            slurp(req.into_body(), s).await;
            Ok::<_, io::Error>(Response::new(ScriptBody::from(&serde_json::json!({"chunks": [], "eos": true}))))
        }
    });
    let conn = hyper::server::conn::http2::Builder::new(ex.clone()).serve_connection(b, svc);
    ex.spawn(async move { let _ = conn.await; });
    ex.run(5000);
    let s = seen.borrow().as_ref().map(|s| s.borrow().clone());
    s
}
