//! In-memory transports and one-shot drivers over hyper's public API.
#![allow(dead_code)]
use crate::common::*;
use bytes::Bytes;
use http::{HeaderMap, HeaderName, HeaderValue, Request, Response};
use http_body::{Body, Frame, SizeHint};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Debug)]
/// Wait(n): nothing arrives until n blank lines were written by the code under test
pub enum Seg { Data(Vec<u8>), Pending, Eof, Err, ErrKind(usize), Wait(usize) }
const KINDS: [io::ErrorKind; 14] = [io::ErrorKind::Other, io::ErrorKind::ConnectionReset, io::ErrorKind::ConnectionAborted, io::ErrorKind::BrokenPipe, io::ErrorKind::NotConnected, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData, io::ErrorKind::InvalidInput, io::ErrorKind::WriteZero, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionRefused];

#[derive(Default)]
pub struct IoState {
    pub input: VecDeque<Seg>,
    pub out: Vec<u8>,
    pub wcaps: Vec<usize>,
    pub wi: usize,
    pub vectored: bool,
    pub progress: u64,
    pub read: usize,
    pub shutdown: bool,
    pub write_err_at: Option<usize>,
    pub wzero_at: Option<usize>, // from this many octets on, writes take nothing
    pub writes: usize,
    pub eof_given: bool,
    pub hold: bool, // no more input: report Pending instead of EOF
    pub reads: Vec<(usize, usize)>, // (capacity offered, octets given)
    pub gates: VecDeque<(usize, usize)>, // unused
}
#[derive(Clone)]
pub struct ScriptIo(pub std::sync::Arc<std::sync::Mutex<IoState>>);
impl ScriptIo {
    pub fn new(input: Vec<Seg>, hold: bool) -> ScriptIo {
        ScriptIo(std::sync::Arc::new(std::sync::Mutex::new(IoState { input: input.into(), hold, vectored: true, ..Default::default() })))
    }
}
/// answers to the n-th request (1-based), fragmented
pub fn answer(n: usize, data: &[u8], cuts: &[usize]) -> Vec<Seg> {
    let mut v = vec![Seg::Wait(n)];
    v.extend(cut(data, cuts));
    v
}
/// cut `data` as told by cyclic sizes (0: a Pending)
pub fn cut(data: &[u8], cuts: &[usize]) -> Vec<Seg> {
    let mut v = vec![];
    let mut p = 0;
    let mut i = 0;
    let mut zeros = 0;
    while p < data.len() {
        let c = if cuts.is_empty() { data.len() } else { cuts[i % cuts.len()] };
        i += 1;
        if c == 0 {
            zeros += 1;
            if zeros > 2 { v.push(Seg::Data(data[p..p + 1].to_vec())); p += 1; zeros = 0; continue; }
            v.push(Seg::Pending);
            continue;
        }
        zeros = 0;
        let e = (p + c).min(data.len());
        v.push(Seg::Data(data[p..e].to_vec()));
        p = e;
    }
    v
}
impl hyper::rt::Read for ScriptIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        match s.input.pop_front() {
            None => {
                if s.hold { return Poll::Pending; }
                if !s.eof_given { s.eof_given = true; s.progress += 1; }
                Poll::Ready(Ok(()))
            }
            Some(Seg::Pending) => { s.progress += 1; cx.waker().wake_by_ref(); Poll::Pending }
            Some(Seg::Wait(n)) => {
                let have = s.out.windows(4).filter(|w| *w == b"\r\n\r\n").count();
                if have >= n { s.progress += 1; } else { s.input.push_front(Seg::Wait(n)); }
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Seg::Eof) => { s.input.push_front(Seg::Eof); if !s.eof_given { s.eof_given = true; s.progress += 1; } Poll::Ready(Ok(())) }
            Some(Seg::ErrKind(k)) => { s.progress += 1; Poll::Ready(Err(io::Error::new(KINDS[k % KINDS.len()], "scripted"))) }
            Some(Seg::Err) => { s.progress += 1; Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "scripted"))) }
            Some(Seg::Data(mut d)) => {
                s.progress += 1;
                let cap = buf.remaining();
                let n = d.len().min(cap);
                s.reads.push((cap, n));
                buf.put_slice(&d[..n]);
                s.read += n;
                if n < d.len() { let rest = d.split_off(n); s.input.push_front(Seg::Data(rest)); }
                Poll::Ready(Ok(()))
            }
        }
    }
}
impl ScriptIo {
    fn wcap(&self) -> usize {
        let mut s = self.0.lock().unwrap();
        if s.wcaps.is_empty() { return usize::MAX; }
        let c = s.wcaps[s.wi % s.wcaps.len()];
        s.wi += 1;
        c
    }
}
impl hyper::rt::Write for ScriptIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let c = self.wcap();
        let mut s = self.0.lock().unwrap();
        if let Some(n) = s.write_err_at { if s.out.len() >= n { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); } }
        s.progress += 1;
        s.writes += 1;
        let c = match s.wzero_at { Some(n) if s.out.len() >= n => { if s.writes > 100_000 { panic!("the write is retried for ever although the transport takes nothing"); } return Poll::Ready(Ok(0)) } Some(n) => c.min(n - s.out.len()), None => c };
        if c == 0 && !buf.is_empty() { cx.waker().wake_by_ref(); return Poll::Pending; }
        let n = buf.len().min(c);
        s.out.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let c = self.wcap();
        let mut s = self.0.lock().unwrap();
        if let Some(n) = s.write_err_at { if s.out.len() >= n { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); } }
        s.progress += 1;
        s.writes += 1;
        let c = match s.wzero_at { Some(n) if s.out.len() >= n => { if s.writes > 100_000 { panic!("the write is retried for ever although the transport takes nothing"); } return Poll::Ready(Ok(0)) } Some(n) => c.min(n - s.out.len()), None => c };
        if c == 0 { cx.waker().wake_by_ref(); return Poll::Pending; }
        let mut left = c;
        let mut n = 0;
        for b in bufs {
            let k = b.len().min(left);
            s.out.extend_from_slice(&b[..k]);
            n += k;
            left -= k;
            if left == 0 { break; }
        }
        Poll::Ready(Ok(n))
    }
    fn is_write_vectored(&self) -> bool { self.0.lock().unwrap().vectored }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        if !s.shutdown { s.shutdown = true; s.progress += 1; }
        Poll::Ready(Ok(()))
    }
}

// ---- scripted outgoing bodies -------------------------------------------
/// a buffer in several pieces; `full`: chunks_vectored lists them all, otherwise only the first (both are allowed)
pub struct Piece { pub segs: VecDeque<Bytes>, pub full: bool }
impl Piece {
    pub fn new(b: Bytes, split: usize, full: bool) -> Piece {
        let mut segs = VecDeque::new();
        if split == 0 { segs.push_back(b); } else {
            let mut b = b;
            while b.len() > split { segs.push_back(b.split_to(split)); }
            segs.push_back(b);
        }
        Piece { segs, full }
    }
}
impl bytes::Buf for Piece {
    fn remaining(&self) -> usize { self.segs.iter().map(|b| b.len()).sum() }
    fn chunk(&self) -> &[u8] { self.segs.iter().find(|b| !b.is_empty()).map(|b| &b[..]).unwrap_or(&[]) }
    fn advance(&mut self, mut n: usize) {
        assert!(n <= self.remaining(), "advanced past the end of the buffer");
        while n > 0 {
            let k = self.segs[0].len().min(n);
            bytes::Buf::advance(&mut self.segs[0], k);
            n -= k;
            if self.segs[0].is_empty() { self.segs.pop_front(); }
        }
    }
    fn chunks_vectored<'a>(&'a self, dst: &mut [io::IoSlice<'a>]) -> usize {
        let mut n = 0;
        for b in &self.segs {
            if n == dst.len() || (!self.full && n == 1) { break; }
            if b.is_empty() { continue; }
            dst[n] = io::IoSlice::new(b);
            n += 1;
        }
        n
    }
}
/// {"chunks":[..strings, null=Pending], "trailers":[[n,v]..]|null, "exact":n|null, "eos":bool, "err":bool}
pub struct ScriptBody {
    q: VecDeque<Option<Bytes>>,
    split: usize,
    full: bool,
    trailers: Option<HeaderMap>,
    exact: Option<u64>,
    eos: bool,
    err: bool,
}
pub fn hmap(v: &Value) -> HeaderMap {
    let mut h = HeaderMap::new();
    if let Some(a) = v.as_array() {
        for x in a {
            if let (Ok(n), Ok(val)) = (HeaderName::from_bytes(&dec(&x[0])), HeaderValue::from_bytes(&dec(&x[1]))) { h.append(n, val); }
        }
    }
    h
}
pub fn hlist(h: &HeaderMap) -> Vec<(String, Vec<u8>)> { h.iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect() }
impl ScriptBody {
    pub fn from(v: &Value) -> ScriptBody {
        ScriptBody {
            q: v["chunks"].as_array().map(|a| a.iter().map(|c| if c.is_null() { None } else { Some(Bytes::from(dec(c))) }).collect()).unwrap_or_default(),
            split: us(&v["split"]),
            full: v["full"].as_bool().unwrap_or(true),
            trailers: if v["trailers"].is_null() { None } else { Some(hmap(&v["trailers"])) },
            exact: v["exact"].as_u64(),
            eos: v["eos"].as_bool().unwrap_or(false),
            err: v["err"].as_bool().unwrap_or(false),
        }
    }
    pub fn total(v: &Value) -> Vec<u8> {
        let mut o = vec![];
        if let Some(a) = v["chunks"].as_array() { for c in a { o.extend(dec(c)); } }
        o
    }
}
impl Body for ScriptBody {
    type Data = Piece;
    type Error = io::Error;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Piece>, io::Error>>> {
        let (split, full) = (self.split, self.full);
        match self.q.pop_front() {
            Some(None) => { cx.waker().wake_by_ref(); Poll::Pending }
            Some(Some(b)) => {
                if let Some(n) = &mut self.exact { *n = n.saturating_sub(b.len() as u64); }
                Poll::Ready(Some(Ok(Frame::data(Piece::new(b, split, full)))))
            }
            None => {
                if self.err { self.err = false; return Poll::Ready(Some(Err(io::Error::new(io::ErrorKind::Other, "scripted body error")))); }
                match self.trailers.take() { Some(t) => Poll::Ready(Some(Ok(Frame::trailers(t)))), None => Poll::Ready(None) }
            }
        }
    }
    fn is_end_stream(&self) -> bool { self.eos && !self.err && self.trailers.is_none() && self.q.iter().all(|x| x.is_none()) && self.q.is_empty() }
    fn size_hint(&self) -> SizeHint { match self.exact { Some(n) => SizeHint::with_exact(n), None => SizeHint::default() } }
}

#[derive(Default, Clone, Debug)]
pub struct Msg {
    pub start: String, // "GET /uri HTTP/1.1" or "HTTP/1.1 200 reason"
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub frames: Vec<usize>,
    pub trailers: Option<Vec<(String, Vec<u8>)>>,
    pub err: Option<String>,
    pub ended: bool,
    pub hint: (u64, Option<u64>),
    pub eos0: bool,
    pub hint_bad: Option<String>,
    pub reason: Option<Vec<u8>>,
}
#[derive(Default, Debug)]
pub struct Out {
    pub msgs: Vec<Msg>,
    pub out: Vec<u8>,
    pub result: Option<Result<(), String>>,
    pub shutdown: bool,
    pub read: usize,
    pub upgraded: Option<Vec<u8>>,
    pub reads: Vec<(usize, usize)>,
    pub send_err: Vec<String>,
    pub polls: usize,
    pub max_buffered: usize,
}

async fn slurp<B>(body: B, slot: Rc<RefCell<Vec<Msg>>>, idx: usize, mode: usize)
where B: Body<Data = Bytes>, B::Error: std::fmt::Display {
    // mode: 0 read all; 1 drop unread; n>=2 read n-2+1 frames then drop
    let mut body = Box::pin(body);
    {
        let h = body.size_hint();
        let mut s = slot.borrow_mut();
        s[idx].hint = (h.lower(), h.upper());
        s[idx].eos0 = body.is_end_stream();
    }
    if mode == 1 { return; }
    let mut n = 0;
    loop {
        if mode >= 2 && n >= mode - 1 { return; }
        let before = body.size_hint();
        let eos_before = body.is_end_stream();
        let f = futures_util::future::poll_fn(|cx| body.as_mut().poll_frame(cx)).await;
        n += 1;
        let mut s = slot.borrow_mut();
        let m = &mut s[idx];
        match f {
            None => {
                m.ended = true;
                if before.lower() > 0 { m.hint_bad = Some(format!("lower bound {} but the body ended", before.lower())); }
                return;
            }
            Some(Err(e)) => { m.err = Some(e.to_string()); return; }
            Some(Ok(fr)) => {
                if eos_before { m.hint_bad = Some("is_end_stream() was true but another frame came".into()); }
                if fr.is_data() {
                    let d = fr.into_data().ok().unwrap();
                    if let Some(u) = before.upper() { if d.len() as u64 > u { m.hint_bad = Some(format!("upper bound {} but {} octets came", u, d.len())); } }
                    m.frames.push(d.len());
                    m.body.extend_from_slice(&d);
                    let after = body.size_hint();
                    if let (Some(b), Some(a)) = (before.exact(), after.exact()) {
                        if a + d.len() as u64 != b { m.hint_bad = Some(format!("exact hint {} -> {} after {} octets", b, a, d.len())); }
                    }
                } else if let Ok(t) = fr.into_trailers() { m.trailers = Some(hlist(&t)); }
            }
        }
    }
}

pub struct SrvOpts { pub v: Value }

/// Drive a server connection. `resp(i)` describes the i-th response:
/// {"status":200,"headers":[[n,v]],"body":{..},"read":mode,"read_after":bool,"version":"1.0"|null,"fail":bool,"ext":...}
pub fn server(io: ScriptIo, opts: &Value, resps: &Value) -> Out {
    let slot: Rc<RefCell<Vec<Msg>>> = Default::default();
    let upg: Rc<RefCell<Option<Vec<u8>>>> = Default::default();
    let slot2 = slot.clone();
    let upg2 = upg.clone();
    BG.with(|c| c.borrow_mut().clear());
    let resps: Rc<Vec<Value>> = Rc::new(resps.as_array().cloned().unwrap_or_default());
    let svc = hyper::service::service_fn(move |mut req: Request<hyper::body::Incoming>| {
        let slot = slot2.clone();
        let upg = upg2.clone();
        let idx = slot.borrow().len();
        slot.borrow_mut().push(Msg { start: format!("{} {} {:?}", req.method(), req.uri(), req.version()), headers: hlist(req.headers()), ..Default::default() });
        let r = if resps.is_empty() { json!({}) } else { resps[idx.min(resps.len() - 1)].clone() };
        let fut: Pin<Box<dyn Future<Output = Result<Response<ScriptBody>, io::Error>>>> = Box::pin(async move {
            let mode = us(&r["read"]);
            let on_up = if r["upgrade"].as_bool().unwrap_or(false) { Some(hyper::upgrade::on(&mut req)) } else { None };
            let body = req.into_body();
            let late = r["read_after"].as_bool().unwrap_or(false);
            let mut keep = None;
            if r["bg"].as_bool().unwrap_or(false) {
                // read by another task, once the response has begun
                let (slot, n) = (slot.clone(), us(&r["bg_wait"]));
                BG.with(|c| c.borrow_mut().push(Box::pin(async move { for _ in 0..n { yield_now().await; } slurp(body, slot, idx, mode).await; })));
            } else if late { keep = Some(body); } else { slurp(body, slot.clone(), idx, mode).await; }
            if r["fail"].as_bool().unwrap_or(false) { return Err(io::Error::new(io::ErrorKind::Other, "service failed")); }
            if let Some(n) = r["delay"].as_u64() { for _ in 0..n { yield_now().await; } }
            let mut resp = Response::builder().status(r["status"].as_u64().unwrap_or(200) as u16);
            if r["version"] == "1.0" { resp = resp.version(http::Version::HTTP_10); }
            let mut resp = resp.body(ScriptBody::from(&r["body"])).unwrap();
            *resp.headers_mut() = hmap(&r["headers"]);
            if let Some(reason) = r["reason"].as_str() {
                if let Ok(p) = hyper::ext::ReasonPhrase::try_from(dec(&json!(reason))) { resp.extensions_mut().insert(p); }
            }
            drop(keep);
            if let Some(u) = on_up {
                // read what the other side sent after the upgrade, lazily driven below
                UPG.with(|c| c.borrow_mut().push(Box::pin(async move {
                    if let Ok(up) = u.await {
                        let v = read_all(up).await;
                        *upg.borrow_mut() = Some(v);
                    }
                })));
            }
            Ok::<_, io::Error>(resp)
        });
        fut
    });
    let mut b = hyper::server::conn::http1::Builder::new();
    if let Some(x) = opts["keep_alive"].as_bool() { b.keep_alive(x); }
    if let Some(x) = opts["half_close"].as_bool() { b.half_close(x); }
    if let Some(x) = opts["title_case"].as_bool() { b.title_case_headers(x); }
    if let Some(x) = opts["preserve_case"].as_bool() { b.preserve_header_case(x); }
    if let Some(x) = opts["max_headers"].as_u64() { b.max_headers(x as usize); }
    if let Some(x) = opts["max_buf"].as_u64() { b.max_buf_size(x as usize); }
    if let Some(x) = opts["pipeline_flush"].as_bool() { b.pipeline_flush(x); }
    if let Some(x) = opts["writev"].as_bool() { b.writev(x); }
    if let Some(x) = opts["date"].as_bool() { b.auto_date_header(x); }
    if let Some(x) = opts["ignore_invalid"].as_bool() { b.ignore_invalid_headers(x); }
    let conn = b.serve_connection(io.clone(), svc);
    let mut out = Out::default();
    if opts["upgrades"].as_bool().unwrap_or(false) {
        // upgrades need Send io: use the Conn's poll_without_shutdown route
        let mut conn = conn;
        drive(&io, &mut out, |cx| { conn.poll_without_shutdown(cx).map(|r| r.map_err(|e| e.to_string())) });
        if matches!(out.result, Some(Ok(()))) {
            let parts = conn.into_parts();
            out.upgraded = Some(parts.read_buf.to_vec());
        }
    } else {
        let mut conn = Box::pin(conn);
        if let Some(n) = opts["shutdown_after"].as_u64() {
            // graceful shutdown after n polls
            let mut left = n;
            drive(&io, &mut out, |cx| {
                if left == 0 { conn.as_mut().graceful_shutdown(); left = u64::MAX; } else if left != u64::MAX { left -= 1; }
                conn.as_mut().poll(cx).map(|r| r.map_err(|e| e.to_string()))
            });
        } else {
            drive(&io, &mut out, |cx| conn.as_mut().poll(cx).map(|r| r.map_err(|e| e.to_string())));
        }
    }
    if out.upgraded.is_none() { out.upgraded = upg.borrow_mut().take(); }
    out.msgs = slot.borrow().clone();
    out
}
thread_local! { static BG: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = RefCell::new(vec![]); }
thread_local! { static UPG: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = RefCell::new(vec![]); }
async fn read_all(mut up: hyper::upgrade::Upgraded) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let mut store = [0u8; 64];
        let mut rb = hyper::rt::ReadBuf::new(&mut store);
        let r = futures_util::future::poll_fn(|cx| hyper::rt::Read::poll_read(Pin::new(&mut up), cx, rb.unfilled())).await;
        if r.is_err() || rb.filled().is_empty() { return v; }
        v.extend_from_slice(rb.filled());
    }
}
pub async fn yield_now() {
    let mut done = false;
    futures_util::future::poll_fn(move |cx| { if done { Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); Poll::Pending } }).await
}

thread_local! { static AT_CLONE: std::cell::RefCell<Option<(usize, Box<dyn FnOnce()>)>> = const { std::cell::RefCell::new(None) }; }
/// run `f` inside the n-th clone of a waker made by `waker` from now on: the place where other threads' steps can fall between two of a task's
pub fn at_clone(n: usize, f: impl FnOnce() + 'static) { AT_CLONE.with(|h| *h.borrow_mut() = Some((n, Box::new(f)))); }
pub fn at_clone_off() { AT_CLONE.with(|h| drop(h.borrow_mut().take())); }
pub fn waker(f: std::sync::Arc<Flag>) -> std::task::Waker {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    unsafe fn cl(p: *const ()) -> RawWaker {
        std::sync::Arc::increment_strong_count(p as *const Flag);
        let go = AT_CLONE.with(|h| match h.try_borrow_mut() { Ok(mut h) => match h.as_mut() { Some((0, _)) => h.take().map(|x| x.1), Some((n, _)) => { *n -= 1; None } None => None }, Err(_) => None });
        if let Some(g) = go { g(); }
        RawWaker::new(p, &VT)
    }
    unsafe fn wk(p: *const ()) { futures_util::task::ArcWake::wake(std::sync::Arc::from_raw(p as *const Flag)); }
    unsafe fn wr(p: *const ()) { let a = std::mem::ManuallyDrop::new(std::sync::Arc::from_raw(p as *const Flag)); futures_util::task::ArcWake::wake_by_ref(&a); }
    unsafe fn dr(p: *const ()) { drop(std::sync::Arc::from_raw(p as *const Flag)); }
    static VT: RawWakerVTable = RawWakerVTable::new(cl, wk, wr, dr);
    unsafe { Waker::from_raw(RawWaker::new(std::sync::Arc::into_raw(f) as *const (), &VT)) }
}

pub struct Flag(pub std::sync::atomic::AtomicBool);
impl futures_util::task::ArcWake for Flag { fn wake_by_ref(a: &std::sync::Arc<Self>) { a.0.store(true, std::sync::atomic::Ordering::SeqCst); } }
pub fn drive(io: &ScriptIo, out: &mut Out, mut poll: impl FnMut(&mut Context<'_>) -> Poll<Result<(), String>>) {
    // a task is polled again only when something woke it, as a runtime does
    let flag = std::sync::Arc::new(Flag(std::sync::atomic::AtomicBool::new(true)));
    let w = futures_util::task::waker(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut idle = 0;
    let mut last = 0;
    for _ in 0..200_000 {
        out.polls += 1;
        if !flag.0.swap(false, std::sync::atomic::Ordering::SeqCst) { break; }
        let polled = poll(&mut cx);
        BG.with(|c| {
            let mut l = std::mem::take(&mut *c.borrow_mut());
            l.retain_mut(|f| f.as_mut().poll(&mut cx).is_pending());
            c.borrow_mut().extend(l);
        });
        match polled {
            Poll::Ready(r) => { out.result = Some(r); break; }
            Poll::Pending => {}
        }
        let p = io.0.lock().unwrap().progress;
        if p == last { idle += 1; if idle > 24 { break; } } else { idle = 0; last = p; }
    }
    let s = io.0.lock().unwrap();
    out.out = s.out.clone();
    out.shutdown = s.shutdown;
    out.read = s.read;
    out.reads = s.reads.clone();
}

/// Drive a client connection sending the given requests one after another.
/// req: {"method","uri","headers","version","body","read":mode}
pub fn client(io: ScriptIo, opts: &Value, reqs: &Value) -> Out {
    let slot: Rc<RefCell<Vec<Msg>>> = Default::default();
    let errs: Rc<RefCell<Vec<String>>> = Default::default();
    let mut b = hyper::client::conn::http1::Builder::new();
    if let Some(x) = opts["title_case"].as_bool() { b.title_case_headers(x); }
    if let Some(x) = opts["preserve_case"].as_bool() { b.preserve_header_case(x); }
    if let Some(x) = opts["max_headers"].as_u64() { b.max_headers(x as usize); }
    if let Some(x) = opts["max_buf"].as_u64() { b.max_buf_size(x as usize); }
    if let Some(x) = opts["read_exact"].as_u64() { b.read_buf_exact_size(Some(x as usize)); }
    if let Some(x) = opts["http09"].as_bool() { b.http09_responses(x); }
    if let Some(x) = opts["writev"].as_bool() { b.writev(x); }
    if let Some(x) = opts["spaces"].as_bool() { b.allow_spaces_after_header_name_in_responses(x); }
    if let Some(x) = opts["obs_fold"].as_bool() { b.allow_obsolete_multiline_headers_in_responses(x); }
    if let Some(x) = opts["ignore_invalid"].as_bool() { b.ignore_invalid_headers_in_responses(x); }
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut hs = Box::pin(b.handshake::<_, ScriptBody>(io.clone()));
    let (mut tx, conn) = match hs.as_mut().poll(&mut cx) { Poll::Ready(Ok(x)) => x, _ => return Out::default() };
    let reqs: Vec<Value> = reqs.as_array().cloned().unwrap_or_default();
    let slot2 = slot.clone();
    let errs2 = errs.clone();
    let mut main: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move {
        for r in reqs {
            if let Err(e) = tx.ready().await { errs2.borrow_mut().push(format!("ready: {}", e)); return; }
            let mut q = Request::builder().method(r["method"].as_str().unwrap_or("GET")).uri(r["uri"].as_str().unwrap_or("/"));
            if r["version"] == "1.0" { q = q.version(http::Version::HTTP_10); }
            if r["version"] == "2" { q = q.version(http::Version::HTTP_2); }
            let mut q = match q.body(ScriptBody::from(&r["body"])) { Ok(q) => q, Err(_) => { errs2.borrow_mut().push("bad request".into()); return; } };
            *q.headers_mut() = hmap(&r["headers"]);
            match tx.send_request(q).await {
                Ok(resp) => {
                    let idx = slot2.borrow().len();
                    let reason = resp.extensions().get::<hyper::ext::ReasonPhrase>().map(|p| String::from_utf8_lossy(p.as_bytes()).to_string()).unwrap_or_default();
                    slot2.borrow_mut().push(Msg { start: format!("{:?} {} {}", resp.version(), resp.status().as_u16(), reason), headers: hlist(resp.headers()), reason: resp.extensions().get::<hyper::ext::ReasonPhrase>().map(|p| p.as_bytes().to_vec()), ..Default::default() });
                    slurp(resp.into_body(), slot2.clone(), idx, us(&r["read"])).await;
                    if r["stop"].as_bool().unwrap_or(false) { return; }
                }
                Err(e) => { errs2.borrow_mut().push(format!("{}", e)); if !r["go_on"].as_bool().unwrap_or(false) { break; } }
            }
        }
        // keep the sender alive: dropping it ends the connection
        futures_util::future::pending::<()>().await;
        drop(tx);
    });
    let mut conn = Box::pin(conn);
    let mut out = Out::default();
    let mut done = false;
    drive(&io, &mut out, |cx| {
        if !done { if main.as_mut().poll(cx).is_ready() { done = true; } }
        let r = if opts["upgrades"].as_bool().unwrap_or(false) {
            let c: &mut hyper::client::conn::http1::Connection<_, _> = &mut conn;
            c.poll_without_shutdown(cx).map(|r| r.map_err(|e| e.to_string()))
        } else { conn.as_mut().poll(cx).map(|r| r.map_err(|e| e.to_string())) };
        if !done { if main.as_mut().poll(cx).is_ready() { done = true; } }
        r
    });
    // let the request side see the end of the connection
    for _ in 0..4 { if !done { if main.as_mut().poll(&mut cx).is_ready() { done = true; } } }
    if opts["upgrades"].as_bool().unwrap_or(false) && matches!(out.result, Some(Ok(()))) {
        let parts = (*Pin::into_inner(conn)).into_parts();
        out.upgraded = Some(parts.read_buf.to_vec());
    }
    out.msgs = slot.borrow().clone();
    out.send_err = errs.borrow().clone();
    out
}

// ---- independent reading of what hyper wrote --------------------------------
#[derive(Debug, Clone, Default)]
pub struct Parsed { pub start: String, pub headers: Vec<(String, Vec<u8>)>, pub raw_names: Vec<String>, pub body: Vec<u8>, pub framing: &'static str, pub trailers: Vec<(String, Vec<u8>)>, pub complete: bool, pub chunks: Vec<usize> }
impl Parsed {
    pub fn get(&self, n: &str) -> Vec<Vec<u8>> { self.headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect() }
}
/// Parse one message starting at `b`. `no_body`: the recipient knows there is none.
/// Returns (message, octets used). Strict RFC 9112 reading.
pub fn read_msg(b: &[u8], is_resp: bool, no_body: bool) -> Result<Option<(Parsed, usize)>, String> {
    let end = match b.windows(4).position(|w| w == b"\r\n\r\n") { Some(e) => e, None => return Ok(None) };
    let head = &b[..end];
    let mut p = Parsed::default();
    let mut lines = head.split(|c| *c == b'\n').map(|l| if l.ends_with(b"\r") { &l[..l.len() - 1] } else { l });
    p.start = String::from_utf8_lossy(lines.next().unwrap_or(b"")).to_string();
    for l in lines {
        let c = match l.iter().position(|c| *c == b':') { Some(c) => c, None => return Err(format!("header line without colon: {}", show(l))) };
        if l[..c].is_empty() || !l[..c].iter().all(|b| b.is_ascii_graphic()) { return Err(format!("bad header name in {}", show(l))); }
        let v: &[u8] = &l[c + 1..];
        let v = v.strip_prefix(b" ").unwrap_or(v);
        p.raw_names.push(String::from_utf8_lossy(&l[..c]).to_string());
        p.headers.push((String::from_utf8_lossy(&l[..c]).to_lowercase(), v.to_vec()));
    }
    let mut pos = end + 4;
    let te = p.get("transfer-encoding");
    let cl = p.get("content-length");
    if no_body { p.framing = "none"; p.complete = true; return Ok(Some((p, pos))); }
    if !te.is_empty() {
        let all: Vec<u8> = te.join(&b", "[..]);
        let last = all.split(|c| *c == b',').last().unwrap_or(b"").to_vec();
        let last = String::from_utf8_lossy(&last).trim().to_lowercase();
        if last != "chunked" {
            if is_resp { p.framing = "close"; p.body = b[pos..].to_vec(); return Ok(Some((p, b.len()))); }
            return Err("request transfer-encoding does not end in chunked".into());
        }
        p.framing = "chunked";
        loop {
            let le = match b[pos..].windows(2).position(|w| w == b"\r\n") { Some(e) => pos + e, None => return Ok(Some((p, b.len()))) };
            let s = std::str::from_utf8(&b[pos..le]).map_err(|_| "chunk size not text".to_string())?;
            if s.is_empty() || !s.bytes().all(|c| c.is_ascii_hexdigit()) { return Err(format!("bad chunk size line {:?}", s)); }
            let n = usize::from_str_radix(s, 16).map_err(|e| e.to_string())?;
            pos = le + 2;
            if n == 0 {
                // trailers
                loop {
                    let le = match b[pos..].windows(2).position(|w| w == b"\r\n") { Some(e) => pos + e, None => return Ok(Some((p, b.len()))) };
                    let l = &b[pos..le];
                    pos = le + 2;
                    if l.is_empty() { p.complete = true; return Ok(Some((p, pos))); }
                    let c = match l.iter().position(|c| *c == b':') { Some(c) => c, None => return Err(format!("trailer without colon: {}", show(l))) };
                    let v = &l[c + 1..];
                    p.trailers.push((String::from_utf8_lossy(&l[..c]).to_lowercase(), v.strip_prefix(b" ").unwrap_or(v).to_vec()));
                }
            }
            if pos + n > b.len() { p.body.extend_from_slice(&b[pos..]); return Ok(Some((p, b.len()))); }
            p.chunks.push(n);
            p.body.extend_from_slice(&b[pos..pos + n]);
            pos += n;
            if b.len() < pos + 2 { return Ok(Some((p, b.len()))); }
            if &b[pos..pos + 2] != b"\r\n" { return Err("chunk not followed by CRLF".into()); }
            pos += 2;
        }
    }
    if !cl.is_empty() {
        let mut all = vec![];
        for v in &cl { for m in v.split(|c| *c == b',') { match std::str::from_utf8(m).ok().and_then(|s| s.trim().parse::<u64>().ok()) { Some(n) => all.push(n), None => return Err(format!("bad content-length {}", show(v))) } } }
        let n = all[0];
        if all.iter().any(|c| *c != n) { return Err("differing content-lengths".into()); }
        p.framing = "length";
        let n = n.min(usize::MAX as u64) as usize;
        let e = pos.saturating_add(n);
        if e > b.len() { p.body = b[pos..].to_vec(); return Ok(Some((p, b.len()))); }
        p.body = b[pos..e].to_vec();
        p.complete = true;
        return Ok(Some((p, e)));
    }
    if is_resp { p.framing = "close"; p.body = b[pos..].to_vec(); return Ok(Some((p, b.len()))); }
    p.framing = "none";
    p.complete = true;
    Ok(Some((p, pos)))
}
