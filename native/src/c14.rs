//! C14: octets read past a message are handed over once.
use crate::common::*;
use crate::h2net;
use crate::net::{self, drive, ScriptBody, ScriptIo};
use bytes::Bytes;
use http::{Request, Response};
use hyper::rt::{Read, ReadBuf, Write};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;

async fn read1<I: Read + Unpin>(io: &mut I, n: usize) -> Result<Vec<u8>, io::Error> {
    let mut store = vec![0xEEu8; n];
    // a fresh cursor for every poll, as callers are free to use
    futures_util::future::poll_fn(|cx| {
        let mut rb = ReadBuf::new(&mut store);
        match Read::poll_read(Pin::new(&mut *io), cx, rb.unfilled()) {
            std::task::Poll::Ready(Ok(())) => std::task::Poll::Ready(Ok(rb.filled().to_vec())),
            std::task::Poll::Ready(Err(e)) => std::task::Poll::Ready(Err(e)),
            std::task::Poll::Pending => std::task::Poll::Pending,
        }
    }).await
}
/// reads of the given sizes (cyclic) until the end, or `max` of them
async fn reads<I: Read + Unpin>(io: &mut I, sizes: &[usize], max: usize) -> (Vec<u8>, bool) {
    let mut v = vec![];
    let big = [64usize];
    let sizes = if sizes.iter().all(|x| *x == 0) { &big[..] } else { sizes };
    for i in 0..max {
        let n = sizes[i % sizes.len()];
        match read1(io, n).await { Err(_) => return (v, false), Ok(d) => { if d.is_empty() && n > 0 { return (v, true); } v.extend(d); } }
    }
    (v, false)
}
/// write everything, alternating plain and vectored writes, then flush
async fn writes<I: Write + Unpin>(io: &mut I, d: &[u8], step: usize) -> bool {
    let mut p = 0;
    let mut k = 0;
    while p < d.len() {
        let e = (p + step.max(1)).min(d.len());
        let mid = p + (e - p) / 2;
        k += 1;
        let r = futures_util::future::poll_fn(|cx| {
            if k % 2 == 0 { Write::poll_write(Pin::new(&mut *io), cx, &d[p..e]) }
            else { Write::poll_write_vectored(Pin::new(&mut *io), cx, &[io::IoSlice::new(&d[p..mid]), io::IoSlice::new(&[]), io::IoSlice::new(&d[mid..e])]) }
        }).await;
        match r { Ok(n) => { if n == 0 || n > e - p { return false; } p += n; } Err(_) => return false }
    }
    futures_util::future::poll_fn(|cx| Write::poll_flush(Pin::new(&mut *io), cx)).await.is_ok()
}
fn remaining(io: &ScriptIo) -> Vec<u8> {
    let s = io.0.lock().unwrap();
    s.input.iter().flat_map(|x| if let net::Seg::Data(d) = x { d.clone() } else { vec![] }).collect()
}
fn diff(what: &str, c: &Value, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{}: {}: got {} octets, {} expected, first difference at {}: {} / {}", c, what, got.len(), want.len(), k, show(&got[k..]), show(&want[k..])))
}
fn stream(n: usize) -> Vec<u8> { (0..n).map(|i| b'a' + ((i * 7 + i / 26) % 26) as u8).collect() }
fn sizes(c: &Value) -> Vec<usize> { let v = arr(&c["sizes"]); if v.is_empty() { vec![64] } else { v } }

fn rewind(c: &Value) -> Res {
    let all = stream(us(&c["left"]) + us(&c["tail"]));
    let (l, t) = all.split_at(us(&c["left"]));
    let io = ScriptIo::new(net::cut(t, &arr(&c["cuts"])), false);
    io.0.lock().unwrap().wcaps = arr(&c["wcaps"]);
    let mut r = hyper::verif::common_io::VRewind::new(io.clone(), Bytes::copy_from_slice(l));
    let out: Rc<RefCell<Option<(Vec<u8>, Vec<u8>, bool)>>> = Default::default();
    let (o2, c2, io2) = (out.clone(), c.clone(), io.clone());
    let ex = h2net::Exec::default();
    ex.spawn(async move {
        let ok = writes(&mut r, b"written through", us(&c2["wstep"])).await;
        let (v, _) = reads(&mut r, &sizes(&c2), us(&c2["n"])).await;
        let (_io, rest) = r.into_inner();
        let mut rest = rest.to_vec();
        rest.extend(remaining(&io2));
        *o2.borrow_mut() = Some((v, rest, ok));
    });
    ex.run(100_000);
    let (mut v, rest, ok) = out.borrow_mut().take().ok_or_else(|| format!("{}: the reads hang", c))?;
    v.extend(rest);
    diff("read, then taken apart", c, &v, &all)?;
    if !ok { return Err(format!("{}: a write failed", c)); }
    let o = io.0.lock().unwrap().out.clone();
    diff("written", c, &o, b"written through")?;
    Ok(!l.is_empty())
}

/// after the switch: read (n reads, then taken apart if asked for), write
async fn after(mut up: hyper::upgrade::Upgraded, io: ScriptIo, c: Value, out: Rc<RefCell<Option<(Vec<u8>, bool)>>>) {
    let part = c["via"] == "downcast";
    let wfirst = c["wfirst"] == true;
    let back = stream(us(&c["back"]));
    let mut ok = true;
    if wfirst { ok = writes(&mut up, &back, us(&c["wstep"])).await; }
    let (mut v, _) = reads(&mut up, &sizes(&c), if part { us(&c["n"]) } else { 100_000 }).await;
    if !wfirst { ok = writes(&mut up, &back, us(&c["wstep"])).await; }
    if part {
        match up.downcast::<ScriptIo>() {
            Ok(p) => { v.extend(p.read_buf.to_vec()); v.extend(remaining(&io)); drop(p.io); }
            Err(up) => match up.downcast::<h2net::Duplex>() { Ok(_) => ok = false, Err(_) => ok = false },
        }
    }
    *out.borrow_mut() = Some((v, ok));
}
fn h1(c: &Value) -> Res {
    let server = c["who"] == "h1s";
    let tail = stream(us(&c["tail"]));
    let connect = c["kind"] == "connect";
    let body = stream(us(&c["body"]));
    let mut b: Vec<u8> = vec![];
    if server {
        if connect { b.extend(b"CONNECT h:1 HTTP/1.1\r\nhost: h:1\r\n\r\n"); }
        else if body.is_empty() { b.extend(b"GET / HTTP/1.1\r\nhost: h\r\nconnection: upgrade\r\nupgrade: x\r\n\r\n"); }
        else if c["chunked"] == true {
            b.extend(b"POST / HTTP/1.1\r\nhost: h\r\nconnection: upgrade\r\nupgrade: x\r\ntransfer-encoding: chunked\r\n\r\n");
            b.extend(format!("{:x}\r\n", body.len()).as_bytes()); b.extend(&body); b.extend(b"\r\n0\r\n\r\n");
        } else { b.extend(format!("POST / HTTP/1.1\r\nhost: h\r\nconnection: upgrade\r\nupgrade: x\r\ncontent-length: {}\r\n\r\n", body.len()).as_bytes()); b.extend(&body); }
    } else if connect { b.extend(b"HTTP/1.1 200 OK\r\n\r\n"); } else { b.extend(b"HTTP/1.1 101 Switching Protocols\r\nconnection: upgrade\r\nupgrade: x\r\n\r\n"); }
    b.extend(&tail);
    let cuts = arr(&c["cuts"]);
    let mut segs = vec![];
    if !server { segs.push(net::Seg::Wait(1)); }
    let early = b.len() - us(&c["late"]).min(tail.len());
    segs.extend(net::cut(&b[..early], &cuts));
    if early < b.len() {
        // the rest comes only after the answer, and after a while
        if server { segs.push(net::Seg::Wait(1)); }
        segs.extend([net::Seg::Pending, net::Seg::Pending, net::Seg::Pending]);
        segs.extend(net::cut(&b[early..], &cuts));
    }
    // the peer closes only once it has seen the answer
    if server { segs.push(net::Seg::Wait(1)); }
    let io = ScriptIo::new(segs, false);
    io.0.lock().unwrap().wcaps = arr(&c["wcaps"]);
    let out: Rc<RefCell<Option<(Vec<u8>, bool)>>> = Default::default();
    let back = if c["via"] == "parts" { vec![] } else { stream(us(&c["back"])) };
    let ex = h2net::Exec::default();
    let parts = c["via"] == "parts";
    if server {
        let (ex2, out2, c2, io2) = (ex.clone(), out.clone(), c.clone(), io.clone());
        let svc = hyper::service::service_fn(move |mut req: Request<hyper::body::Incoming>| {
            let up = if c2["via"] == "parts" { None } else { Some(hyper::upgrade::on(&mut req)) };
            if let Some(up) = up {
                let (out, c, io) = (out2.clone(), c2.clone(), io2.clone());
                ex2.spawn(async move { if let Ok(u) = up.await { after(u, io, c, out).await; } });
            }
            let f: Pin<Box<dyn Future<Output = Result<Response<ScriptBody>, io::Error>>>> = Box::pin(async move {
                let mut b = Box::pin(req.into_body());
                while let Some(Ok(_)) = futures_util::future::poll_fn(|cx| http_body::Body::poll_frame(b.as_mut(), cx)).await {}
                let mut r = Response::builder().status(if connect { 200 } else { 101 });
                if !connect { r = r.header("connection", "upgrade").header("upgrade", "x"); }
                Ok::<_, io::Error>(r.body(ScriptBody::from(&json!({"chunks": [], "eos": true}))).unwrap())
            });
            f
        });
        let conn = hyper::server::conn::http1::Builder::new().serve_connection(io.clone(), svc);
        if parts { take_apart_srv(conn, &io, &out); }
        else { let conn = conn.with_upgrades(); ex.spawn(async move { let _ = conn.await; }); ex.run(200_000); }
    } else {
        let (ex2, out2, c2, io2) = (ex.clone(), out.clone(), c.clone(), io.clone());
        let conn_slot: Rc<RefCell<Option<_>>> = Default::default();
        let cs = conn_slot.clone();
        ex.spawn(async move {
            let (mut tx, conn) = match hyper::client::conn::http1::Builder::new().handshake::<_, ScriptBody>(io2.clone()).await { Ok(x) => x, Err(_) => return };
            if parts { *cs.borrow_mut() = Some(conn); } else { let conn = conn.with_upgrades(); ex2.spawn(async move { let _ = conn.await; }); }
            let r = Request::builder().method(if connect { "CONNECT" } else { "GET" }).uri(if connect { "h:1" } else { "/" }).header("host", "h");
            let r = if connect { r } else { r.header("connection", "upgrade").header("upgrade", "x") };
            let mut resp = match tx.send_request(r.body(ScriptBody::from(&json!({"chunks": [], "eos": true}))).unwrap()).await { Ok(r) => r, Err(_) => return };
            if let Ok(u) = hyper::upgrade::on(&mut resp).await { after(u, io2, c2, out2).await; }
        });
        if parts {
            // first the handshake and the request, then the connection by hand
            let io3 = io.clone();
            let out3 = out.clone();
            ex.spawn(async move {
                let mut conn = loop { if let Some(c) = conn_slot.borrow_mut().take() { break c; } net::yield_now().await; };
                if futures_util::future::poll_fn(|cx| conn.poll_without_shutdown(cx)).await.is_ok() {
                    let p = conn.into_parts();
                    let mut v = p.read_buf.to_vec();
                    v.extend(remaining(&io3));
                    *out3.borrow_mut() = Some((v, true));
                }
            });
        }
        ex.run(200_000);
    }
    let (v, ok) = out.borrow_mut().take().ok_or_else(|| format!("{}: nothing was handed over", c))?;
    diff("handed over", c, &v, &tail)?;
    if !ok { return Err(format!("{}: a write or the downcast failed", c)); }
    let o = io.0.lock().unwrap().out.clone();
    let head = o.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4).unwrap_or(0);
    diff("written", c, &o[head..], &back)?;
    Ok(!tail.is_empty())
}
fn take_apart_srv<S>(mut conn: hyper::server::conn::http1::Connection<ScriptIo, S>, io: &ScriptIo, out: &Rc<RefCell<Option<(Vec<u8>, bool)>>>)
where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = ScriptBody> + Unpin, S::Error: Into<Box<dyn std::error::Error + Send + Sync>>, S::Future: Unpin {
    let mut o = net::Out::default();
    let mut conn_p = Some(());
    drive(io, &mut o, |cx| { conn.poll_without_shutdown(cx).map(|r| r.map_err(|e| e.to_string())) });
    if conn_p.take().is_some() && matches!(o.result, Some(Ok(()))) {
        let p = conn.into_parts();
        let mut v = p.read_buf.to_vec();
        v.extend(remaining(io));
        *out.borrow_mut() = Some((v, true));
    }
}
/// an HTTP/2 CONNECT tunnel between two hypers
fn h2(c: &Value) -> Res {
    let (a, b) = h2net::duplex(us(&c["cap"]).max(1));
    let ex = h2net::Exec::default();
    let (up, down) = (stream(us(&c["up"])), { let mut v = stream(us(&c["down"])); v.reverse(); v });
    let got_s: Rc<RefCell<Option<Vec<u8>>>> = Default::default();
    let got_c: Rc<RefCell<Option<Vec<u8>>>> = Default::default();
    let win = c["window"].as_u64();
    let mut sb = hyper::server::conn::http2::Builder::new(ex.clone());
    let mut cb = hyper::client::conn::http2::Builder::new(ex.clone());
    if let Some(n) = win { sb.initial_stream_window_size(n as u32); cb.initial_stream_window_size(n as u32); }
    let (ex2, gs, c2, d2) = (ex.clone(), got_s.clone(), c.clone(), down.clone());
    let svc = hyper::service::service_fn(move |mut req: Request<hyper::body::Incoming>| {
        let on = hyper::upgrade::on(&mut req);
        let (gs, c, d) = (gs.clone(), c2.clone(), d2.clone());
        ex2.spawn(async move { if let Ok(u) = on.await { tunnel(u, c, d, gs).await; } });
        async move { Ok::<_, io::Error>(Response::new(ScriptBody::from(&json!({"chunks": [], "eos": true})))) }
    });
    let conn = sb.serve_connection(b, svc);
    ex.spawn(async move { let _ = conn.await; });
    let (ex3, gc, c3, u2) = (ex.clone(), got_c.clone(), c.clone(), up.clone());
    ex.spawn(async move {
        let (mut tx, conn) = match cb.handshake::<_, ScriptBody>(a).await { Ok(x) => x, Err(_) => return };
        ex3.spawn(async move { let _ = conn.await; });
        let r = Request::builder().method("CONNECT").uri("h:1").body(ScriptBody::from(&json!({"chunks": [], "eos": true}))).unwrap();
        let mut resp = match tx.send_request(r).await { Ok(r) => r, Err(_) => return };
        if let Ok(u) = hyper::upgrade::on(&mut resp).await { tunnel(u, c3, u2, gc).await; }
    });
    ex.run(60_000);
    let s = got_s.borrow_mut().take().ok_or_else(|| format!("{}: the server's end of the tunnel did not finish", c))?;
    diff("client to server", c, &s, &up)?;
    let d = got_c.borrow_mut().take().ok_or_else(|| format!("{}: the client's end of the tunnel did not finish", c))?;
    diff("server to client", c, &d, &down)?;
    Ok(!up.is_empty() || !down.is_empty())
}
/// Upgraded is one object: write and read take turns in one task
async fn tunnel(mut u: hyper::upgrade::Upgraded, c: Value, send: Vec<u8>, got: Rc<RefCell<Option<Vec<u8>>>>) {
    let sz = sizes(&c);
    let step = us(&c["wstep"]).max(1);
    let mut p = 0;
    let mut v: Vec<u8> = vec![];
    let (mut closed, mut eof) = (false, false);
    let mut i = 0;
    futures_util::future::poll_fn(|cx| {
        let mut n = 0;
        loop {
            n += 1;
            if n > 2000 { cx.waker().wake_by_ref(); return std::task::Poll::Pending; }
            let mut moved = false;
            if p < send.len() {
                let e = (p + step).min(send.len());
                match Write::poll_write(Pin::new(&mut u), cx, &send[p..e]) { std::task::Poll::Ready(Ok(k)) => { p += k; moved = k > 0; } std::task::Poll::Ready(Err(_)) => { p = send.len(); closed = true; } _ => {} }
            } else if !closed {
                if let std::task::Poll::Ready(_) = Write::poll_shutdown(Pin::new(&mut u), cx) { closed = true; moved = true; }
            }
            if !eof {
                let n = sz[i % sz.len()].max(1);
                let mut store = vec![0u8; n];
                let mut rb = ReadBuf::new(&mut store);
                match Read::poll_read(Pin::new(&mut u), cx, rb.unfilled()) {
                    std::task::Poll::Ready(Ok(())) => { i += 1; moved = true; if rb.filled().is_empty() { eof = true; } v.extend_from_slice(rb.filled()); }
                    std::task::Poll::Ready(Err(_)) => { eof = true; moved = true; v.extend(b"<error>"); }
                    _ => {}
                }
            }
            if closed && eof { return std::task::Poll::Ready(()); }
            if !moved { return std::task::Poll::Pending; }
        }
    }).await;
    *got.borrow_mut() = Some(v);
}
/// The writing side of a tunnel writes and then shuts down while its sending task, out of window, is in the middle of a poll:
/// at the k-th registration of that task's waker.
fn h2race(c: &Value) -> Res {
    let (a, b) = h2net::duplex(1 << 16);
    let ex = h2net::Exec::default();
    let got: Rc<RefCell<Option<Vec<u8>>>> = Default::default();
    let sent: Rc<RefCell<Vec<u8>>> = Default::default();
    let mut cb = hyper::client::conn::http2::Builder::new(ex.clone());
    cb.initial_stream_window_size(us(&c["window"]) as u32);
    let (ex2, s2, c2) = (ex.clone(), sent.clone(), c.clone());
    let svc = hyper::service::service_fn(move |mut req: Request<hyper::body::Incoming>| {
        let on = hyper::upgrade::on(&mut req);
        let (s, c) = (s2.clone(), c2.clone());
        ex2.spawn(async move {
            let Ok(u) = on.await else { return };
            let slot = Rc::new(RefCell::new(Some(u)));
            let fill = stream(us(&c["fill"]));
            for ch in fill.chunks(us(&c["wstep"]).max(1)) {
                let mut p = 0;
                while p < ch.len() {
                    let r = futures_util::future::poll_fn(|cx| Write::poll_write(Pin::new(slot.borrow_mut().as_mut().unwrap()), cx, &ch[p..])).await;
                    match r { Ok(n) => { s.borrow_mut().extend_from_slice(&ch[p..p + n]); p += n; } Err(_) => return }
                }
            }
            let (sl, s3, c3) = (slot.clone(), s.clone(), c.clone());
            net::at_clone(us(&c["k"]), move || {
                let Ok(mut g) = sl.try_borrow_mut() else { return };
                let Some(u) = g.as_mut() else { return };
                let w = futures_util::task::noop_waker();
                let mut cx = std::task::Context::from_waker(&w);
                for i in 0..us(&c3["more"]) {
                    let d = stream(5 + i);
                    if let std::task::Poll::Ready(Ok(n)) = Write::poll_write(Pin::new(&mut *u), &mut cx, &d) { s3.borrow_mut().extend_from_slice(&d[..n]); }
                }
                let _ = Write::poll_shutdown(Pin::new(u), &mut cx);
            });
            for _ in 0..40 { net::yield_now().await; }
            net::at_clone_off();
            drop(slot.borrow_mut().take());
        });
        async move { Ok::<_, io::Error>(Response::new(ScriptBody::from(&json!({"chunks": [], "eos": true})))) }
    });
    let conn = hyper::server::conn::http2::Builder::new(ex.clone()).serve_connection(b, svc);
    ex.spawn(async move { let _ = conn.await; });
    let (ex3, g2, c3) = (ex.clone(), got.clone(), c.clone());
    ex.spawn(async move {
        let (mut tx, conn) = match cb.handshake::<_, ScriptBody>(a).await { Ok(x) => x, Err(_) => return };
        ex3.spawn(async move { let _ = conn.await; });
        let r = Request::builder().method("CONNECT").uri("h:1").body(ScriptBody::from(&json!({"chunks": [], "eos": true}))).unwrap();
        let mut resp = match tx.send_request(r).await { Ok(r) => r, Err(_) => return };
        if let Ok(mut u) = hyper::upgrade::on(&mut resp).await {
            let (v, end) = reads(&mut u, &sizes(&c3), 100_000).await;
            if end { *g2.borrow_mut() = Some(v); }
        }
    });
    ex.run(60_000);
    net::at_clone_off();
    let v = got.borrow_mut().take().ok_or_else(|| format!("{}: the tunnel did not come to its end", c))?;
    let s = sent.borrow().clone();
    diff("written into the tunnel before its end was announced, and read", c, &v, &s)?;
    Ok(!s.is_empty())
}
pub fn one(c: &Value) -> Res {
    match c["who"].as_str().unwrap_or("") { "rewind" => rewind(c), "h2" => h2(c), "h2race" => h2race(c), _ => h1(c) }
}
pub fn run(cx: &mut Cx) {
    cx.rule("octets put back (0-70) in front of a transport, read with every small sequence of sizes (0 included), taken apart after any number of reads; HTTP/1 upgrades and CONNECT on server and client with 0-20000 octets following the head, fragmented in various ways, with and without a request body, read to the end, partly and then taken apart, or taken apart at once, with plain and vectored writes under partial transport writes; HTTP/2 CONNECT tunnels in both directions with small and large windows, writes and reads; a write and the end of a tunnel falling at each of the first 30 registrations of a waker inside the polls of its tasks");
    let szs: Vec<Value> = vec![json!([1]), json!([2]), json!([3, 1]), json!([0, 2]), json!([64]), json!([7, 0, 0, 5]), json!([5, 100])];
    for left in [0usize, 1, 2, 5, 8, 64, 65, 70] { for tail in [0usize, 1, 9, 130] { for s in &szs { for n in [0usize, 1, 2, 3, 5, 1000] { for cuts in [json!([]), json!([1]), json!([4, 0]), json!([0, 3])] {
        cx.case(one, json!({"who": "rewind", "left": left, "tail": tail, "sizes": s, "n": n, "cuts": cuts, "wcaps": if n % 2 == 0 { json!([]) } else { json!([3, 0, 1]) }, "wstep": 4 + n}));
    } } } } }
    for k in 0..30 { for (window, fill) in [(1, 1), (10, 10), (10, 4), (3, 7)]  { for more in [1, 2] {
        cx.case(one, json!({"who": "h2race", "k": k, "window": window, "fill": fill, "more": more, "wstep": 10, "sizes": [40]}));
    } } }
    let mut r = cx.rng(14);
    let rounds = if cx.thorough { 40000 } else { 4500 };
    for k in 0..rounds {
        if cx.stop() { return; }
        let who = *r.pick(&["h1s", "h1c", "h1s", "h1c", "h2"]);
        if k % 11 == 0 || who == "h2" {
            if who == "h2" && (cx.thorough || k % 3 == 0) {
                let big = r.chance(20);
                let up = if big { r.below(200_000) } else { r.below(300) };
                let down = if r.chance(20) { r.below(200_000) } else { r.below(300) };
                let cap = [1usize << 20, 1 << 20, 97, 1000][if up + down > 1000 { r.below(2) } else { r.below(4) }];
                let wstep = [1usize, 10, 1000, 20000, 100000][if up.max(down) > 1000 { r.range(2, 4) } else { r.below(5) }];
                let big_rd = [100usize, 5000, 1 << 17][r.below(3)];
                cx.case(one, json!({"who": "h2", "up": up, "down": down, "cap": cap,
                    "window": if r.chance(50) { json!(r.range(if up.max(down) > 1000 { 1000 } else { 1 }, 5000)) } else { Value::Null }, "wstep": wstep,
                    "sizes": if up.max(down) > 1000 { json!([big_rd, 777]) } else { json!([r.range(1, 40), r.range(1, 5)]) }}));
                continue;
            }
        }
        let who = if who == "h2" { "h1s" } else { who };
        let tail = match r.below(5) { 0 => 0, 1 => r.below(5), 2 => r.below(100), 3 => r.below(3000), _ => r.below(20000) };
        let cuts: Vec<usize> = (0..r.below(4)).map(|_| if r.chance(15) { 0 } else if r.chance(40) { r.range(1, 10) } else { r.range(1, 9000) }).collect();
        let cuts = if cuts.iter().all(|x| *x == 0) { vec![] } else { cuts };
        let s: Vec<usize> = (0..r.range(1, 4)).map(|_| match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(1, 20), 3 => r.range(1, 300), 4 => tail.max(1), _ => 8192 }).collect();
        let s = if tail > 3000 { s.into_iter().map(|x| x.max(50)).collect() } else { s };
        let back = r.below(300);
        cx.case(one, json!({"who": who, "tail": tail, "late": if r.chance(50) { r.below(tail + 1) } else { 0 }, "cuts": cuts, "sizes": s, "kind": *r.pick(&["upgrade", "connect"]), "via": *r.pick(&["read", "downcast", "parts", "read"]),
            "n": r.below(6), "back": back, "wstep": r.range(1, 100), "wfirst": r.chance(50), "body": if r.chance(30) { r.range(1, 200) } else { 0 }, "chunked": r.chance(50),
            "wcaps": if r.chance(50) { json!([]) } else { json!([r.range(1, 60), 0, r.range(1, 5)]) }}));
    }
}
