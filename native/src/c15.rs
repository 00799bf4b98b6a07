//! C15: read-buffer cursors, and the adapter to tokio's buffer.
use crate::common::*;
use hyper::rt::{Read, ReadBuf, ReadBufCursor};
use serde_json::{json, Value};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};

const GARBAGE: u8 = 0xAA;
struct Model { cap: usize, filled: usize, init: usize, mem: Vec<u8>, next: u8 }
impl Model {
    fn fresh(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| { self.next = if self.next >= 0x90 { 1 } else { self.next + 1 }; self.next }).collect() }
    /// one operation on the real cursor and the model
    fn op(&mut self, c: &mut ReadBufCursor<'_>, op: &str, n: usize, w: usize) -> Result<(), String> {
        let rem = self.cap - self.filled;
        if c.remaining() != rem { return Err(format!("remaining() is {}, {} expected", c.remaining(), rem)); }
        match op {
            "put" => {
                let src = self.fresh(n);
                let r = catch_unwind(AssertUnwindSafe(|| c.put_slice(&src)));
                if r.is_ok() != (n <= rem) { return Err(format!("put_slice of {} with {} left: {}", n, rem, if r.is_ok() { "taken" } else { "refused" })); }
                if n <= rem { self.mem[self.filled..self.filled + n].copy_from_slice(&src); self.filled += n; self.init = self.init.max(self.filled); }
            }
            "initto" | "init" => {
                let n = if op == "init" { rem } else { n };
                let data = self.fresh(w.min(n));
                let mut seen = None;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let s = if op == "init" { c.initialize_unfilled() } else { c.initialize_unfilled_to(n) };
                    seen = Some(s.to_vec());
                    s[..data.len()].copy_from_slice(&data);
                }));
                if r.is_ok() != (n <= rem) { return Err(format!("initialising {} with {} left: {}", n, rem, if r.is_ok() { "done" } else { "refused" })); }
                if n <= rem {
                    for k in self.init..self.filled + n { self.mem[k] = 0; }
                    self.init = self.init.max(self.filled + n);
                    let want = &self.mem[self.filled..self.filled + n];
                    let seen = seen.unwrap();
                    if seen != want { return Err(format!("initialising {} showed {:?}, {:?} expected", n, seen, want)); }
                    self.mem[self.filled..self.filled + data.len()].copy_from_slice(&data);
                }
            }
            "adv" | "raw" => {
                let n = n.min(rem);
                let data = self.fresh(n);
                let s = unsafe { c.as_mut() };
                if s.len() != rem { return Err(format!("as_mut() gives {} octets, {} expected", s.len(), rem)); }
                for k in 0..n { s[k] = MaybeUninit::new(data[k]); }
                for k in 0..n { if op == "adv" || self.filled + k < self.init { self.mem[self.filled + k] = data[k]; } }
                if op == "adv" { unsafe { c.advance(n) }; self.filled += n; self.init = self.init.max(self.filled); }
            }
            // what is already initialised may be claimed as filled
            "claim" => {
                let n = n.min(self.init - self.filled);
                unsafe { c.advance(n) };
                self.filled += n;
            }
            _ => {}
        }
        let rem = self.cap - self.filled;
        if c.remaining() != rem { return Err(format!("after {} {}: remaining() is {}, {} expected", op, n, c.remaining(), rem)); }
        Ok(())
    }
    fn see(&self, b: &ReadBuf<'_>) -> Result<(), String> {
        if b.filled() != &self.mem[..self.filled] { return Err(format!("filled() is {:?}, {:?} expected", b.filled(), &self.mem[..self.filled])); }
        let d = format!("{:?}", b);
        let num = |k: &str| -> Option<usize> { d.split(&format!("{}: ", k)).nth(1).and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())) };
        if let (Some(f), Some(i), Some(c)) = (num("filled"), num("init"), num("capacity")) {
            if !(f <= i && i <= c) { return Err(format!("{}", d)); }
        }
        Ok(())
    }
}
fn ops(c: &Value) -> Res {
    let cap = us(&c["cap"]);
    let uninit = c["uninit"].as_bool().unwrap_or(false);
    let mut a = vec![MaybeUninit::new(GARBAGE); cap];
    let mut b = vec![7u8; cap];
    let mut m = Model { cap, filled: 0, init: if uninit { 0 } else { cap }, mem: vec![if uninit { GARBAGE } else { 7 }; cap], next: 0 };
    let mut buf = if uninit { ReadBuf::uninit(&mut a) } else { ReadBuf::new(&mut b) };
    let v = c["ops"].as_array().cloned().unwrap_or_default();
    let mut i = 0;
    while i < v.len() {
        let mut cur = buf.unfilled();
        while i < v.len() {
            let o = &v[i];
            i += 1;
            if o[0] == "new" { break; }
            m.op(&mut cur, o[0].as_str().unwrap_or(""), us(&o[1]), us(&o[2])).map_err(|e| format!("cap {} uninit {} ops {}: {}", cap, uninit, json!(v[..i]), e))?;
        }
        m.see(&buf).map_err(|e| format!("cap {} uninit {} ops {}: {}", cap, uninit, json!(v[..i]), e))?;
    }
    m.see(&buf).map_err(|e| format!("cap {} uninit {} ops {}: {}", cap, uninit, json!(v), e))?;
    Ok(v.len() > 1)
}
/// a transport whose every read makes the given operations on the buffer
struct T { m: Model, ops: Vec<Value>, end: String, err: Option<String> }
impl Read for T {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        let v = std::mem::take(&mut self.ops);
        for o in &v {
            let op = o[0].as_str().unwrap_or("");
            if self.end != "ok" && ["put", "adv", "claim"].contains(&op) { continue; }
            if let Err(e) = self.m.op(&mut buf, op, us(&o[1]), us(&o[2])) { self.err = Some(format!("{} {}: {}", op, o[1], e)); }
        }
        match &*self.end { "ok" => Poll::Ready(Ok(())), "err" => Poll::Ready(Err(std::io::ErrorKind::Other.into())), _ => Poll::Pending }
    }
}
fn compat(c: &Value) -> Res {
    let cap = us(&c["cap"]);
    let mut a = vec![MaybeUninit::new(GARBAGE); cap];
    let mut b = vec![7u8; cap];
    let uninit = c["uninit"].as_bool().unwrap_or(false);
    let mut m = Model { cap, filled: 0, init: if uninit { 0 } else { cap }, mem: vec![if uninit { GARBAGE } else { 7 }; cap], next: 0 };
    let mut t = if uninit { tokio::io::ReadBuf::uninit(&mut a) } else { tokio::io::ReadBuf::new(&mut b) };
    let f = us(&c["filled"]).min(cap);
    let i = us(&c["init"]).min(cap).max(f);
    let d = m.fresh(f);
    t.put_slice(&d);
    m.mem[..f].copy_from_slice(&d);
    m.filled = f;
    m.init = m.init.max(f);
    t.initialize_unfilled_to(i - f);
    for k in m.init..i { m.mem[k] = 0; }
    m.init = m.init.max(i);
    let desc = format!("{}", c);
    let rounds = c["rounds"].as_array().cloned().unwrap_or_default();
    let w = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    // the model travels inside the transport
    let mut m = Some(m);
    for r in &rounds {
        let cell = std::rc::Rc::new(std::cell::RefCell::new(T { m: m.take().unwrap(), ops: r["ops"].as_array().cloned().unwrap_or_default(), end: r["end"].as_str().unwrap_or("ok").into(), err: None }));
        struct Sh(std::rc::Rc<std::cell::RefCell<T>>);
        impl Read for Sh { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: ReadBufCursor<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut *self.0.borrow_mut()).poll_read(cx, buf) } }
        let mut io2 = hyper::verif::common_io::VCompat::new(Sh(cell.clone()));
        let was = t.initialized().len();
        let res = io2.poll_read(&mut cx, &mut t);
        drop(io2);
        let tt = std::rc::Rc::try_unwrap(cell).ok().unwrap().into_inner();
        if let Some(e) = tt.err { return Err(format!("{}: {}", desc, e)); }
        let want = match &*tt.end { "ok" => matches!(res, Poll::Ready(Ok(()))), "err" => matches!(res, Poll::Ready(Err(_))), _ => res.is_pending() };
        if !want { return Err(format!("{}: the adapter's read ended with {:?}", desc, res)); }
        if t.filled() != &tt.m.mem[..tt.m.filled] { return Err(format!("{}: {:?} filled, {:?} expected", desc, t.filled(), &tt.m.mem[..tt.m.filled])); }
        let now = t.initialized().len();
        if now < was || now > tt.m.init || now < t.filled().len() { return Err(format!("{}: {} octets count as initialised, {} are", desc, now, tt.m.init)); }
        if t.initialized() != &tt.m.mem[..now] { return Err(format!("{}: initialised part {:?}", desc, t.initialized())); }
        m = Some(Model { init: now, ..tt.m });
    }
    Ok(!rounds.is_empty())
}
pub fn one(c: &Value) -> Res { if c["who"] == "compat" { compat(c) } else { ops(c) } }
pub fn run(cx: &mut Cx) {
    cx.rule("rt::ReadBuf: every sequence of up to 3 (thorough 4) cursor operations with sizes around what is left, and random longer ones, on initialised and uninitialised memory filled with garbage, against a model; the tokio adapter: every small capacity/filled/initialised state, reads appending in various ways, several in a row");
    let names = ["put", "initto", "init", "adv", "raw", "claim", "new"];
    let depth = if cx.thorough { 4u32 } else { 3 };
    for uninit in [true, false] { for cap in [0usize, 1, 3, 8] {
        let sizes: Vec<usize> = match cap { 0 => vec![0, 1], 1 => vec![0, 1, 2], 3 => vec![0, 1, 2, 4], _ => vec![0, 1, 5, 8, 9] };
        let mut all: Vec<Value> = vec![json!(["new"]), json!(["init", 0, 2])];
        for n in &names { if *n != "new" && *n != "init" { for s in &sizes { all.push(json!([n, s, s / 2])); } } }
        let k = all.len();
        for i in 0..k.pow(depth) {
            if cx.stop() { return; }
            if depth == 4 && cap > 3 && i % 7 != 0 { continue; }
            if depth == 3 && cap > 1 && i % 5 != 0 { continue; }
            let mut x = i; let mut v = vec![]; for _ in 0..depth { v.push(all[x % k].clone()); x /= k; }
            cx.case(one, json!({"cap": cap, "uninit": uninit, "ops": v}));
        }
    } }
    let mut r = cx.rng(15);
    for _ in 0..if cx.thorough { 60000 } else { 6000 } {
        if cx.stop() { return; }
        let cap = [0, 1, 2, 5, 16, 64, 300][r.below(7)];
        let n = r.range(1, 14);
        let v: Vec<Value> = (0..n).map(|_| { let z = r.below(cap / 2 + 2); json!([*r.pick(&names), if r.chance(8) { usize::MAX - r.below(3) } else { z }, r.below(cap + 1)]) })
            .map(|o| if o[1].as_u64().unwrap_or(0) > 1 << 40 && o[0] == "put" { json!(["put", cap + 1]) } else { o }).collect();
        cx.case(one, json!({"cap": cap, "uninit": r.chance(70), "ops": v}));
    }
    for uninit in [true, false] { for cap in 0..7usize { for f in 0..=cap { for i in f..=cap { for k in 0..=cap { for how in ["put", "adv", "init"] { for end in ["ok", "err", "pending"] {
        let op = if how == "init" { json!([["initto", k.min(cap - f), k], ["claim", k / 2]]) } else { json!([[how, k.min(cap - f)]]) };
        cx.case(one, json!({"who": "compat", "cap": cap, "uninit": uninit, "filled": f, "init": i, "rounds": [{"ops": op, "end": end}, {"ops": [["put", 0], ["adv", 1]], "end": "ok"}]}));
    } } } } } } }
    for _ in 0..if cx.thorough { 20000 } else { 3000 } {
        if cx.stop() { return; }
        let cap = r.below(40);
        let f = r.below(cap + 1);
        let i = f + r.below(cap - f + 1);
        let rounds: Vec<Value> = (0..r.range(1, 4)).map(|_| { let o: Vec<Value> = (0..r.range(1, 4)).map(|_| json!([*r.pick(&["adv", "raw", "claim", "init"]), r.below(cap + 1), r.below(cap + 1)])).collect(); json!({"ops": o, "end": *r.pick(&["ok", "ok", "ok", "pending", "err"])}) }).collect();
        cx.case(one, json!({"who": "compat", "cap": cap, "uninit": r.chance(70), "filled": f, "init": i, "rounds": rounds}));
    }
}
