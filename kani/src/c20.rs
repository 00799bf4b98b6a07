//! Contract of Bdp::calculate, checked on the real function for every state that
//! meets the invariant and every sample.
use hyper::verif::ping::VBdp;
use std::time::Duration;
const MIN: u32 = 65_535;
const LIMIT: u32 = 16 * 1024 * 1024;
fn delay() -> Duration {
    let s: u64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(n < 1_000_000_000);
    Duration::new(s, n)
}
/// the representation invariant
fn inv(b: &VBdp) -> bool { b.window() >= MIN && b.window() <= LIMIT && b.delay() < Duration::from_secs(40) && b.stable() < 2 }
/// one sample: the invariant is kept, the window never shrinks, and a window is
/// asked for exactly when it is the new one
#[kani::proof]
fn calculate_contract() {
    let d = delay();
    let mut b = VBdp::raw(kani::any(), kani::any(), kani::any(), d, kani::any());
    kani::assume(inv(&b));
    let bytes: usize = kani::any();
    // octets counted between two pings; fewer than 2^63 fit through any link
    kani::assume(bytes <= isize::MAX as usize);
    let old = b.window();
    let r = b.calculate(bytes, delay());
    assert!(inv(&b), "the estimator's invariant is kept");
    assert!(b.window() >= old, "the window does not shrink");
    match r {
        Some(w) => assert!(w == b.window() && w > old && w <= LIMIT, "a window asked for is larger and within the limit"),
        None => assert!(b.window() == old, "the window is not changed silently"),
    }
    kani::cover!(r.is_some() && b.window() == LIMIT);
    kani::cover!(r.is_none() && old < LIMIT);
}
/// the state a connection starts in meets the invariant
#[kani::proof]
fn initial_state() {
    let b = VBdp::new(MIN);
    assert!(inv(&b) && b.window() == MIN);
}
