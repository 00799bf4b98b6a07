use super::*;
/// The window estimator.
#[allow(missing_docs, missing_debug_implementations)]
pub struct VBdp(Bdp);
#[allow(missing_docs)]
impl VBdp {
    /// as `channel` makes it
    pub fn new(wnd: u32) -> VBdp { VBdp::raw(wnd, 0.0, 0.0, Duration::from_millis(100), 0) }
    pub fn raw(bdp: u32, max_bandwidth: f64, rtt: f64, ping_delay: Duration, stable_count: u32) -> VBdp { VBdp(Bdp { bdp, max_bandwidth, rtt, ping_delay, stable_count }) }
    pub fn calculate(&mut self, bytes: usize, rtt: Duration) -> Option<u32> { self.0.calculate(bytes, rtt) }
    pub fn window(&self) -> u32 { self.0.bdp }
    pub fn delay(&self) -> Duration { self.0.ping_delay }
    pub fn stable(&self) -> u32 { self.0.stable_count }
}
