use super::*;
/// a write buffer of either strategy, for the encoder's hook
pub(in crate::proto::h1) fn write_buf<B: Buf>(queue: bool) -> WriteBuf<B> {
    WriteBuf::new(if queue { WriteStrategy::Queue } else { WriteStrategy::Flatten })
}
/// the adaptive read size
#[allow(missing_docs, missing_debug_implementations)]
pub struct VStrategy(ReadStrategy);
#[allow(missing_docs)]
impl VStrategy {
    pub fn new(max: usize) -> Self { VStrategy(ReadStrategy::with_max(max)) }
    pub fn next(&self) -> usize { self.0.next() }
    pub fn max(&self) -> usize { self.0.max() }
    pub fn record(&mut self, n: usize) { self.0.record(n) }
}
/// the outbound queue over a transport
#[allow(missing_docs, missing_debug_implementations)]
pub struct VBuffered<T, B: Buf>(Buffered<T, B>);
#[allow(missing_docs)]
impl<T: Read + Write + Unpin, B: Buf> VBuffered<T, B> {
    pub fn new(io: T) -> Self { VBuffered(Buffered::new(io)) }
    pub fn flatten(&mut self) { self.0.set_write_strategy_flatten() }
    pub fn set_max(&mut self, n: usize) { self.0.set_max_buf_size(n) }
    pub fn head(&mut self, b: &[u8]) -> bool {
        if !self.0.can_headers_buf() { return false; }
        self.0.headers_buf().extend_from_slice(b);
        true
    }
    pub fn buffer(&mut self, b: B) { self.0.buffer(b) }
    pub fn can_buffer(&self) -> bool { self.0.can_buffer() }
    pub fn has_buffered_write(&self) -> bool { self.0.has_buffered_write() }
    pub fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.poll_flush(cx) }
    pub fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.poll_shutdown(cx) }
    pub fn read_mem(&mut self, cx: &mut Context<'_>, n: usize) -> Poll<io::Result<Bytes>> { self.0.read_mem(cx, n) }
    pub fn into_inner(self) -> (T, Bytes) { self.0.into_inner() }
}
