use super::*;
use http::{HeaderMap, HeaderName};
fn drain<B: Buf>(mut b: B) -> Vec<u8> {
    let mut v = vec![];
    while b.has_remaining() {
        let n = {
            let c = b.chunk();
            assert!(!c.is_empty(), "remaining() > 0 but chunk() is empty");
            v.extend_from_slice(c);
            c.len()
        };
        b.advance(n);
    }
    v
}
#[allow(missing_debug_implementations, missing_docs)]
pub struct VEncoder(Encoder);
#[allow(missing_docs)]
impl VEncoder {
    pub fn length(n: u64) -> Self { VEncoder(Encoder::length(n)) }
    pub fn chunked() -> Self { VEncoder(Encoder::chunked()) }
    pub fn close_delimited() -> Self { VEncoder(Encoder::close_delimited()) }
    pub fn trailing(self, names: Vec<HeaderName>) -> Self { VEncoder(self.0.into_chunked_with_trailing_fields(names)) }
    pub fn set_last(mut self, l: bool) -> Self { self.0 = self.0.set_last(l); self }
    pub fn is_eof(&self) -> bool { self.0.is_eof() }
    pub fn encode(&mut self, msg: Bytes) -> Vec<u8> { drain(self.0.encode(msg)) }
    pub fn end(&self) -> Result<Option<Vec<u8>>, u64> {
        match self.0.end::<Bytes>() { Ok(o) => Ok(o.map(drain)), Err(NotEof(n)) => Err(n) }
    }
    pub fn encode_and_end(&self, msg: Bytes, queue: bool) -> (bool, Vec<u8>) {
        let mut w = super::super::io::verif::write_buf::<EncodedBuf<Bytes>>(queue);
        let r = self.0.encode_and_end(msg, &mut w);
        (r, drain(w))
    }
    pub fn encode_trailers(&self, t: HeaderMap, title: bool) -> Option<Vec<u8>> {
        self.0.encode_trailers::<Bytes>(t, title).map(drain)
    }
}
/// octets written for a chunk of `len`: the buffer and how much of it
#[allow(missing_docs)]
pub fn chunk_size_line(len: usize) -> ([u8; 18], usize) {
    let c = ChunkSize::new(len);
    let mut b = [0u8; 18];
    let n = c.chunk().len();
    b[..n].copy_from_slice(c.chunk());
    (b, n)
}
