use super::*;
#[allow(missing_debug_implementations, missing_docs)]
pub struct VReader<F>(pub F);
impl<F> MemRead for VReader<F>
where
    F: FnMut(&mut Context<'_>, usize) -> Poll<io::Result<Bytes>>,
{
    fn read_mem(&mut self, cx: &mut Context<'_>, len: usize) -> Poll<io::Result<Bytes>> {
        (self.0)(cx, len)
    }
}
#[allow(missing_debug_implementations, missing_docs)]
pub struct VDecoder(Decoder);
#[allow(missing_docs)]
impl VDecoder {
    pub fn length(n: u64) -> Self { VDecoder(Decoder::length(n)) }
    pub fn chunked(h: Option<usize>, b: Option<usize>) -> Self { VDecoder(Decoder::chunked(h, b)) }
    pub fn eof() -> Self { VDecoder(Decoder::eof()) }
    pub fn is_eof(&self) -> bool { self.0.is_eof() }
    pub fn decode<F>(&mut self, cx: &mut Context<'_>, f: F) -> Poll<Result<Frame<Bytes>, io::Error>>
    where
        F: FnMut(&mut Context<'_>, usize) -> Poll<io::Result<Bytes>>,
    {
        self.0.decode(cx, &mut VReader(f))
    }
}
