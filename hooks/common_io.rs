use super::*;
use std::pin::Pin;
use std::task::{Context, Poll};
use crate::rt::{Read, Write, ReadBufCursor};
/// the adapter from hyper's to tokio's IO traits
#[allow(missing_docs, missing_debug_implementations)]
pub struct VCompat<T>(Compat<T>);
#[allow(missing_docs)]
impl<T: Read + Unpin> VCompat<T> {
    pub fn new(io: T) -> Self { VCompat(Compat::new(io)) }
    pub fn poll_read(&mut self, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> { tokio::io::AsyncRead::poll_read(Pin::new(&mut self.0), cx, b) }
}
/// a transport with octets put back in front of it
#[allow(missing_docs, missing_debug_implementations)]
pub struct VRewind<T>(Rewind<T>);
#[allow(missing_docs)]
impl<T> VRewind<T> {
    pub fn new(io: T, b: bytes::Bytes) -> Self { VRewind(Rewind::new_buffered(io, b)) }
    pub fn into_inner(self) -> (T, bytes::Bytes) { self.0.into_inner() }
}
impl<T: Read + Unpin> Read for VRewind<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: ReadBufCursor<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_read(cx, buf) }
}
impl<T: Write + Unpin> Write for VRewind<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_write(cx, buf) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[std::io::IoSlice<'_>]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_write_vectored(cx, bufs) }
    fn is_write_vectored(&self) -> bool { self.0.is_write_vectored() }
}
