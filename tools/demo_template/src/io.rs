//! hyper I/O traits over a tokio stream.
#![allow(dead_code)]
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream, ReadBuf};

pub struct Io<T>(pub T);
impl<T: AsyncRead + Unpin> hyper::rt::Read for Io<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        let n = unsafe {
            let mut b = ReadBuf::uninit(buf.as_mut());
            match Pin::new(&mut self.0).poll_read(cx, &mut b) {
                Poll::Ready(Ok(())) => b.filled().len(),
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        };
        unsafe { buf.advance(n) };
        Poll::Ready(Ok(()))
    }
}
impl<T: AsyncWrite + Unpin> hyper::rt::Write for Io<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}

/// Write `bytes`, close the write side, return everything the other end writes until it closes (or 5 s pass).
pub async fn exchange(mut peer: DuplexStream, bytes: &[u8]) -> Vec<u8> {
    let _ = peer.write_all(bytes).await;
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    let _ = peer.shutdown().await;
    let mut out = vec![];
    let _ = tokio::time::timeout(std::time::Duration::from_secs(5), peer.read_to_end(&mut out)).await;
    out
}

#[derive(Clone)]
pub struct Exec;
impl<F: std::future::Future + 'static> hyper::rt::Executor<F> for Exec {
    fn execute(&self, f: F) {
        tokio::task::spawn_local(async move {
            f.await;
        });
    }
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
