//! A stream whose replies are given beforehand (async-std).
#![allow(dead_code)]
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};
use async_std::io::{BufRead, Read, Write};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

pub type Log = Arc<Mutex<Vec<u8>>>;

/// Hands out the replies; what is written counts (in the log) once it is flushed.
pub struct Script {
    replies: Vec<u8>,
    at: usize,
    buffered: Vec<u8>,
    log: Log,
}

pub fn script(replies: &str) -> (Script, Log) {
    let log: Log = Default::default();
    (Script { replies: replies.as_bytes().to_vec(), at: 0, buffered: vec![], log: log.clone() }, log)
}

impl Read for Script {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let n = b.len().min(self.replies.len() - self.at);
        b[..n].copy_from_slice(&self.replies[self.at..self.at + n]);
        self.at += n;
        Poll::Ready(Ok(n))
    }
}
impl BufRead for Script {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let s = self.get_mut();
        Poll::Ready(Ok(&s.replies[s.at..]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.at += n;
    }
}
impl Write for Script {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.buffered.extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let b = std::mem::take(&mut self.buffered);
        self.log.lock().unwrap().extend_from_slice(&b);
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.poll_flush(cx)
    }
}

pub fn run<F: Future<Output = ()>>(f: F) {
    async_std::task::block_on(async {
        async_std::future::timeout(Duration::from_secs(20), f).await.expect("it hangs");
    });
    std::process::exit(0);
}

pub fn client() -> SmtpClient {
    SmtpClient::new()
}
pub fn addr(s: &str) -> EmailAddress {
    s.parse().unwrap()
}
pub fn envelope(from: &str, to: &[&str]) -> Envelope {
    let from = if from.is_empty() { None } else { Some(addr(from)) };
    Envelope::new(from, to.iter().map(|s| addr(s)).collect()).unwrap()
}
pub fn email(from: &str, to: &[&str], msg: &str) -> SendableEmail {
    SendableEmail::new(envelope(from, to), msg.as_bytes().to_vec())
}
pub fn wrote(log: &Log) -> String {
    String::from_utf8_lossy(&log.lock().unwrap()).into_owned()
}
pub async fn connect(replies: &str) -> (SmtpTransport<Script>, Log) {
    let (s, log) = script(replies);
    (SmtpTransport::new(client(), s).await.unwrap(), log)
}
