//! A scripted SMTP server at the other end of an in-memory stream.
#![allow(dead_code)]
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt, BufStream, DuplexStream};

pub type Log = Arc<Mutex<Vec<String>>>;
pub type Stream = BufStream<DuplexStream>;
pub type Transport = SmtpTransport<Stream>;

/// Replies `f(unit, how many units came before it)` to every unit (a command line, a SASL line, a
/// message with its terminator). An empty reply: none. "!": the server closes the connection.
pub fn serve<F>(cap: usize, greeting: &str, mut f: F) -> (Stream, Log)
where
    F: FnMut(&str, usize) -> String + Send + 'static,
{
    let (client, mut server) = tokio::io::duplex(cap);
    let log: Log = Default::default();
    let units = log.clone();
    let greeting = greeting.to_string();
    tokio::spawn(async move {
        if server.write_all(greeting.as_bytes()).await.is_err() {
            return;
        }
        let mut data = false;
        let mut buf: Vec<u8> = vec![];
        let mut n = 0;
        loop {
            match server.read_u8().await {
                Ok(b) => buf.push(b),
                Err(_) => {
                    if !buf.is_empty() {
                        units.lock().unwrap().push(format!("PART {}", String::from_utf8_lossy(&buf)));
                    }
                    return;
                }
            }
            let complete = if data { buf == b".\r\n" || buf.ends_with(b"\r\n.\r\n") } else { buf.ends_with(b"\r\n") };
            if !complete {
                continue;
            }
            let unit = String::from_utf8_lossy(&buf).into_owned();
            buf.clear();
            units.lock().unwrap().push(unit.clone());
            let reply = f(&unit, n);
            n += 1;
            if reply == "!" {
                return;
            }
            data = !data && unit.starts_with("DATA") && (reply.starts_with('3') || reply.starts_with('2'));
            if server.write_all(reply.as_bytes()).await.is_err() {
                return;
            }
        }
    });
    (BufStream::new(client), log)
}

/// What an ordinary server answers.
pub fn usual(unit: &str, ehlo: &str) -> String {
    match unit.split(|c| c == ' ' || c == '\r').next().unwrap_or("") {
        "EHLO" => ehlo.to_string(),
        "DATA" => "354 go\r\n".into(),
        "QUIT" => "221 bye\r\n".into(),
        "STARTTLS" => "220 go\r\n".into(),
        "AUTH" => "235 in\r\n".into(),
        _ => "250 ok\r\n".into(),
    }
}

pub fn run<F: Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        tokio::time::timeout(Duration::from_secs(20), f).await.expect("it hangs");
    });
    std::process::exit(0);
}

/// Gives the server time to work.
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}

pub fn client() -> SmtpClient {
    SmtpClient::new()
}

pub fn addr(s: &str) -> EmailAddress {
    s.parse().unwrap()
}

pub fn email(from: &str, to: &[&str], msg: &str) -> SendableEmail {
    let from = if from.is_empty() { None } else { Some(addr(from)) };
    SendableEmail::new(Envelope::new(from, to.iter().map(|s| addr(s)).collect()).unwrap(), msg.as_bytes().to_vec())
}

pub fn units(log: &Log) -> Vec<String> {
    log.lock().unwrap().clone()
}
