//! A scripted stream and server.  The server implements only what is needed to know, by RFC 5321,
//! where one unit sent by the client ends (a command line, a SASL line, a message) and which
//! scripted reply answers it.
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub type Shared = Arc<Mutex<World>>;

#[derive(Clone, Debug)]
pub struct Reply {
    pub raw: Vec<u8>,
    /// What the server sends behind the reply without being asked.
    pub extra: Vec<u8>,
    pub info: Value,
    pub kind: String,
    pub late: bool,
    pub positive: bool,
    pub challenge: bool,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Mode {
    Cmd,
    Sasl,
    Data,
}

#[derive(Debug)]
pub struct Fault {
    kind: String,
    at: usize,
    sticky: bool,
    err: String,
    count: usize,
    fired: bool,
}

#[derive(Debug)]
pub struct World {
    pub ev: Vec<Value>,
    bytes_mode: bool,
    direct: bool,
    wchunks: Vec<usize>,
    wi: usize,
    rchunks: Vec<usize>,
    ri: usize,
    pend: Vec<u8>,
    pi: usize,
    win_c2s: usize,
    win_s2c: usize,
    wbuf: Vec<u8>,
    wire: VecDeque<u8>,
    sbuf: Vec<u8>,
    mode: Mode,
    queues: HashMap<String, VecDeque<Reply>>,
    defaults: HashMap<String, Reply>,
    outq: VecDeque<u8>,
    late: Vec<(Reply, usize)>,
    s2c: VecDeque<u8>,
    ends: VecDeque<(u64, usize)>,
    produced: u64,
    consumed: u64,
    nreply: usize,
    closed: bool,
    stalled: bool,
    fault: Option<Fault>,
    pub progress: bool,
    pub sent: u64,
    io_ops: u64,
}

/// Bytes to a string with one char (U+0000..U+00FF) per byte.
pub fn lat(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}
/// The inverse of `lat`.
pub fn unlat(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

fn usizes(v: &Value) -> Vec<usize> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect())
        .unwrap_or_default()
}

fn mk_reply(v: &Value) -> Reply {
    let kind = v["k"].as_str().unwrap_or("wf").to_string();
    let code = v["code"].as_str().unwrap_or("").to_string();
    let lines: Vec<String> = v["lines"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default();
    let raw = if let Some(r) = v["raw"].as_str() {
        unlat(r)
    } else if kind == "wf" {
        let mut r = Vec::new();
        for (i, l) in lines.iter().enumerate() {
            r.extend_from_slice(code.as_bytes());
            r.push(if i + 1 == lines.len() { b' ' } else { b'-' });
            r.extend_from_slice(&unlat(l));
            r.extend_from_slice(b"\r\n");
        }
        r
    } else {
        vec![]
    };
    let positive = kind == "wf" && (code.starts_with('2') || code.starts_with('3'));
    let challenge = kind == "wf" && code == "334";
    let chal = v.get("chal").cloned().unwrap_or(json!(""));
    Reply {
        info: json!({"k": kind, "code": code, "lines": lines, "chal": chal, "raw": lat(&raw),
            "extra": v["extra"].as_str().unwrap_or("")}),
        extra: unlat(v["extra"].as_str().unwrap_or("")),
        raw,
        kind,
        late: v["late"].as_bool().unwrap_or(false),
        positive,
        challenge,
    }
}

pub fn new_world(sc: &Value) -> Shared {
    let io = &sc["io"];
    let mut queues = HashMap::new();
    let mut defaults = HashMap::new();
    for k in [
        "greeting", "ehlo", "mail", "rcpt", "data", "content", "auth", "sasl", "abort", "rset",
        "quit", "starttls", "known", "other",
    ] {
        let q: VecDeque<Reply> = sc["server"][k]
            .as_array()
            .map(|a| a.iter().map(mk_reply).collect())
            .unwrap_or_default();
        queues.insert(k.to_string(), q);
        let d = match k {
            "greeting" => ("220", "mx ready"),
            "ehlo" => ("250", "mx"),
            "data" => ("354", "go ahead"),
            "auth" | "sasl" => ("235", "welcome"),
            "abort" => ("501", "cancelled"),
            "quit" => ("221", "bye"),
            "starttls" => ("220", "go tls"),
            "other" => ("500", "unknown command"),
            _ => ("250", "fine"),
        };
        let mut dv = json!({"code": d.0, "lines": [d.1]});
        if let Some(x) = sc["default"].get(k) {
            dv = x.clone();
        }
        defaults.insert(k.to_string(), mk_reply(&dv));
    }
    let fault = io["fault"].as_object().map(|f| Fault {
        kind: f["kind"].as_str().unwrap_or("").to_string(),
        at: f["at"].as_u64().unwrap_or(1) as usize,
        sticky: f.get("sticky").and_then(|x| x.as_bool()).unwrap_or(true),
        err: f.get("err").and_then(|x| x.as_str()).unwrap_or("reset").to_string(),
        count: 0,
        fired: false,
    });
    let mut w = World {
        ev: vec![],
        bytes_mode: sc["bytes"].as_bool().unwrap_or(false),
        direct: io["direct"].as_bool().unwrap_or(false),
        wchunks: usizes(&io["wchunks"]),
        wi: 0,
        rchunks: usizes(&io["rchunks"]),
        ri: 0,
        pend: usizes(&io["pend"]).into_iter().map(|x| x as u8).collect(),
        pi: 0,
        win_c2s: io["win_c2s"].as_u64().unwrap_or(0) as usize,
        win_s2c: io["win_s2c"].as_u64().unwrap_or(0) as usize,
        wbuf: vec![],
        wire: VecDeque::new(),
        sbuf: vec![],
        mode: Mode::Cmd,
        queues,
        defaults,
        outq: VecDeque::new(),
        late: vec![],
        s2c: VecDeque::new(),
        ends: VecDeque::new(),
        produced: 0,
        consumed: 0,
        nreply: 0,
        closed: false,
        stalled: false,
        fault,
        progress: false,
        sent: 0,
        io_ops: 0,
    };
    if sc["greets"].as_bool().unwrap_or(true) && !sc["pure"].is_array() {
        w.unit("greet", "greeting", vec![]);
    }
    Arc::new(Mutex::new(w))
}

pub fn io_err(kind: &str, msg: &str) -> io::Error {
    let k = match kind {
        "timeout" => io::ErrorKind::TimedOut,
        "aborted" => io::ErrorKind::ConnectionAborted,
        "pipe" => io::ErrorKind::BrokenPipe,
        "other" => io::ErrorKind::Other,
        "eofkind" => io::ErrorKind::UnexpectedEof,
        "invalid" => io::ErrorKind::InvalidData,
        "notconn" => io::ErrorKind::NotConnected,
        "wouldblock" => io::ErrorKind::WouldBlock,
        "refused" => io::ErrorKind::ConnectionRefused,
        "denied" => io::ErrorKind::PermissionDenied,
        "writezero" => io::ErrorKind::WriteZero,
        "input" => io::ErrorKind::InvalidInput,
        "notfound" => io::ErrorKind::NotFound,
        "unsupported" => io::ErrorKind::Unsupported,
        "memory" => io::ErrorKind::OutOfMemory,
        "exists" => io::ErrorKind::AlreadyExists,
        "inuse" => io::ErrorKind::AddrInUse,
        "unreachable" => io::ErrorKind::HostUnreachable,
        "netdown" => io::ErrorKind::NetworkDown,
        _ => io::ErrorKind::ConnectionReset,
    };
    io::Error::new(k, msg)
}

impl World {
    pub fn emit(&mut self, v: Value) {
        self.ev.push(v);
    }

    /// One unit (greeting, line, message) was processed by the server: record it and its reply.
    fn unit(&mut self, k: &str, queue: &str, text: Vec<u8>) {
        let r = match self.queues.get_mut(queue).and_then(|q| q.pop_front()) {
            Some(r) => r,
            None => self.defaults[queue].clone(),
        };
        self.nreply += 1;
        let n = self.nreply;
        let mut e = json!({"e": "rx", "k": k, "n": n, "r": r.info});
        if self.bytes_mode && k == "content" {
            e["b"] = json!(text);
            e["s"] = json!("");
        } else {
            e["s"] = json!(lat(&text));
        }
        if r.late {
            e["late"] = json!(true);
        }
        self.emit(e);
        self.mode = match k {
            "line" if text.starts_with(b"DATA") && r.positive => Mode::Data,
            "line" if text.starts_with(b"AUTH") && r.challenge => Mode::Sasl,
            "sasl" if r.challenge => Mode::Sasl,
            _ => Mode::Cmd,
        };
        match r.kind.as_str() {
            "eof" => {
                // what is scripted before the end of the stream is still delivered
                self.produced += r.raw.len() as u64;
                self.outq.extend(r.raw.iter());
                self.closed = true
            }
            "silent" => self.stalled = true,
            _ if r.late || !self.late.is_empty() => self.late.push((r, n)),
            _ => self.push_reply(&r, n),
        }
        self.pump_out();
    }

    fn push_reply(&mut self, r: &Reply, n: usize) {
        self.produced += r.raw.len() as u64;
        self.outq.extend(r.raw.iter());
        if !r.raw.is_empty() {
            self.ends.push_back((self.produced, n));
        }
        self.produced += r.extra.len() as u64;
        self.outq.extend(r.extra.iter());
    }

    /// Replies held back until the running operation is over arrive now.
    pub fn release_late(&mut self) {
        for (r, n) in std::mem::take(&mut self.late) {
            self.push_reply(&r, n);
        }
        self.pump_out();
    }

    fn pump_out(&mut self) {
        while !self.outq.is_empty() && (self.win_s2c == 0 || self.s2c.len() < self.win_s2c) {
            let b = self.outq.pop_front().unwrap();
            self.s2c.push_back(b);
        }
    }

    /// Lets the server work: it reads as long as it is not stuck writing replies.
    fn server(&mut self) {
        loop {
            self.pump_out();
            if self.closed || self.stalled || !self.outq.is_empty() {
                return;
            }
            let b = match self.wire.pop_front() {
                Some(b) => b,
                None => return,
            };
            self.sbuf.push(b);
            if b != b'\n' || !self.sbuf.ends_with(b"\r\n") {
                continue;
            }
            match self.mode {
                Mode::Data => {
                    if self.sbuf == b".\r\n" || self.sbuf.ends_with(b"\r\n.\r\n") {
                        let t = std::mem::take(&mut self.sbuf);
                        self.unit("content", "content", t);
                    }
                }
                Mode::Sasl => {
                    let t = std::mem::take(&mut self.sbuf);
                    // "*" cancels the exchange (RFC 4954)
                    let q = if t == b"*\r\n" { "abort" } else { "sasl" };
                    self.unit("sasl", q, t);
                }
                Mode::Cmd => {
                    let t = std::mem::take(&mut self.sbuf);
                    let q = match t.iter().position(|c| *c == b' ' || *c == b'\r') {
                        Some(p) => match &t[..p] {
                            b"EHLO" => "ehlo",
                            b"MAIL" => "mail",
                            b"RCPT" => "rcpt",
                            b"DATA" => "data",
                            b"AUTH" => "auth",
                            b"RSET" => "rset",
                            b"QUIT" => "quit",
                            b"STARTTLS" => "starttls",
                            b"NOOP" | b"HELO" | b"HELP" | b"VRFY" | b"EXPN" => "known",
                            _ => "other",
                        },
                        None => "other",
                    };
                    self.unit("line", q, t);
                }
            }
        }
    }

    /// What the client has handed over that is not a complete unit.
    /// Its beginning, and how long it is.
    pub fn part(&self) -> (String, usize) {
        let mut v: Vec<u8> = self.sbuf.clone();
        v.extend(self.wire.iter());
        v.extend(self.wbuf.iter());
        let n = v.len();
        v.truncate(400);
        (lat(&v), n)
    }

    fn take_unread(&mut self) -> Vec<u8> {
        let v: Vec<u8> = self.s2c.iter().chain(self.outq.iter()).copied().collect();
        self.consumed += v.len() as u64;
        self.ends.retain(|(end, _)| *end > self.produced);
        self.s2c.clear();
        self.outq.clear();
        v
    }

    fn tick(&mut self) {
        self.io_ops += 1;
        if self.io_ops > 400_000 {
            self.emit(json!({"e": "hang", "why": "io spin"}));
            panic!("io spin");
        }
    }

    fn scheduled_pending(&mut self, cx: &mut Context<'_>) -> bool {
        self.tick();
        if self.pend.is_empty() {
            return false;
        }
        let p = self.pend[self.pi % self.pend.len()];
        self.pi += 1;
        if p != 0 {
            self.progress = true;
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }

    fn faulty(&mut self, kind: &str) -> Option<io::Result<()>> {
        let f = self.fault.as_mut()?;
        if f.kind != kind && !(kind == "write" && f.kind == "wzero") {
            return None;
        }
        f.count += 1;
        if f.count == f.at || (f.sticky && f.fired) {
            let first = !f.fired;
            f.fired = true;
            let r = if f.kind == "wzero" { Ok(()) } else { Err(io_err(&f.err, &format!("injected {}", f.err))) };
            let k = f.kind.clone();
            let (err, msg) = match &r {
                Ok(()) => ("WriteZero".to_string(), String::new()),
                Err(e) => (format!("{:?}", e.kind()), e.to_string()),
            };
            if first {
                self.emit(json!({"e": "fault", "k": k, "err": err, "msg": msg}));
            }
            return Some(r);
        }
        None
    }

    fn eof_fault(&mut self) -> bool {
        let consumed = self.consumed as usize;
        if let Some(f) = self.fault.as_mut() {
            if f.kind == "eof" && consumed >= f.at {
                if !f.fired {
                    f.fired = true;
                    self.emit(json!({"e": "fault", "k": "eof"}));
                }
                return true;
            }
        }
        false
    }

    fn poll_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.scheduled_pending(cx) {
            return Poll::Pending;
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        match self.faulty("write") {
            Some(Ok(())) => return Poll::Ready(Ok(0)),
            Some(Err(e)) => return Poll::Ready(Err(e)),
            None => {}
        }
        let mut n = buf.len();
        if !self.wchunks.is_empty() {
            n = n.min(self.wchunks[self.wi % self.wchunks.len()].max(1));
            self.wi += 1;
        }
        if self.direct {
            self.server();
            if self.win_c2s > 0 && !self.closed {
                n = n.min(self.win_c2s.saturating_sub(self.wire.len()));
                if n == 0 {
                    return Poll::Pending;
                }
            }
            self.wire.extend(&buf[..n]);
            self.sent += n as u64;
            self.server();
        } else {
            self.wbuf.extend_from_slice(&buf[..n]);
            self.sent += n as u64;
        }
        // the limit is on operations without any progress
        self.io_ops = 0;
        Poll::Ready(Ok(n))
    }

    fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.scheduled_pending(cx) {
            return Poll::Pending;
        }
        if let Some(Err(e)) = self.faulty("flush") {
            return Poll::Ready(Err(e));
        }
        while !self.wbuf.is_empty() {
            self.server();
            let mut n = self.wbuf.len();
            if self.win_c2s > 0 && !self.closed {
                n = n.min(self.win_c2s.saturating_sub(self.wire.len()));
                if n == 0 {
                    return Poll::Pending;
                }
            }
            let head: Vec<u8> = self.wbuf.drain(..n).collect();
            self.wire.extend(head);
        }
        self.server();
        Poll::Ready(Ok(()))
    }

    /// Bytes the client may see now; None: nothing yet; Some(empty): end of stream.
    fn poll_read_some(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
        if self.scheduled_pending(cx) {
            return Poll::Pending;
        }
        if let Some(Err(e)) = self.faulty("read") {
            return Poll::Ready(Err(e));
        }
        if self.eof_fault() {
            return Poll::Ready(Ok(vec![]));
        }
        self.server();
        if self.s2c.is_empty() {
            if self.closed {
                if !self.ev.iter().any(|e| e["e"] == "fault" && e["k"] == "eof") {
                    self.emit(json!({"e": "fault", "k": "eof"}));
                }
                return Poll::Ready(Ok(vec![]));
            }
            return Poll::Pending;
        }
        let mut n = self.s2c.len();
        if !self.rchunks.is_empty() {
            n = n.min(self.rchunks[self.ri % self.rchunks.len()].max(1));
            self.ri += 1;
        }
        if let Some(f) = self.fault.as_ref() {
            if f.kind == "eof" {
                n = n.min(f.at - self.consumed as usize);
            }
        }
        Poll::Ready(Ok(self.s2c.iter().take(n).copied().collect()))
    }

    fn consume(&mut self, n: usize) {
        for _ in 0..n {
            self.s2c.pop_front();
        }
        self.consumed += n as u64;
        if n > 0 {
            self.io_ops = 0;
        }
        while let Some((end, no)) = self.ends.front().copied() {
            if end > self.consumed {
                break;
            }
            self.ends.pop_front();
            let p = self.sbuf.len() + self.wire.len() + self.wbuf.len();
            self.emit(json!({"e": "got", "n": no, "p": p}));
        }
        self.server();
    }

    pub fn mode(&self) -> Mode {
        self.mode
    }
}

pub struct Mock {
    pub world: Shared,
    rbuf: Vec<u8>,
}

impl Mock {
    pub fn new(world: &Shared) -> Self {
        Mock { world: world.clone(), rbuf: vec![] }
    }
    /// The stream is handed over to someone else, who takes what is still unread.
    pub fn take_unread(&mut self) -> Vec<u8> {
        self.rbuf.clear();
        self.w().take_unread()
    }
    fn w(&self) -> std::sync::MutexGuard<'_, World> {
        self.world.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn do_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.w().poll_write(cx, buf)
    }
    fn do_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.w().poll_flush(cx)
    }
    fn do_fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.rbuf.is_empty() {
            let r = self.w().poll_read_some(cx);
            match r {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(v)) => self.rbuf = v,
            }
        }
        Poll::Ready(Ok(()))
    }
    fn do_consume(&mut self, n: usize) {
        self.rbuf.drain(..n);
        self.w().consume(n);
    }
    fn do_read(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        match self.do_fill(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => {
                let n = self.rbuf.len().min(max);
                let v = self.rbuf[..n].to_vec();
                self.do_consume(n);
                Poll::Ready(Ok(v))
            }
        }
    }
}

#[cfg(feature = "rt-tokio")]
mod imp {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    impl AsyncRead for Mock {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let me = self.get_mut();
            me.do_read(cx, buf.remaining()).map(|r| r.map(|v| buf.put_slice(&v)))
        }
    }
    impl AsyncBufRead for Mock {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            match me.do_fill(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => Poll::Ready(Ok(&me.rbuf)),
            }
        }
        fn consume(self: Pin<&mut Self>, n: usize) {
            self.get_mut().do_consume(n)
        }
    }
    impl AsyncWrite for Mock {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            self.get_mut().do_write(cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.get_mut().do_flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.get_mut().do_flush(cx)
        }
    }
}

#[cfg(feature = "rt-async-std")]
mod imp {
    use super::*;
    use futures::io::{AsyncBufRead, AsyncRead, AsyncWrite};
    impl AsyncRead for Mock {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let me = self.get_mut();
            me.do_read(cx, buf.len()).map(|r| {
                r.map(|v| {
                    buf[..v.len()].copy_from_slice(&v);
                    v.len()
                })
            })
        }
    }
    impl AsyncBufRead for Mock {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            match me.do_fill(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => Poll::Ready(Ok(&me.rbuf)),
            }
        }
        fn consume(self: Pin<&mut Self>, n: usize) {
            self.get_mut().do_consume(n)
        }
    }
    impl AsyncWrite for Mock {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            self.get_mut().do_write(cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.get_mut().do_flush(cx)
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.get_mut().do_flush(cx)
        }
    }
}

/// A message source that yields its data in scripted pieces, dawdles and may fail.
pub struct Source {
    pub world: Shared,
    pub data: Vec<u8>,
    pub pos: usize,
    pub chunks: Vec<usize>,
    pub ci: usize,
    pub pend: Vec<usize>,
    pub pi: usize,
    pub err_at: Option<usize>,
    pub err: String,
    pub err_once: bool,
    pub _pin: std::marker::PhantomPinned,
}

impl Source {
    pub fn new(world: &Shared, data: Vec<u8>, v: &Value) -> Self {
        Source {
            world: world.clone(),
            data,
            pos: 0,
            chunks: usizes(&v["chunks"]),
            ci: 0,
            pend: usizes(&v["pend"]),
            pi: 0,
            err_at: v["err_at"].as_u64().map(|x| x as usize),
            err: v["err"].as_str().unwrap_or("other").to_string(),
            err_once: v["err_once"].as_bool().unwrap_or(false),
            _pin: std::marker::PhantomPinned,
        }
    }
    fn step(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        let mut w = self.world.lock().unwrap_or_else(|e| e.into_inner());
        w.tick();
        if !self.pend.is_empty() {
            let p = self.pend[self.pi % self.pend.len()];
            self.pi += 1;
            if p != 0 {
                w.progress = true;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        if let Some(e) = self.err_at {
            if self.pos >= e {
                let err = io_err(&self.err, &format!("source {}", self.err));
                w.emit(json!({"e": "fault", "k": "src", "err": format!("{:?}", err.kind()), "msg": err.to_string()}));
                if self.err_once {
                    self.err_at = None;
                }
                return Poll::Ready(Err(err));
            }
        }
        let mut n = max.min(self.data.len() - self.pos);
        if let Some(e) = self.err_at {
            n = n.min(e - self.pos);
        }
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.ci % self.chunks.len()].max(1));
            self.ci += 1;
        }
        let v = self.data[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Poll::Ready(Ok(v))
    }
}

#[cfg(feature = "rt-tokio")]
impl tokio::io::AsyncRead for Source {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        // Nothing is moved out of the pinned value.
        let me = unsafe { self.get_unchecked_mut() };
        me.step(cx, buf.remaining()).map(|r| r.map(|v| buf.put_slice(&v)))
    }
}
#[cfg(feature = "rt-async-std")]
impl futures::io::AsyncRead for Source {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        // Nothing is moved out of the pinned value.
        let me = unsafe { self.get_unchecked_mut() };
        me.step(cx, buf.len()).map(|r| {
            r.map(|v| {
                buf[..v.len()].copy_from_slice(&v);
                v.len()
            })
        })
    }
}
