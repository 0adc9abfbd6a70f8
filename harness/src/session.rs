//! Runs the operations of a scenario on the real SmtpTransport over the scripted stream.
use crate::mock::{lat, unlat, Mock, Mode, Shared, Source, World};
use async_smtp::authentication::Mechanism;
use async_smtp::error::Error;
use async_smtp::extension::ClientId;
use async_smtp::response::Response;
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};
use serde_json::{json, Value};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::MutexGuard;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// Remembers that somebody asked to be polled again.
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub fn response(r: &Response) -> Value {
    let lines: Vec<String> = r.message.iter().map(|l| lat(l.as_bytes())).collect();
    json!({"k": "ok", "code": r.code.to_string(), "lines": lines})
}

pub fn failure(e: &Error) -> Value {
    let (k, r) = match e {
        Error::Transient(r) => ("transient", Some(r)),
        Error::Permanent(r) => ("permanent", Some(r)),
        Error::ResponseParsing(_) => ("resp", None),
        Error::ChallengeParsing(_) => ("challenge", None),
        Error::Utf8Parsing(_) => ("utf8", None),
        Error::Client(_) => ("client", None),
        Error::Resolution => ("resolution", None),
        Error::Io(_) => ("io", None),
        Error::Parsing(_) => ("parsing", None),
        Error::Timeout(_) => ("timeout", None),
        Error::AddrParseError(_) => ("addr", None),
    };
    match r {
        Some(r) => {
            let mut v = response(r);
            v["k"] = json!(k);
            v
        }
        None => {
            let mut v = json!({"k": k, "code": "", "lines": []});
            if let Error::Io(io) = e {
                v["iok"] = json!(format!("{:?}", io.kind()));
                v["text"] = json!(lat(e.to_string().as_bytes()));
            }
            v
        }
    }
}

fn unit_ok() -> Value {
    json!({"k": "ok", "code": "", "lines": []})
}

pub enum Out<T> {
    Done(T),
    Cancelled,
    Panicked,
    Hung,
}

/// Pending once.
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

/// Runs scenarios side by side; `order` says whose turn it is.
pub fn run_all(scs: &[Value], worlds: &[Shared], order: &[usize]) {
    let mut futs: Vec<_> = scs.iter().zip(worlds).map(|(s, w)| Some(Box::pin(run(s, w)))).collect();
    let mut cx = Context::from_waker(Waker::noop());
    let mut turn = 0;
    while futs.iter().any(|f| f.is_some()) {
        let at = if order.is_empty() { turn } else { order[turn % order.len()] } % futs.len();
        turn += 1;
        // the one whose turn it is, or the next one that is not finished
        let n = (0..futs.len()).map(|d| (at + d) % futs.len()).find(|n| futs[*n].is_some()).unwrap_or(0);
        if let Some(f) = futs[n].as_mut() {
            if f.as_mut().poll(&mut cx).is_ready() {
                futs[n] = None;
            }
        }
    }
}

fn lock(w: &Shared) -> MutexGuard<'_, World> {
    w.lock().unwrap_or_else(|e| e.into_inner())
}

/// Polls to completion; `cancel` = n drops the future when it is pending for the n-th time.
async fn drive<F: Future>(fut: F, world: &Shared, cancel: Option<u64>) -> Out<F::Output> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut fut = Box::pin(fut);
    let mut pendings = 0;
    loop {
        lock(world).progress = false;
        match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
            Err(_) => {
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                return Out::Panicked;
            }
            Ok(Poll::Ready(x)) => return Out::Done(x),
            Ok(Poll::Pending) => {
                pendings += 1;
                let progress = lock(world).progress || flag.0.swap(false, Ordering::SeqCst);
                if cancel == Some(pendings) || (cancel.is_some() && !progress) {
                    return Out::Cancelled;
                }
                if !progress {
                    return Out::Hung;
                }
                // other connections may go on
                Yield(false).await;
            }
        }
    }
}

fn mechanism(v: &Value) -> Mechanism {
    match v.as_str().unwrap_or("") {
        "PLAIN" => Mechanism::Plain,
        "LOGIN" => Mechanism::Login,
        _ => Mechanism::Xoauth2,
    }
}

fn ustr(v: &Value) -> String {
    // scenario strings are byte strings; what the API wants as String must be UTF-8
    String::from_utf8(unlat(v.as_str().unwrap_or(""))).expect("utf-8 in scenario")
}

fn client(op: &Value) -> SmtpClient {
    let mut c = if op["default"].as_bool().unwrap_or(false) { SmtpClient::default() } else { SmtpClient::new() };
    // builder calls in the order the scenario gives
    let order = op["order"].as_str().unwrap_or("pugh").to_string();
    for ch in order.chars() {
        match ch {
            'p' => c = c.pipelining(op["pipe"].as_bool().unwrap_or(true)),
            // set to something else first: the last call counts
            'P' => c = c.pipelining(!op["pipe"].as_bool().unwrap_or(true)),
            'U' => c = c.smtp_utf8(!op["utf8"].as_bool().unwrap_or(false)),
            'H' => c = c.hello_name(ClientId::new("other.example".to_string())),
            'u' => c = c.smtp_utf8(op["utf8"].as_bool().unwrap_or(false)),
            'g' if !op["greet"].as_bool().unwrap_or(true) => c = c.without_greeting(),
            'h' => {
                let h = &op["helloid"];
                if let Some(d) = h["domain"].as_str() {
                    c = c.hello_name(ClientId::new(d.to_string()));
                } else if let Some(d) = h["v4"].as_str() {
                    c = c.hello_name(ClientId::Ipv4(d.parse().expect("v4")));
                } else if let Some(d) = h["v6"].as_str() {
                    c = c.hello_name(ClientId::Ipv6(d.parse().expect("v6")));
                }
            }
            _ => {}
        }
    }
    c
}

async fn run(sc: &Value, world: &Shared) {
    let mut transport: Option<SmtpTransport<Mock>> = None;
    let mut stream: Option<Mock> = Some(Mock::new(world));
    let empty = vec![];
    for op in sc["ops"].as_array().unwrap_or(&empty) {
        let name = op["op"].as_str().unwrap_or("");
        let cancel = op["cancel"].as_u64();
        let connecting = name == "connect";
        if connecting != transport.is_none() || (connecting && stream.is_none()) {
            continue;
        }
        let mut call = op.clone();
        call["e"] = json!("call");
        // TLC reads no nulls: the null sender is the empty string
        if call["from"].is_null() {
            call["from"] = json!("");
        }
        {
            let mut w = lock(world);
            w.emit(call);
            w.sent = 0;
            w.release_late();
        }
        let mut rest = Value::Null;
        let out: Out<Value> = match name {
            "connect" => {
                let c = client(op);
                match drive(SmtpTransport::new(c, stream.take().unwrap()), world, cancel).await {
                    Out::Done(Ok(t)) => {
                        transport = Some(t);
                        Out::Done(unit_ok())
                    }
                    Out::Done(Err(e)) => Out::Done(failure(&e)),
                    Out::Cancelled => Out::Cancelled,
                    Out::Panicked => Out::Panicked,
                    Out::Hung => Out::Hung,
                }
            }
            "starttls" => {
                let t = transport.take().unwrap();
                match drive(t.starttls(), world, cancel).await {
                    Out::Done(Ok(mut s)) => {
                        rest = json!(lat(&s.take_unread()));
                        stream = Some(s);
                        Out::Done(unit_ok())
                    }
                    Out::Done(Err(e)) => Out::Done(failure(&e)),
                    Out::Cancelled => Out::Cancelled,
                    Out::Panicked => Out::Panicked,
                    Out::Hung => Out::Hung,
                }
            }
            _ => {
                let t = transport.as_mut().unwrap();
                let fut = async {
                    match name {
                        "quit" => t.quit().await.map(|()| unit_ok()),
                        "auth" => {
                            let c = crate::pure::credentials(op);
                            t.auth(mechanism(&op["mech"]), &c).await.map(|r| response(&r))
                        }
                        "login" => {
                            let c = crate::pure::credentials(op);
                            let m: Vec<Mechanism> = op["mechs"].as_array().unwrap_or(&vec![]).iter().map(mechanism).collect();
                            t.try_login(&c, &m).await.map(|()| unit_ok())
                        }
                        "send" => {
                            let from = op["from"].as_str().map(|s| EmailAddress::new(s.to_string()).expect("sender address"));
                            let to: Vec<EmailAddress> = op["to"].as_array().unwrap_or(&vec![]).iter()
                                .map(|s| s.as_str().unwrap_or("").parse().expect("recipient address")).collect();
                            let env = Envelope::new(from, to).expect("envelope");
                            let msg: Vec<u8> = match op["msgb"].as_array() {
                                Some(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
                                None => unlat(op["msg"].as_str().unwrap_or("")),
                            };
                            let email = if op["src"].is_object() {
                                SendableEmail::new_with_reader(env, Box::new(Source::new(world, msg, &op["src"])))
                            } else {
                                SendableEmail::new(env, msg)
                            };
                            t.send(email).await.map(|r| response(&r))
                        }
                        _ => Ok(json!({"k": "badop", "code": "", "lines": []})),
                    }
                };
                match drive(fut, world, cancel).await {
                    Out::Done(Ok(v)) => Out::Done(v),
                    Out::Done(Err(e)) => Out::Done(failure(&e)),
                    Out::Cancelled => Out::Cancelled,
                    Out::Panicked => Out::Panicked,
                    Out::Hung => Out::Hung,
                }
            }
        };
        // operations that take no time at all end here too
        Yield(false).await;
        let mut w = lock(world);
        let ((part, plen), sent) = (w.part(), w.sent);
        let mode = match w.mode() {
            Mode::Cmd => "cmd",
            Mode::Sasl => "sasl",
            Mode::Data => "data",
        };
        let base = json!({"part": part, "plen": plen, "sent": sent, "mode": mode});
        let mut e = base;
        match out {
            Out::Done(v) => {
                e["e"] = json!("ret");
                e["res"] = v;
                if !rest.is_null() {
                    e["rest"] = rest;
                }
            }
            Out::Cancelled => e["e"] = json!("cancel"),
            Out::Panicked => e["e"] = json!("panic"),
            Out::Hung => {
                e["e"] = json!("hang");
                e["why"] = json!("stall");
            }
        }
        let stop = e["e"] == "panic" || e["e"] == "hang";
        w.emit(e);
        if stop {
            return;
        }
    }
}
