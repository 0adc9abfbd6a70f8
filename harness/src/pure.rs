//! Pure public functions: constructors, renderings and parsers.
use crate::mock::{lat, unlat, Shared, Source};
use crate::session::{failure, response};
use async_smtp::authentication::{Credentials, IntoCredentials, Mechanism, DEFAULT_ENCRYPTED_MECHANISMS, DEFAULT_UNENCRYPTED_MECHANISMS};
use async_smtp::commands::*;
use async_smtp::error::Error;
use async_smtp::extension::{ClientId, Extension, MailBodyParameter, MailParameter, RcptParameter, ServerInfo};
use async_smtp::response::{Category, Code, Detail, Response, Severity};
use async_smtp::util::XText;
use async_smtp::{EmailAddress, Envelope, Message, SendableEmail};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn cps(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn from_cps(v: &Value) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|x| char::from_u32(x.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}

fn feature(e: &Extension) -> String {
    match e {
        Extension::Authentication(m) => format!("AUTH {m:?}").to_uppercase(),
        Extension::Pipelining => "PIPELINING".into(),
        Extension::EightBitMime => "8BITMIME".into(),
        Extension::SmtpUtfEight => "SMTPUTF8".into(),
        Extension::StartTls => "STARTTLS".into(),
    }
}

fn ustr(v: &Value) -> String {
    String::from_utf8(unlat(v.as_str().unwrap_or(""))).expect("utf-8 in scenario")
}
fn u8lat(s: &str) -> String {
    lat(s.as_bytes())
}
/// The credentials of an operation, by way of the constructor or of a pair.
pub fn credentials(op: &Value) -> Credentials {
    let (user, pass) = (ustr(&op["user"]), ustr(&op["pass"]));
    if (user.len() + pass.len()) % 2 == 0 {
        (user.as_str(), pass).into_credentials()
    } else {
        Credentials::new(user, pass)
    }
}

fn mechanism(v: &Value) -> Mechanism {
    match v.as_str().unwrap_or("") {
        "PLAIN" => Mechanism::Plain,
        "LOGIN" => Mechanism::Login,
        _ => Mechanism::Xoauth2,
    }
}
fn code(s: &str) -> Code {
    let d: Vec<u32> = s.chars().filter_map(|c| c.to_digit(10)).collect();
    let sev = match d[0] {
        2 => Severity::PositiveCompletion,
        3 => Severity::PositiveIntermediate,
        4 => Severity::TransientNegativeCompletion,
        _ => Severity::PermanentNegativeCompletion,
    };
    let cat = match d[1] {
        0 => Category::Syntax,
        1 => Category::Information,
        2 => Category::Connections,
        3 => Category::Unspecified3,
        4 => Category::Unspecified4,
        _ => Category::MailSystem,
    };
    let det = match d[2] {
        0 => Detail::Zero,
        1 => Detail::One,
        2 => Detail::Two,
        3 => Detail::Three,
        4 => Detail::Four,
        5 => Detail::Five,
        6 => Detail::Six,
        7 => Detail::Seven,
        8 => Detail::Eight,
        _ => Detail::Nine,
    };
    Code::new(sev, cat, det)
}

fn command(op: &Value) -> String {
    let arg = ustr(&op["arg"]);
    let has = op["has"] == json!(true);
    let addr = |v: &Value| -> EmailAddress { v.as_str().unwrap_or("").parse().expect("address") };
    match op["c"].as_str().unwrap_or("") {
        "EHLO" => EhloCommand::new(ClientId::new(arg)).to_string(),
        "EHLO4" => EhloCommand::new(ClientId::Ipv4(arg.parse().expect("v4"))).to_string(),
        "EHLO6" => {
            let g: Vec<u16> = op["groups"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u16).collect()).unwrap_or_default();
            let a = std::net::Ipv6Addr::new(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]);
            EhloCommand::new(ClientId::Ipv6(a)).to_string()
        }
        "EHLODEF" => EhloCommand::new(ClientId::default()).to_string(),
        "STARTTLS" => StarttlsCommand.to_string(),
        "DATA" => DataCommand.to_string(),
        "QUIT" => QuitCommand.to_string(),
        "NOOP" => NoopCommand.to_string(),
        "RSET" => RsetCommand.to_string(),
        "HELP" => HelpCommand::new(if has { Some(arg) } else { None }).to_string(),
        "VRFY" => VrfyCommand::new(arg).to_string(),
        "EXPN" => ExpnCommand::new(arg).to_string(),
        "MAIL" | "RCPT" => {
            let empty = vec![];
            let ps = op["ps"].as_array().unwrap_or(&empty);
            let value = |p: &Value| if p["has"] == json!(true) { Some(ustr(&p["v"])) } else { None };
            if op["c"] == json!("MAIL") {
                let from = if op["from"] == json!("") { None } else { Some(addr(&op["from"])) };
                let ps = ps.iter().map(|p| match p["k"].as_str().unwrap_or("") {
                    "body7" => MailParameter::Body(MailBodyParameter::SevenBit),
                    "body8" => MailParameter::Body(MailBodyParameter::EightBitMime),
                    "utf8" => MailParameter::SmtpUtfEight,
                    "size" => MailParameter::Size(ustr(&p["v"]).parse().expect("usize")),
                    _ => MailParameter::Other { keyword: ustr(&p["w"]), value: value(p) },
                }).collect();
                MailCommand::new(from, ps).to_string()
            } else {
                let ps = ps.iter().map(|p| RcptParameter::Other { keyword: ustr(&p["w"]), value: value(p) }).collect();
                RcptCommand::new(addr(&op["from"]), ps).to_string()
            }
        }
        _ => "?".into(),
    }
}

/// What comparing, copying and hashing two values yields.
fn alike<T: PartialEq + Clone + std::fmt::Debug>(a: T, b: T, hashes: bool) -> Value {
    let (c, d) = (a.clone(), b.clone());
    let kept = c == a && a == c && d == b && format!("{c:?}") == format!("{a:?}");
    json!({"eq": a == b, "qe": b == a, "ne": a != b, "clone": kept, "self": a == a, "hash": hashes, "shown": "", "shownb": ""})
}
fn hashes<T: std::hash::Hash + Eq + Clone>(a: &T, b: &T) -> bool {
    use std::hash::{Hash, Hasher};
    let h = |x: &T| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    let set: std::collections::HashSet<T> = [a.clone(), b.clone()].into_iter().collect();
    (a != b || h(a) == h(b)) && h(a) == h(&a.clone()) && set.contains(a) && set.contains(b) && set.len() == if a == b { 1 } else { 2 }
}
fn with_shown(mut v: Value, a: String, b: String) -> Value {
    v["shown"] = json!(u8lat(&a));
    v["shownb"] = json!(u8lat(&b));
    v
}
fn mail_address(v: &Value) -> EmailAddress {
    v.as_str().unwrap_or("").parse().expect("address")
}
fn texts(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(ustr).collect()).unwrap_or_default()
}
fn client_id(v: &Value) -> ClientId {
    let arg = ustr(&v["v"]);
    match v["k"].as_str() {
        Some("v4") => ClientId::Ipv4(arg.parse().expect("v4")),
        Some("v6") => ClientId::Ipv6(arg.parse().expect("v6")),
        _ => ClientId::new(arg),
    }
}
fn extension(v: &str) -> Extension {
    match v {
        "PIPELINING" => Extension::Pipelining,
        "8BITMIME" => Extension::EightBitMime,
        "SMTPUTF8" => Extension::SmtpUtfEight,
        "STARTTLS" => Extension::StartTls,
        v => Extension::Authentication(mechanism(&json!(v.trim_start_matches("AUTH ")))),
    }
}
fn mail_parameter(p: &Value) -> MailParameter {
    match p["k"].as_str().unwrap_or("") {
        "body7" => MailParameter::Body(MailBodyParameter::SevenBit),
        "body8" => MailParameter::Body(MailBodyParameter::EightBitMime),
        "utf8" => MailParameter::SmtpUtfEight,
        "size" => MailParameter::Size(ustr(&p["v"]).parse().expect("usize")),
        _ => MailParameter::Other { keyword: ustr(&p["w"]), value: if p["has"] == json!(true) { Some(ustr(&p["v"])) } else { None } },
    }
}
fn rcpt_parameter(p: &Value) -> RcptParameter {
    RcptParameter::Other { keyword: ustr(&p["w"]), value: if p["has"] == json!(true) { Some(ustr(&p["v"])) } else { None } }
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().map(|a| a.iter().map(f).collect()).unwrap_or_default()
}
fn sender(v: &Value) -> Option<EmailAddress> {
    if v == &json!("") { None } else { Some(mail_address(v)) }
}

/// Two values of one type, made from `a` and `b`.
fn values(op: &Value) -> Value {
    let (a, b) = (&op["a"], &op["b"]);
    macro_rules! pair {
        ($f:expr) => {{
            let f = $f;
            (f(a), f(b))
        }};
    }
    match op["what"].as_str().unwrap_or("") {
        "addr" => {
            let (x, y) = pair!(|v: &Value| mail_address(&v["s"]));
            let (s, t) = (x.to_string(), y.to_string());
            with_shown(alike(x, y, true), s, t)
        }
        "env" => {
            let (x, y) = pair!(|v: &Value| Envelope::new(sender(&v["from"]), list(&v["to"], mail_address)).expect("envelope"));
            alike(x, y, true)
        }
        "cred" => {
            let (x, y) = pair!(|v: &Value| Credentials::new(ustr(&v["user"]), ustr(&v["pass"])));
            let h = hashes(&x, &y);
            alike(x, y, h)
        }
        "mech" => {
            let (x, y) = pair!(|v: &Value| mechanism(&v["s"]));
            let (h, s, t) = (hashes(&x, &y), x.to_string(), y.to_string());
            with_shown(alike(x, y, h), s, t)
        }
        "ext" => {
            let (x, y) = pair!(|v: &Value| extension(v["s"].as_str().unwrap_or("")));
            let (h, s, t) = (hashes(&x, &y), x.to_string(), y.to_string());
            with_shown(alike(x, y, h), s, t)
        }
        "id" => {
            let (x, y) = pair!(client_id);
            let (s, t) = (x.to_string(), y.to_string());
            with_shown(alike(x, y, true), s, t)
        }
        "info" => {
            let (x, y) = pair!(|v: &Value| ServerInfo { name: ustr(&v["name"]), features: list(&v["features"], |e| extension(e.as_str().unwrap_or(""))).into_iter().collect() });
            let start = |i: &ServerInfo| {
                let s = i.to_string();
                match s.strip_prefix(&format!("{} with ", i.name)) {
                    Some("no supported features") => "none".to_string(),
                    Some(rest) if i.features.iter().all(|e| rest.contains(&format!("{e:?}"))) => "all".to_string(),
                    _ => s,
                }
            };
            let (s, t) = (start(&x), start(&y));
            with_shown(alike(x, y, true), s, t)
        }
        "code" => {
            let (x, y) = pair!(|v: &Value| code(v["s"].as_str().unwrap_or("250")));
            let (s, t) = (x.to_string(), y.to_string());
            with_shown(alike(x, y, true), s, t)
        }
        "reply" => {
            let (x, y) = pair!(|v: &Value| Response::new(code(v["code"].as_str().unwrap_or("250")), texts(&v["lines"])));
            alike(x, y, true)
        }
        "mail" => {
            let (x, y) = pair!(|v: &Value| MailCommand::new(sender(&v["from"]), list(&v["ps"], mail_parameter)));
            alike(x, y, true)
        }
        "rcpt" => {
            let (x, y) = pair!(|v: &Value| RcptCommand::new(mail_address(&v["from"]), list(&v["ps"], rcpt_parameter)));
            alike(x, y, true)
        }
        "ehlo" => {
            let (x, y) = pair!(|v: &Value| EhloCommand::new(client_id(v)));
            alike(x, y, true)
        }
        "help" => {
            let (x, y) = pair!(|v: &Value| HelpCommand::new(if v["has"] == json!(true) { Some(ustr(&v["s"])) } else { None }));
            alike(x, y, true)
        }
        "vrfy" => {
            let (x, y) = pair!(|v: &Value| VrfyCommand::new(ustr(&v["s"])));
            alike(x, y, true)
        }
        "expn" => {
            let (x, y) = pair!(|v: &Value| ExpnCommand::new(ustr(&v["s"])));
            alike(x, y, true)
        }
        "auth" => {
            let (x, y) = pair!(|v: &Value| AuthCommand::new(mechanism(&v["mech"]), Credentials::new(ustr(&v["user"]), ustr(&v["pass"])), if v["has"] == json!(true) { Some(ustr(&v["chal"])) } else { None }).expect("command"));
            alike(x, y, true)
        }
        _ => json!({}),
    }
}

/// Reads a message in pieces of the given sizes.
fn read_message(m: Message, sizes: &[usize]) -> (Vec<u8>, &'static str, u64, bool) {
    use std::task::{Context, Poll, Waker};
    let mut m = Box::pin(m);
    let mut cx = Context::from_waker(Waker::noop());
    let (mut got, mut clean, mut pend) = (vec![], true, 0u64);
    let mut i = 0;
    let mut ends = 0;
    loop {
        let n = if sizes.is_empty() { 100 } else { sizes[i % sizes.len()] };
        i += 1;
        // the buffer already holds something that must stay
        let mut buf = vec![0xAAu8; n + 3];
        #[cfg(feature = "rt-tokio")]
        let r = {
            let mut b = tokio::io::ReadBuf::new(&mut buf);
            b.put_slice(b"abc");
            match tokio::io::AsyncRead::poll_read(m.as_mut(), &mut cx, &mut b) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => {
                    let f = b.filled().to_vec();
                    clean &= f.starts_with(b"abc");
                    Poll::Ready(Ok(f[3.min(f.len())..].to_vec()))
                }
            }
        };
        #[cfg(feature = "rt-async-std")]
        let r = {
            buf[..3].copy_from_slice(b"abc");
            match futures::io::AsyncRead::poll_read(m.as_mut(), &mut cx, &mut buf[3..]) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(k)) => {
                    clean &= k <= n && buf.starts_with(b"abc");
                    Poll::Ready(Ok(buf[3..3 + k.min(n)].to_vec()))
                }
            }
        };
        match r {
            Poll::Pending => {
                pend += 1;
                if pend > 100_000 {
                    return (got, "pending", pend, clean);
                }
            }
            Poll::Ready(Err(_)) => return (got, "err", pend, clean),
            Poll::Ready(Ok(v)) if v.is_empty() && n > 0 => {
                // the end stays the end
                ends += 1;
                if ends == 3 {
                    return (got, "end", pend, clean);
                }
            }
            Poll::Ready(Ok(v)) => {
                clean &= ends == 0 || v.is_empty();
                got.extend(v)
            }
        }
    }
}

fn one(op: &Value, world: &Shared) -> Value {
    match op["op"].as_str().unwrap_or("") {
        "addr" => {
            let s = from_cps(&op["s"]);
            let a = EmailAddress::new(s.clone());
            let b: Result<EmailAddress, _> = s.parse();
            let text = |r: &Result<EmailAddress, _>| -> Value {
                match r {
                    Ok(x) => cps(x.as_ref()),
                    Err(_) => json!([]),
                }
            };
            json!({"ok": a.is_ok(), "ok2": b.is_ok(), "s1": text(&a), "s2": a.as_ref().map(|x| cps(&x.to_string())).unwrap_or(json!([])),
                   "s3": b.as_ref().map(|x| cps(&x.to_string())).unwrap_or(json!([]))})
        }
        "env" => {
            let from = if op["null"] == json!(true) { None } else { Some(EmailAddress::new(op["from"].as_str().unwrap_or("").to_string()).unwrap()) };
            let to: Vec<EmailAddress> = op["to"].as_array().unwrap_or(&vec![]).iter().map(|s| s.as_str().unwrap().parse().unwrap()).collect();
            match Envelope::new(from, to) {
                Ok(e) => json!({"ok": true, "from": e.from().map(|x| x.to_string()).unwrap_or_default(), "null": e.from().is_none(),
                    "to": e.to().iter().map(|x| x.to_string()).collect::<Vec<_>>()}),
                Err(_) => json!({"ok": false, "from": "", "null": true, "to": []}),
            }
        }
        "addrs" => {
            // which code points lo..hi make an acceptable address of pre, the code point and post
            let (lo, hi) = (op["lo"].as_u64().unwrap_or(0) as u32, op["hi"].as_u64().unwrap_or(0) as u32);
            let (pre, post) = (from_cps(&op["pre"]), from_cps(&op["post"]));
            let mut accepted: Vec<u32> = vec![];
            let mut kept = true;
            for cp in lo..=hi {
                let c = match char::from_u32(cp) {
                    Some(c) => c,
                    None => continue,
                };
                let t = format!("{pre}{c}{post}");
                let a = EmailAddress::new(t.clone());
                let b = t.parse::<EmailAddress>();
                if let Ok(a) = &a {
                    accepted.push(cp);
                    kept &= a.as_ref() as &str == t && a.to_string() == t;
                }
                kept &= a.is_ok() == b.is_ok();
            }
            json!({"accepted": accepted, "kept": kept})
        }
        "lines" => {
            let from = op["from"].as_str().unwrap_or("");
            let from = if from.is_empty() { None } else { Some(EmailAddress::new(from.to_string()).unwrap()) };
            let rcpt: Vec<String> = op["to"].as_array().unwrap_or(&vec![]).iter()
                .map(|s| RcptCommand::new(s.as_str().unwrap_or("").parse().unwrap(), vec![]).to_string()).collect();
            json!({"mail": MailCommand::new(from, vec![]).to_string(), "rcpt": rcpt})
        }
        "xtexts" => {
            let (lo, hi) = (op["lo"].as_u64().unwrap_or(0) as u32, op["hi"].as_u64().unwrap_or(0) as u32);
            let (pre, post) = (from_cps(&op["pre"]), from_cps(&op["post"]));
            let x: Vec<Value> = (lo..=hi)
                .map(|cp| match char::from_u32(cp) {
                    Some(c) => cps(&XText(&format!("{pre}{c}{post}")).to_string()),
                    None => json!([]),
                })
                .collect();
            json!({"x": x})
        }
        "params" => {
            let list: Vec<(String, Option<String>)> = op["ps"].as_array().unwrap_or(&vec![]).iter()
                .map(|p| (from_cps(&p["k"]), if p["has"] == json!(true) { Some(from_cps(&p["v"])) } else { None })).collect();
            let mail = MailCommand::new(None, list.iter().cloned().map(|(keyword, value)| MailParameter::Other { keyword, value }).collect()).to_string();
            let rcpt = RcptCommand::new("r@x".parse().unwrap(), list.into_iter().map(|(keyword, value)| RcptParameter::Other { keyword, value }).collect()).to_string();
            json!({"mail": cps(&mail), "rcpt": cps(&rcpt)})
        }
        "xtext" => {
            let s = from_cps(&op["s"]);
            let mail = MailCommand::new(None, vec![MailParameter::Other { keyword: "K".into(), value: Some(s.clone()) }]).to_string();
            let rcpt = RcptCommand::new("r@x".parse().unwrap(), vec![RcptParameter::Other { keyword: "K".into(), value: Some(s.clone()) }]).to_string();
            json!({"x": cps(&XText(&s).to_string()), "mail": cps(&mail), "rcpt": cps(&rcpt)})
        }
        "caps" => {
            let lines: Vec<String> = op["lines"].as_array().unwrap_or(&vec![]).iter().map(|l| l.as_str().unwrap_or("").to_string()).collect();
            let r = Response::new(Code::new(Severity::PositiveCompletion, Category::MailSystem, Detail::Zero), lines);
            match ServerInfo::from_response(&r) {
                Ok(i) => {
                    let mut f: Vec<String> = i.features.iter().map(feature).collect();
                    f.sort();
                    let all = [Extension::Pipelining, Extension::EightBitMime, Extension::SmtpUtfEight, Extension::StartTls,
                        Extension::Authentication(Mechanism::Plain), Extension::Authentication(Mechanism::Login), Extension::Authentication(Mechanism::Xoauth2)];
                    let yes: Vec<String> = all.iter().filter(|e| i.supports_feature(**e)).map(feature).collect();
                    let mechs: Vec<String> = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2].iter().filter(|m| i.supports_auth_mechanism(**m)).map(|m| format!("AUTH {m:?}").to_uppercase()).collect();
                    json!({"ok": true, "name": i.name, "features": f, "yes": yes, "mechs": mechs})
                }
                Err(_) => json!({"ok": false, "name": "", "features": [], "yes": [], "mechs": []}),
            }
        }
        "parse" => {
            let raw = String::from_utf8(unlat(op["raw"].as_str().unwrap_or(""))).expect("utf-8");
            match raw.parse::<Response>() {
                Ok(r) => {
                    let mut v = response(&r);
                    v["positive"] = json!(r.is_positive());
                    v["same"] = json!(r.has_code(op["ncode"].as_u64().unwrap_or(0) as u16));
                    v["word"] = json!(r.first_word().map(|w| lat(w.as_bytes())).unwrap_or_default());
                    v["line"] = json!(r.first_line().map(|w| lat(w.as_bytes())).unwrap_or_default());
                    v
                }
                Err(e) => {
                    let mut v = failure(&e);
                    v["positive"] = json!(false);
                    v["same"] = json!(false);
                    v["word"] = json!("");
                    v["line"] = json!("");
                    v
                }
            }
        }
        "cmd" => json!({"s": u8lat(&command(op))}),
        "defaults" => {
            let names = |l: &[Mechanism]| l.iter().map(|m| m.to_string()).collect::<Vec<_>>();
            let a: Credentials = ("u", "p").into_credentials();
            let b = Credentials::new("u".into(), "p".into());
            json!({"enc": names(DEFAULT_ENCRYPTED_MECHANISMS), "unenc": names(DEFAULT_UNENCRYPTED_MECHANISMS), "same": a == b && b.clone().into_credentials() == a})
        }
        "authcmd" => {
            let m = mechanism(&op["mech"]);
            let c = credentials(op);
            let chal = if op["has"] == json!(true) { Some(ustr(&op["chal"])) } else { None };
            let r = m.response(&c, chal.as_deref());
            let a = AuthCommand::new(m, c, chal);
            let text = |r: Result<String, Error>| match r {
                Ok(s) => json!({"ok": true, "s": u8lat(&s)}),
                Err(_) => json!({"ok": false, "s": ""}),
            };
            let respb: Vec<u8> = r.as_ref().map(|s| s.as_bytes().to_vec()).unwrap_or_default();
            json!({"resp": text(r), "respb": respb, "cmd": text(a.map(|a| a.to_string())), "initial": m.supports_initial_response(), "name": m.to_string()})
        }
        "authresp" => {
            let m = mechanism(&op["mech"]);
            let c = credentials(op);
            let lines: Vec<String> = op["lines"].as_array().unwrap_or(&vec![]).iter().map(ustr).collect();
            let r = Response::new(code(op["code"].as_str().unwrap_or("250")), lines);
            match AuthCommand::new_from_response(m, c, &r) {
                Ok(a) => json!({"ok": true, "s": u8lat(&a.to_string()), "k": ""}),
                Err(e) => json!({"ok": false, "s": "", "k": failure(&e)["k"]}),
            }
        }
        "error" => {
            let lines: Vec<String> = op["lines"].as_array().unwrap_or(&vec![]).iter().map(ustr).collect();
            let r = Response::new(code(op["code"].as_str().unwrap_or("250")), lines);
            let num: u16 = op["code"].as_str().unwrap_or("").parse().unwrap_or(0);
            let same: Vec<u16> = (0..=u16::MAX).filter(|n| r.has_code(*n)).collect();
            let (shown, positive) = (r.code.to_string(), r.is_positive());
            let c = r.code;
            let parts = format!("{}{}{}", c.severity, c.category, c.detail);
            let (first, word) = (r.first_line().map(u8lat), r.first_word().map(u8lat));
            let e = Error::from(r);
            let mut v = failure(&e);
            v["shown"] = json!(u8lat(&e.to_string()));
            v["num"] = json!(shown);
            v["parts"] = json!(parts);
            v["positive"] = json!(positive);
            v["only"] = json!(same == vec![num]);
            v["first"] = json!(first.clone().unwrap_or_default());
            v["hasfirst"] = json!(first.is_some());
            v["word"] = json!(word.clone().unwrap_or_default());
            v["hasword"] = json!(word.is_some());
            v
        }
        "email" => {
            let from = if op["null"] == json!(true) { None } else { Some(EmailAddress::new(op["from"].as_str().unwrap_or("").to_string()).unwrap()) };
            let to: Vec<EmailAddress> = op["to"].as_array().unwrap_or(&vec![]).iter().map(|s| s.as_str().unwrap().parse().unwrap()).collect();
            let env = Envelope::new(from, to).expect("envelope");
            let data: Vec<u8> = op["b"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default();
            let email = if op["reader"] == json!(true) {
                SendableEmail::new_with_reader(env, Box::new(Source::new(world, data, &op["src"])))
            } else {
                SendableEmail::new(env, data)
            };
            let e = email.envelope();
            let (from, nofrom, to) = (e.from().map(|x| x.to_string()).unwrap_or_default(), e.from().is_none(), e.to().iter().map(|x| x.to_string()).collect::<Vec<_>>());
            let sizes: Vec<usize> = op["sizes"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(1) as usize).collect()).unwrap_or_default();
            let (b, end, pend, clean) = read_message(email.message(), &sizes);
            json!({"b": b, "end": end, "pend": pend, "clean": clean, "from": from, "nofrom": nofrom, "to": to})
        }
        "failure" => {
            let text = ustr(&op["text"]);
            let fixed: &'static str = Box::leak(text.clone().into_boxed_str());
            let (own, e) = match op["what"].as_str().unwrap_or("") {
                "io" => {
                    let e = crate::mock::io_err(op["kind"].as_str().unwrap_or(""), &text);
                    (e.to_string(), Error::from(e))
                }
                "client" => (text, Error::from(fixed)),
                "resp" => (text, Error::ResponseParsing(fixed)),
                "utf8" => {
                    let e = String::from_utf8(op["b"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()).expect_err("no UTF-8");
                    (e.to_string(), Error::from(e))
                }
                "addr" => {
                    let e = text.parse::<std::net::IpAddr>().expect_err("no address");
                    (e.to_string(), Error::from(e))
                }
                _ => (String::new(), Error::Resolution),
            };
            let mut v = failure(&e);
            v["own"] = json!(u8lat(&own));
            v["shown"] = json!(u8lat(&e.to_string()));
            v["want"] = match op["what"].as_str() {
                Some("io") => json!(format!("{:?}", crate::mock::io_err(op["kind"].as_str().unwrap_or(""), "").kind())),
                _ => json!(""),
            };
            v
        }
        "values" => values(op),
        _ => json!({"k": "badop"}),
    }
}

pub fn run(sc: &Value, world: &Shared) {
    let empty = vec![];
    for op in sc["pure"].as_array().unwrap_or(&empty) {
        let r = catch_unwind(AssertUnwindSafe(|| one(op, world)));
        let mut w = world.lock().unwrap_or_else(|e| e.into_inner());
        match r {
            Ok(v) => w.emit(json!({"e": "pure", "op": op, "out": v})),
            Err(_) => w.emit(json!({"e": "panic", "op": op})),
        }
    }
}
