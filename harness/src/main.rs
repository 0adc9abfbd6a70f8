//! Executes scenarios (JSON lines on stdin or a file) against the real async-smtp crate and records
//! what is observable as a trace (JSON lines).  It judges nothing: the TLA+ trace specifications do.
mod mock;
mod pure;
mod session;

use serde_json::Value;
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Formats everything the library logs, as a real logger would, and forgets it.
struct Formatting;
impl log::Log for Formatting {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(format!("{} {} {}", record.level(), record.target(), record.args()));
    }
    fn flush(&self) {}
}

/// Logging is on or off as the scenario says; otherwise every other scenario, LOGGING=odd the others.
fn logging(sc: &Value) -> bool {
    let text = sc["id"].to_string();
    let even = text.bytes().map(u32::from).sum::<u32>() % 2 == 0;
    match std::env::var("LOGGING").as_deref() {
        Ok("on") => true,
        Ok("off") => false,
        Ok("odd") => sc["log"].as_bool().unwrap_or(!even),
        _ => sc["log"].as_bool().unwrap_or(even),
    }
}

fn main() {
    log::set_logger(&Formatting).expect("logger");
    if std::env::var("HARNESS_BT").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 3 {
        eprintln!("usage: smtp-harness SCENARIOS.ndjson TRACES.ndjson");
        std::process::exit(2);
    }
    let input: Box<dyn BufRead> = match args[1].as_str() {
        "-" => Box::new(std::io::BufReader::new(std::io::stdin())),
        path => Box::new(std::io::BufReader::new(std::fs::File::open(path).expect("scenario file"))),
    };
    let sink: Box<dyn Write + Send> = match args[2].as_str() {
        "-" => Box::new(std::io::stdout()),
        path => Box::new(std::fs::File::create(path).expect("trace file")),
    };
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(sink)));
    // Watchdog: code under test that never returns from a poll is data ("hang"), not a tool error.
    type Slot = Option<(Value, mock::Shared, Instant)>;
    let current: Arc<Mutex<Slot>> = Arc::new(Mutex::new(None));
    {
        let current = current.clone();
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let cur = current.lock().unwrap();
            if let Some((id, world, started)) = cur.as_ref() {
                if started.elapsed() > Duration::from_secs(40) {
                    let ev = match world.try_lock() {
                        Ok(mut w) => {
                            w.emit(serde_json::json!({"e": "hang", "why": "spin"}));
                            w.ev.clone()
                        }
                        Err(_) => vec![serde_json::json!({"e": "hang", "why": "spin"})],
                    };
                    let mut o = out.lock().unwrap();
                    let _ = writeln!(o, "{}", serde_json::json!({"id": id, "ev": ev}));
                    let _ = o.flush();
                    std::process::exit(0);
                }
            }
        });
    }
    for line in input.lines() {
        let line = line.expect("read scenario");
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("scenario json");
        let id = sc["id"].clone();
        log::set_max_level(if logging(&sc) { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        let world = mock::new_world(&sc);
        *current.lock().unwrap() = Some((id.clone(), world.clone(), Instant::now()));
        if sc["pure"].is_array() {
            pure::run(&sc, &world);
        } else if !sc["together"].is_array() && !sc["side"].is_array() {
            session::run_all(std::slice::from_ref(&sc), std::slice::from_ref(&world), &[]);
        }
        if sc["together"].is_array() {
            // several connections: all side by side, and each alone, every time in a process of its own
            *current.lock().unwrap() = None;
            let mut solo = vec![];
            for s in sc["together"].as_array().into_iter().flatten() {
                let mut s = s.clone();
                s["log"] = logging(&sc).into();
                solo.push(elsewhere(&s));
            }
            let side = elsewhere(&serde_json::json!({"id": id, "side": sc["together"], "log": logging(&sc), "turns": sc["turns"]}));
            let mut o = out.lock().unwrap();
            writeln!(o, "{}", serde_json::json!({"id": id, "ev": side, "solo": solo})).expect("write trace");
            continue;
        }
        if let Some(others) = sc["side"].as_array() {
            let order: Vec<usize> = sc["turns"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect()).unwrap_or_default();
            let worlds: Vec<_> = others.iter().map(mock::new_world).collect();
            session::run_all(others, &worlds, &order);
            let ev: Vec<Value> = worlds.iter().map(|w| serde_json::json!(w.lock().unwrap_or_else(|e| e.into_inner()).ev.clone())).collect();
            *current.lock().unwrap() = None;
            writeln!(out.lock().unwrap(), "{}", serde_json::json!({"id": id, "ev": ev})).expect("write trace");
            continue;
        }
        *current.lock().unwrap() = None;
        let ev = world.lock().unwrap_or_else(|e| e.into_inner()).ev.clone();
        let mut o = out.lock().unwrap();
        writeln!(o, "{}", serde_json::json!({"id": id, "ev": ev})).expect("write trace");
    }
    out.lock().unwrap().flush().expect("flush");
}

/// Runs one scenario in a new process of this program; returns what it recorded.
fn elsewhere(sc: &Value) -> Value {
    let mut child = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["-", "-"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("start own program");
    let mut stdin = child.stdin.take().expect("stdin");
    writeln!(stdin, "{sc}").expect("hand over the scenario");
    drop(stdin);
    let res = child.wait_with_output().expect("own program ends");
    let line = String::from_utf8(res.stdout).expect("utf-8");
    match serde_json::from_str::<Value>(line.trim()) {
        Ok(v) => v["ev"].clone(),
        Err(_) => serde_json::json!([{"e": "hang", "why": "aborted"}]),
    }
}
