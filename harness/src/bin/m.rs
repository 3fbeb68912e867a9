//! Measured builds. `m measure SCENARIO` measures a build with the real code and
//! prints what it is told, `m job SOCKET ID ..` is a compilation job which does
//! what the controller at the other end of the socket says.
use cmakeperf::{
    commands::{CompilationDatabase, DatabaseEntry},
    measure::{Measurement, PollClock},
};
use serde_json::{json, Value};
use std::{
    io::{BufRead, BufReader, Read, Write},
    num::NonZeroUsize,
    os::unix::net::UnixStream,
    path::PathBuf,
    str::FromStr,
    time::Duration,
};

/// CLOCK_MONOTONIC, which is shared by all processes
fn now() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

fn say(mut v: Value) {
    v["t"] = json!(now());
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "{v}");
    let _ = out.flush();
}

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        say(json!({"ev": "log", "level": r.level().as_str(), "text": r.args().to_string()}));
    }
    fn flush(&self) {}
}

fn measure(scenario: &str) {
    std::env::remove_var("LD_PRELOAD");
    let s: Value = serde_json::from_str(&std::fs::read_to_string(scenario).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|i| say(json!({"ev": "panic", "text": i.to_string()}))));
    log::set_logger(&Log).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    if let Some(ms) = s["poll_ms"].as_u64() {
        PollClock::set_polling_interval(Duration::from_millis(ms));
    }
    let database = CompilationDatabase::from_entries(
        s["entries"].as_array().unwrap().iter().map(|e| DatabaseEntry::from_str(&e.to_string()).unwrap()),
    );
    say(json!({"ev": "cpus", "n": std::thread::available_parallelism().map(|n| n.get()).unwrap_or(0)}));
    let measurement = Measurement::start(
        PathBuf::from(s["path"].as_str().unwrap()),
        &database,
        s["measure_time"].as_bool().unwrap(),
        s["concurrency"].as_u64().map(|n| NonZeroUsize::new(n as usize).unwrap()),
        || say(json!({"ev": "progress"})),
        |r| say(json!({"ev": "outcome", "ok": r.is_ok(), "debug": format!("{r:?}"), "text": r.err().map(|e| e.to_string())})),
    );
    // "drop", or end of input
    let mut line = String::new();
    let _ = std::io::stdin().read_line(&mut line);
    say(json!({"ev": "dropping"}));
    drop(measurement);
    say(json!({"ev": "dropped"}));
    let _ = std::io::stdin().read_to_end(&mut Vec::new());
}

fn job(socket: &str, args: Vec<String>) {
    let t = now();
    let mut stream = match UnixStream::connect(socket) {
        Ok(s) => s,
        Err(_) => std::process::exit(99),
    };
    let cwd = std::env::current_dir().unwrap();
    let mut input = libc::pollfd { fd: 0, events: libc::POLLIN, revents: 0 };
    let mut byte = 0u8;
    let ended = unsafe { libc::poll(&mut input, 1, 0) == 1 && libc::read(0, (&mut byte as *mut u8).cast(), 1) <= 0 };
    let hello = json!({"pid": std::process::id(), "t": t, "cwd": cwd.to_string_lossy(), "args": args,
                       "argv0": std::env::args().next(), "token": std::env::var("VF_TOKEN").ok(), "stdin": if ended { "end" } else { "open" }});
    let _ = writeln!(stream, "{hello}");
    let mut blocks = Vec::new();
    let orders = BufReader::new(stream.try_clone().unwrap());
    for order in orders.lines() {
        let Ok(order) = order else { break };
        let words = order.split(' ').collect::<Vec<_>>();
        let num = |i: usize| words[i].parse::<i64>().unwrap();
        match words[0] {
            "exit" => std::process::exit(num(1) as i32),
            "signal" => unsafe {
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                libc::signal(num(1) as i32, libc::SIG_DFL);
                libc::kill(libc::getpid(), num(1) as i32);
            },
            "say" => {
                // stream, what, how many bytes
                let unit: &[u8] = match words[2] {
                    "text" => b"warning: unused variable\n",
                    "bytes" => b"\xff\xfe\x00\x80abc\n",
                    _ => b"x",
                };
                let mut data = unit.repeat(num(3) as usize / unit.len() + 1);
                data.truncate(num(3) as usize);
                let _ = if words[1] == "1" { std::io::stdout().write_all(&data) } else { std::io::stderr().write_all(&data) };
                let _ = std::io::stdout().flush();
            }
            "close" => unsafe {
                libc::close(num(1) as i32);
            },
            "child" => {
                let me = std::env::current_exe().unwrap();
                let mut all = vec!["job".to_string(), socket.to_string()];
                all.extend(words[1..].iter().map(|s| s.to_string()));
                let _ = std::process::Command::new(me).args(all).spawn();
            }
            // so many MB more, or the last ones less
            "alloc" => unsafe {
                let len = (num(1) as usize) << 20;
                let rw = libc::PROT_READ | libc::PROT_WRITE;
                let at = libc::mmap(std::ptr::null_mut(), len, rw, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
                assert!(at != libc::MAP_FAILED);
                std::ptr::write_bytes(at as *mut u8, 1, len);
                blocks.push((at, len));
            },
            "free" => unsafe {
                let (at, len) = blocks.pop().unwrap();
                libc::munmap(at, len);
            },
            "thread" => {
                std::thread::spawn(|| loop {
                    std::thread::park()
                });
            }
            "nap" => std::thread::sleep(Duration::from_millis(num(1) as u64)),
            _ => std::process::exit(98),
        }
        let _ = writeln!(stream, "{}", json!({"done": order}));
    }
    // The controller is gone
    std::process::exit(97);
}

fn main() {
    let mut args = std::env::args().skip(1);
    match args.next().as_deref() {
        Some("measure") => measure(&args.next().unwrap()),
        Some("job") => {
            let socket = args.next().unwrap();
            job(&socket, args.collect())
        }
        _ => panic!("mode"),
    }
}
