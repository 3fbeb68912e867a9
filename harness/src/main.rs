//! Conformance harness: steps the real crofiler libraries through behaviours
//! of the specifications. One JSON case per input line, one JSON observation
//! per output line. Judging is done by the caller, against the specification.
mod cpp;
mod db;
mod intern;
mod trace;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else {
        "non-string panic".into()
    }
}

pub fn guarded(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => json!({ "panic": panic_text(e) }),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).expect("mode");
    // Generous stack: parsers recurse on their input
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || serve(&mode))
        .unwrap()
        .join()
        .unwrap();
}

fn serve(mode: &str) {
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).unwrap();
        let obs = match mode {
            "load" => guarded(|| trace::load(&case)),
            "args" => guarded(|| trace::args(&case)),
            "items" => guarded(|| intern::items(&case)),
            "sequences" => guarded(|| intern::sequences(&case)),
            "paths" => guarded(|| intern::paths(&case)),
            "cppbig" => guarded(|| cpp::big(&case)),
            "cpp" => guarded(|| cpp::session(&case)),
            "db" => guarded(|| db::database(&case)),
            "fresh" => guarded(|| db::freshness(&case)),
            "csv" => guarded(|| db::profile(&case)),
            _ => panic!("unknown mode"),
        };
        serde_json::to_writer(&mut out, &obs).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
