//! Runs programs of WorkQueueProgram on the real work queue, under all schedules
//! (up to a number of preemptions) or random ones. One JSON case per input line.
use cmakeperf::{
    commands::DatabaseEntry,
    measure::verif::{Queue, Receiver, Sender},
};
use serde_json::{json, Value};
use std::{
    io::{BufRead, Write},
    sync::Mutex,
};
use vsched::Budget;

fn entry(id: u64) -> DatabaseEntry {
    DatabaseEntry::new(std::path::Path::new("/"), "cc", std::path::PathBuf::from(format!("/{id}")), None)
}
fn id(e: &DatabaseEntry) -> u64 {
    e.input().to_string_lossy()[1..].parse().unwrap()
}

#[derive(Default)]
struct Seen {
    fetched: Vec<(u64, u64)>,
    held: i64,
    done: i64,
    off: i64,
    dead: i64,
    dying: u32,
    back: Vec<DatabaseEntry>,
    closed: bool,
    events: Vec<String>,
    wrong: Option<String>,
    ending: bool,
}

fn worker(w: usize, mut rx: Receiver, seen: &Mutex<Seen>) {
    rx.wait();
    loop {
        let next = rx.next();
        let Some(job) = next else {
            let mut s = seen.lock().unwrap();
            s.off += 1;
            s.events.push(format!("w{w} is told that all is done"));
            if !s.closed {
                s.wrong.get_or_insert("a worker is told that all is done, while the queue is not closed".into());
            }
            break;
        };
        {
            let mut s = seen.lock().unwrap();
            s.fetched.push((id(&job), w as u64));
            s.held += 1;
            s.events.push(format!("w{w} fetches {}", id(&job)));
        }
        if !seen.lock().unwrap().ending {
            vsched::hold();
        }
        let mut s = seen.lock().unwrap();
        s.held -= 1;
        if s.dying > 0 {
            s.dying -= 1;
            s.dead += 1;
            s.events.push(format!("w{w} gives {} back", id(&job)));
            s.back.push(job);
            break;
        }
        s.done += 1;
        s.events.push(format!("w{w} is done with {}", id(&job)));
    }
}

fn coordinator(mut tx: Sender, case: &Value, seen: &Mutex<Seen>) {
    let mut tx_opt = None;
    for (k, op) in case["ops"].as_array().unwrap().iter().enumerate() {
        if op["settled"].as_bool().unwrap() {
            vsched::settle();
            let mut s = seen.lock().unwrap();
            let got = json!({"held": s.held, "done": s.done, "off": s.off, "dead": s.dead});
            if got != op["seen"] {
                let e = format!("when nothing more happens before operation {}, {got} instead of {}", k + 1, op["seen"]);
                s.wrong.get_or_insert(e);
            }
        }
        let name = op["op"].as_str().unwrap();
        let job = op["job"].as_u64().unwrap();
        seen.lock().unwrap().events.push(format!("{name} {job}"));
        match name {
            "start" => tx.start(),
            "push" => tx.push(entry(job)),
            "again" => {
                let Some(job) = ({
                    vsched::settle();
                    seen.lock().unwrap().back.pop()
                }) else {
                    seen.lock().unwrap().wrong.get_or_insert("nobody gives a job back".into());
                    break;
                };
                tx.push(job)
            }
            "release" => vsched::release(),
            "die" => {
                seen.lock().unwrap().dying += 1;
                vsched::release();
            }
            "close" => {
                seen.lock().unwrap().closed = true;
                tx_opt = Some(tx);
                break_close(&mut tx_opt);
                // what is left of the program does not need the queue
                rest(case, k + 1, seen);
                finish(seen);
                return;
            }
            _ => panic!("operation"),
        }
    }
    seen.lock().unwrap().closed = true;
    tx_opt = Some(tx);
    break_close(&mut tx_opt);
    finish(seen);
}
fn break_close(tx: &mut Option<Sender>) {
    drop(tx.take());
}
fn rest(case: &Value, from: usize, seen: &Mutex<Seen>) {
    for (k, op) in case["ops"].as_array().unwrap().iter().enumerate().skip(from) {
        if op["settled"].as_bool().unwrap() {
            vsched::settle();
            let mut s = seen.lock().unwrap();
            let got = json!({"held": s.held, "done": s.done, "off": s.off, "dead": s.dead});
            if got != op["seen"] {
                let e = format!("when nothing more happens before operation {}, {got} instead of {}", k + 1, op["seen"]);
                s.wrong.get_or_insert(e);
            }
        }
        let name = op["op"].as_str().unwrap();
        seen.lock().unwrap().events.push(name.to_string());
        match name {
            "release" => vsched::release(),
            _ => panic!("operation after close"),
        }
    }
}
/// Let all jobs be done
fn finish(seen: &Mutex<Seen>) {
    seen.lock().unwrap().ending = true;
    for _ in 0..64 {
        vsched::release();
    }
}

fn one(case: &Value, budget: Budget, prefix: Vec<u32>, random: Option<u64>) -> (vsched::Execution, Seen, Option<String>) {
    let workers = case["workers"].as_u64().unwrap() as usize;
    let initial = case["initial"].as_u64().unwrap();
    let mut queue = Queue::new((1..=initial).map(entry).collect());
    let (tx, rxs) = queue.split(workers);
    let seen = Mutex::new(Seen::default());
    let panicked = std::sync::Mutex::new(None);
    let exec = {
        let seen = &seen;
        let panicked = &panicked;
        let watched = move |f: Box<dyn FnOnce() + Send + '_>| {
            if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                if e.is::<vsched::Stuck>() {
                    std::panic::resume_unwind(e);
                }
                let text = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                panicked.lock().unwrap().get_or_insert(text.unwrap_or_default());
            }
        };
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        bodies.push(Box::new(move || watched(Box::new(move || coordinator(tx, case, seen)))));
        for (w, rx) in rxs.into_iter().enumerate() {
            bodies.push(Box::new(move || watched(Box::new(move || worker(w, rx, seen)))));
        }
        vsched::execute(budget, prefix, random, bodies)
    };
    let seen = seen.into_inner().unwrap_or_else(|e| e.into_inner());
    let mut wrong = panicked.into_inner().unwrap().map(|p| format!("panic: {p}")).or(seen.wrong.clone());
    if exec.stuck {
        wrong.get_or_insert(format!("workers are stranded: {} of {workers} were told that all is done", seen.off));
    }
    if wrong.is_none() {
        // each job handed out: once, and once more if it was given back
        let pushed = case["ops"].as_array().unwrap().iter().filter(|o| o["op"] == "push").count() as u64;
        let given = case["ops"].as_array().unwrap().iter().filter(|o| o["op"] == "again").count() as u64;
        let unreturned = case["ops"].as_array().unwrap().iter().filter(|o| o["op"] == "die").count() as u64 - given;
        let mut ids = seen.fetched.iter().map(|f| f.0).collect::<Vec<_>>();
        ids.sort();
        ids.dedup();
        let total = seen.fetched.len() as u64;
        let _ = unreturned;
        if ids.len() as u64 != initial + pushed {
            wrong = Some(format!("jobs {ids:?} were fetched, out of {} that were handed out", initial + pushed));
        } else if total != initial + pushed + given {
            wrong = Some(format!("jobs were fetched {total} times instead of {}", initial + pushed + given));
        } else if seen.off + seen.dead != workers as i64 {
            wrong = Some(format!("{} workers were told that all is done, and {} gave up, out of {workers}", seen.off, seen.dead));
        }
    }
    (exec, seen, wrong)
}

fn explore(case: &Value) -> Value {
    let b = |k: &str| case[k].as_u64().unwrap() as u32;
    let budget = Budget { preemptions: b("preemptions"), spurious: b("spurious"), retries: b("retries") };
    let max = case["max"].as_u64().unwrap();
    let mut seed = case["seed"].as_u64();
    let mut prefix = case["prefix"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as u32).collect()).unwrap_or_default();
    let mut runs = 0u64;
    let mut points = 0;
    loop {
        let (exec, seen, wrong) = one(case, budget.clone(), prefix, seed);
        runs += 1;
        points += exec.points;
        if let Some(wrong) = wrong {
            let choices = exec.choices.iter().map(|c| c.0).collect::<Vec<_>>();
            return json!({"runs": runs, "points": points, "wrong": wrong, "events": seen.events, "schedule": choices});
        }
        prefix = Vec::new();
        match &mut seed {
            Some(s) => *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1,
            None => match vsched::advance(&exec.choices) {
                Some(p) => prefix = p,
                None => return json!({"runs": runs, "points": points, "all": true}),
            },
        }
        if runs >= max {
            return json!({"runs": runs, "points": points, "all": false});
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        writeln!(out, "{}", explore(&case)).unwrap();
        out.flush().unwrap();
    }
}
