//! Runs threads one at a time, in an order which is explored exhaustively (with
//! a bounded number of preemptions) or at random. Threads hand over control at
//! `point()`s, which is what the replacements of communication primitives call.
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    /// Waiting on an address
    Waiting(usize),
    /// Waiting until nobody else can do anything
    Settling,
    /// Waiting for a permit
    Held,
    Done,
}

#[derive(Clone, Debug)]
pub struct Budget {
    pub preemptions: u32,
    pub spurious: u32,
    pub retries: u32,
}

struct State {
    active: bool,
    current: usize,
    status: Vec<Status>,
    permits: u32,
    budget: Budget,
    /// Choices made so far in this execution: (chosen, out of)
    choices: Vec<(u32, u32)>,
    /// Choices to be made first
    prefix: Vec<u32>,
    /// Random choices beyond the prefix
    random: Option<u64>,
    stuck: bool,
    points: u64,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static TURN: [Condvar; 16] = [const { Condvar::new() }; 16];
thread_local!(static ME: Cell<usize> = const { Cell::new(usize::MAX) });

/// What a thread that can never go on again panics with
pub struct Stuck;

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

impl State {
    fn choose(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let k = self.choices.len();
        let c = if k < self.prefix.len() {
            self.prefix[k]
        } else if let Some(s) = &mut self.random {
            *s ^= *s << 13;
            *s ^= *s >> 7;
            *s ^= *s << 17;
            ((*s >> 20) % n as u64) as u32
        } else {
            0
        };
        self.choices.push((c.min(n - 1), n));
        c.min(n - 1)
    }
    fn ready(&self) -> Vec<usize> {
        (0..self.status.len()).filter(|&i| self.status[i] == Status::Ready).collect()
    }
    /// Decide who goes on. `me` could go on, if it is ready.
    fn next(&mut self, me: usize) {
        self.points += 1;
        if self.stuck {
            return;
        }
        let can = self.status[me] == Status::Ready;
        let mut options = Vec::new();
        if can {
            options.push(me);
            if self.budget.preemptions > 0 {
                options.extend(self.ready().into_iter().filter(|&i| i != me));
            }
        } else {
            options = self.ready();
        }
        let mut spurious = Vec::new();
        if self.budget.spurious > 0 {
            spurious.extend((0..self.status.len()).filter(|&i| matches!(self.status[i], Status::Waiting(_))));
        }
        if options.is_empty() {
            // Nothing can happen on its own
            if let Some(i) = self.status.iter().position(|s| *s == Status::Settling) {
                self.status[i] = Status::Ready;
                self.current = i;
            } else if self.status.iter().all(|s| *s == Status::Done) {
                self.current = usize::MAX;
            } else {
                self.stuck = true;
                for s in &mut self.status {
                    if *s != Status::Done {
                        *s = Status::Ready;
                    }
                }
            }
            return;
        }
        let n = options.len();
        let c = self.choose((n + spurious.len()) as u32) as usize;
        if c < n {
            if can && c > 0 {
                self.budget.preemptions -= 1;
            }
            self.current = options[c];
        } else {
            self.budget.spurious -= 1;
            let w = spurious[c - n];
            self.status[w] = Status::Ready;
            self.current = w;
        }
    }
}

fn hand_over(mut g: MutexGuard<'static, Option<State>>, me: usize) {
    {
        let s = g.as_mut().unwrap();
        if s.stuck {
            for t in &TURN {
                t.notify_all();
            }
        } else if s.current != me && s.current < TURN.len() {
            TURN[s.current].notify_all();
        }
    }
    loop {
        let s = g.as_ref().unwrap();
        if s.stuck || s.current == me || s.status[me] == Status::Done {
            return;
        }
        g = TURN[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

fn step(new: impl FnOnce(&mut State, usize)) -> bool {
    let me = ME.get();
    if me == usize::MAX {
        return false;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    if s.stuck {
        return true;
    }
    new(s, me);
    s.next(me);
    hand_over(g, me);
    let stuck = lock().as_ref().unwrap().stuck;
    stuck
}

fn or_unwind(stuck: bool) {
    if stuck && !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(Stuck));
    }
}

/// Somebody else may go on here
pub fn point() {
    step(|_, _| ());
}

/// Should this operation, that may fail for no good reason, do so?
pub fn fails() -> bool {
    if ME.get() == usize::MAX {
        return false;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    if s.stuck || s.budget.retries == 0 {
        return false;
    }
    let f = s.choose(2) == 1;
    if f {
        s.budget.retries -= 1;
    }
    f
}

/// Wait on an address, if `still` holds
pub fn wait(addr: usize, still: impl FnOnce() -> bool) {
    point();
    let stuck = step(|s, me| {
        if still() {
            s.status[me] = Status::Waiting(addr);
        }
    });
    or_unwind(stuck);
}

/// Wake threads that wait on an address
pub fn wake(addr: usize, all: bool) {
    point();
    step(|s, _| {
        let w = (0..s.status.len()).filter(|&i| s.status[i] == Status::Waiting(addr)).collect::<Vec<_>>();
        if all {
            for i in w {
                s.status[i] = Status::Ready;
            }
        } else if !w.is_empty() {
            let c = s.choose(w.len() as u32) as usize;
            s.status[w[c]] = Status::Ready;
        }
    });
}

/// Wait until nobody can go on without us
pub fn settle() {
    or_unwind(step(|s, me| s.status[me] = Status::Settling));
}

/// Wait for a permit
pub fn hold() {
    or_unwind(step(|s, me| {
        if s.permits > 0 {
            s.permits -= 1;
        } else {
            s.status[me] = Status::Held;
        }
    }));
}

/// Let one of those that are held go on (or the next one that would be)
pub fn release() {
    step(|s, _| {
        let w = (0..s.status.len()).filter(|&i| s.status[i] == Status::Held).collect::<Vec<_>>();
        if w.is_empty() {
            s.permits += 1;
        } else {
            let c = s.choose(w.len() as u32) as usize;
            s.status[w[c]] = Status::Ready;
        }
    });
}

/// Result of an execution
pub struct Execution {
    pub choices: Vec<(u32, u32)>,
    pub stuck: bool,
    pub points: u64,
}

/// Run the threads under one schedule
pub fn execute<'env>(budget: Budget, prefix: Vec<u32>, random: Option<u64>, bodies: Vec<Box<dyn FnOnce() + Send + 'env>>) -> Execution {
    let n = bodies.len();
    *lock() = Some(State {
        active: true,
        current: 0,
        status: vec![Status::Ready; n],
        permits: 0,
        budget,
        choices: Vec::new(),
        prefix,
        random,
        stuck: false,
        points: 0,
    });
    std::thread::scope(|s| {
        for (i, body) in bodies.into_iter().enumerate() {
            s.spawn(move || {
                ME.set(i);
                // Wait for one's turn
                {
                    let mut g = lock();
                    while !(g.as_ref().unwrap().stuck || g.as_ref().unwrap().current == i) {
                        g = TURN[i].wait(g).unwrap_or_else(|e| e.into_inner());
                    }
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                step(|s, me| s.status[me] = Status::Done);
                {
                    let mut g = lock();
                    let s = g.as_mut().unwrap();
                    s.status[i] = Status::Done;
                }
                ME.set(usize::MAX);
                if let Err(e) = r {
                    if !e.is::<Stuck>() {
                        std::panic::resume_unwind(e);
                    }
                }
            });
        }
    });
    let s = lock().take().unwrap();
    let _ = s.active;
    Execution { choices: s.choices, stuck: s.stuck, points: s.points }
}

/// The next choices to make, in depth-first order
pub fn advance(choices: &[(u32, u32)]) -> Option<Vec<u32>> {
    let k = choices.iter().rposition(|(c, n)| c + 1 < *n)?;
    let mut p = choices[..k].iter().map(|c| c.0).collect::<Vec<_>>();
    p.push(choices[k].0 + 1);
    Some(p)
}
