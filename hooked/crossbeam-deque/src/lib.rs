//! crossbeam-deque, under control of the scheduler
use std::collections::VecDeque;
use std::iter::FromIterator;
use std::sync::{Arc, Mutex};

type Shared<T> = Arc<Mutex<VecDeque<T>>>;
const MAX_BATCH: usize = 32;

fn with<T, R>(q: &Shared<T>, f: impl FnOnce(&mut VecDeque<T>) -> R) -> R {
    vsched::point();
    let r = f(&mut q.lock().unwrap());
    vsched::point();
    r
}

#[derive(Debug)]
pub struct Worker<T> {
    q: Shared<T>,
    lifo: bool,
}
impl<T> Worker<T> {
    pub fn new_fifo() -> Self {
        Self { q: Default::default(), lifo: false }
    }
    pub fn new_lifo() -> Self {
        Self { q: Default::default(), lifo: true }
    }
    pub fn stealer(&self) -> Stealer<T> {
        Stealer { q: self.q.clone(), lifo: self.lifo }
    }
    pub fn is_empty(&self) -> bool {
        with(&self.q, |q| q.is_empty())
    }
    pub fn len(&self) -> usize {
        with(&self.q, |q| q.len())
    }
    pub fn push(&self, task: T) {
        with(&self.q, |q| q.push_back(task))
    }
    pub fn pop(&self) -> Option<T> {
        with(&self.q, |q| if self.lifo { q.pop_back() } else { q.pop_front() })
    }
}

fn steal<T>(q: &Shared<T>, limit: usize) -> Steal<Vec<T>> {
    if vsched::fails() {
        vsched::point();
        return Steal::Retry;
    }
    let v = with(q, |q| {
        let n = q.len().min(limit);
        q.drain(..n).collect::<Vec<_>>()
    });
    if v.is_empty() {
        Steal::Empty
    } else {
        Steal::Success(v)
    }
}
fn half<T>(q: &Shared<T>) -> usize {
    (q.lock().unwrap().len() + 1) / 2
}
fn batch<T>(q: &Shared<T>, dest: &Worker<T>, limit: usize) -> Steal<()> {
    assert!(limit > 0);
    if Arc::ptr_eq(q, &dest.q) {
        return if dest.is_empty() { Steal::Empty } else { Steal::Success(()) };
    }
    let n = half(q).min(limit).max(1);
    steal(q, n).map(|v| v.into_iter().for_each(|x| dest.push(x)))
}
fn batch_and_pop<T>(q: &Shared<T>, dest: &Worker<T>, limit: usize) -> Steal<T> {
    assert!(limit > 0);
    if Arc::ptr_eq(q, &dest.q) {
        return match dest.pop() {
            None => Steal::Empty,
            Some(x) => Steal::Success(x),
        };
    }
    let n = half(q).min(limit).max(1);
    steal(q, n).map(|v| {
        let mut v = v.into_iter();
        let first = v.next().unwrap();
        v.for_each(|x| dest.push(x));
        first
    })
}

#[derive(Debug)]
pub struct Stealer<T> {
    q: Shared<T>,
    lifo: bool,
}
impl<T> Clone for Stealer<T> {
    fn clone(&self) -> Self {
        Self { q: self.q.clone(), lifo: self.lifo }
    }
}
impl<T> Stealer<T> {
    pub fn is_empty(&self) -> bool {
        with(&self.q, |q| q.is_empty())
    }
    pub fn len(&self) -> usize {
        with(&self.q, |q| q.len())
    }
    pub fn steal(&self) -> Steal<T> {
        steal(&self.q, 1).map(|mut v| v.pop().unwrap())
    }
    pub fn steal_batch(&self, dest: &Worker<T>) -> Steal<()> {
        batch(&self.q, dest, MAX_BATCH)
    }
    pub fn steal_batch_with_limit(&self, dest: &Worker<T>, limit: usize) -> Steal<()> {
        batch(&self.q, dest, limit)
    }
    pub fn steal_batch_and_pop(&self, dest: &Worker<T>) -> Steal<T> {
        batch_and_pop(&self.q, dest, MAX_BATCH)
    }
    pub fn steal_batch_with_limit_and_pop(&self, dest: &Worker<T>, limit: usize) -> Steal<T> {
        batch_and_pop(&self.q, dest, limit)
    }
}

#[derive(Debug)]
pub struct Injector<T> {
    q: Shared<T>,
}
impl<T> Default for Injector<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> Injector<T> {
    pub fn new() -> Self {
        Self { q: Default::default() }
    }
    pub fn push(&self, task: T) {
        with(&self.q, |q| q.push_back(task))
    }
    pub fn steal(&self) -> Steal<T> {
        steal(&self.q, 1).map(|mut v| v.pop().unwrap())
    }
    pub fn steal_batch(&self, dest: &Worker<T>) -> Steal<()> {
        batch(&self.q, dest, MAX_BATCH)
    }
    pub fn steal_batch_with_limit(&self, dest: &Worker<T>, limit: usize) -> Steal<()> {
        batch(&self.q, dest, limit)
    }
    pub fn steal_batch_and_pop(&self, dest: &Worker<T>) -> Steal<T> {
        batch_and_pop(&self.q, dest, MAX_BATCH)
    }
    pub fn steal_batch_with_limit_and_pop(&self, dest: &Worker<T>, limit: usize) -> Steal<T> {
        batch_and_pop(&self.q, dest, limit)
    }
    pub fn is_empty(&self) -> bool {
        with(&self.q, |q| q.is_empty())
    }
    pub fn len(&self) -> usize {
        with(&self.q, |q| q.len())
    }
}

#[must_use]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Steal<T> {
    Empty,
    Success(T),
    Retry,
}
impl<T> Steal<T> {
    fn map<U>(self, f: impl FnOnce(T) -> U) -> Steal<U> {
        match self {
            Steal::Empty => Steal::Empty,
            Steal::Success(x) => Steal::Success(f(x)),
            Steal::Retry => Steal::Retry,
        }
    }
    pub fn is_empty(&self) -> bool {
        matches!(self, Steal::Empty)
    }
    pub fn is_success(&self) -> bool {
        matches!(self, Steal::Success(_))
    }
    pub fn is_retry(&self) -> bool {
        matches!(self, Steal::Retry)
    }
    pub fn success(self) -> Option<T> {
        match self {
            Steal::Success(x) => Some(x),
            _ => None,
        }
    }
    pub fn or_else<F: FnOnce() -> Steal<T>>(self, f: F) -> Steal<T> {
        match self {
            Steal::Empty => f(),
            Steal::Success(_) => self,
            Steal::Retry => {
                if let Steal::Success(x) = f() {
                    Steal::Success(x)
                } else {
                    Steal::Retry
                }
            }
        }
    }
}
impl<T> FromIterator<Steal<T>> for Steal<T> {
    fn from_iter<I: IntoIterator<Item = Steal<T>>>(iter: I) -> Steal<T> {
        let mut retry = false;
        for s in iter {
            match s {
                Steal::Empty => {}
                Steal::Success(x) => return Steal::Success(x),
                Steal::Retry => retry = true,
            }
        }
        if retry {
            Steal::Retry
        } else {
            Steal::Empty
        }
    }
}
