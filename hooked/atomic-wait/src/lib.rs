//! atomic-wait, under control of the scheduler
use std::sync::atomic::{AtomicU32, Ordering};

pub fn wait(atomic: &AtomicU32, value: u32) {
    vsched::wait(atomic as *const AtomicU32 as usize, || atomic.load(Ordering::SeqCst) == value)
}
pub fn wake_one(atomic: *const AtomicU32) {
    vsched::wake(atomic as usize, false)
}
pub fn wake_all(atomic: *const AtomicU32) {
    vsched::wake(atomic as usize, true)
}
