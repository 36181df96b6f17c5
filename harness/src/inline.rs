//! A controller that runs the builder's worker tasks on the calling thread, so that thousands of trees can be
//! built side by side without sharing the global worker pool.
use goko::verif_sync::{enter, Controller};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::time::{Duration, Instant};

struct Inline;

thread_local! {
    static QUEUE: RefCell<VecDeque<Box<dyn FnOnce() + Send>>> = RefCell::new(VecDeque::new());
}

fn step() -> bool {
    match QUEUE.with(|q| q.borrow_mut().pop_front()) {
        Some(t) => {
            t();
            true
        }
        None => false,
    }
}

impl Controller for Inline {
    fn point(&self) {}
    fn yield_now(&self) {
        if !step() {
            std::thread::yield_now()
        }
    }
    fn block_until(&self, ready: &dyn Fn() -> bool) {
        let mut idle: Option<Instant> = None;
        while !ready() {
            if step() {
                idle = None;
            } else {
                // Nothing left to run here; leave time for threads outside our control before giving up.
                let t = *idle.get_or_insert_with(Instant::now);
                if t.elapsed() > Duration::from_secs(20) {
                    panic!("deadlock: waiting for a worker that never comes");
                }
                std::thread::sleep(Duration::from_micros(50));
            }
        }
    }
    fn spawn(&self, f: Box<dyn FnOnce() + Send>) {
        QUEUE.with(|q| q.borrow_mut().push_back(f));
    }
}

struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        enter(None);
        let left = QUEUE.with(|q| std::mem::take(&mut *q.borrow_mut()));
        drop(left);
    }
}

/// Runs `f` with all worker tasks executed on this thread.
pub fn inline<T>(f: impl FnOnce() -> T) -> T {
    static I: Inline = Inline;
    enter(Some(&I));
    let _l = Leave;
    f()
}
