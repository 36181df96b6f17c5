//! Every interleaving and every allowed weak-memory outcome (up to a preemption bound) of small writer/reader
//! programs over goko's concurrent map, with loom. The map's sources are compiled straight from /repo; their
//! synchronization primitives resolve to loom's through `crate::verif_sync`.
#![allow(dead_code, unused_imports, clippy::all)]

#[path = "/repo/goko/src/monomap/mod.rs"]
mod monomap;

mod verif_sync {
    pub mod sync {
        pub use super::atomic;
        pub use loom::sync::{Mutex, MutexGuard, RwLock};
        pub use std::sync::{Arc, LockResult, TryLockError, Weak};
    }
    pub mod atomic {
        pub use loom::sync::atomic::*;
        /// Only a hint to the processor; spinning threads must let others run under loom.
        pub fn spin_loop_hint() {
            loom::thread::yield_now()
        }
    }
    pub mod thread {
        pub use loom::thread::*;
    }
}

use loom::cell::UnsafeCell;
use loom::thread;
use monomap::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// A value whose every access is visible to loom: reads, in-place changes, and destruction.
struct Val(UnsafeCell<u64>);
impl Val {
    fn new(v: u64) -> Val {
        Val(UnsafeCell::new(v))
    }
    fn get(&self) -> u64 {
        self.0.with(|p| unsafe { *p })
    }
    fn set(&self, v: u64) {
        self.0.with_mut(|p| unsafe { *p = v })
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.get())
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            self.set(0xdead)
        }
    }
}
unsafe impl Send for Val {}
unsafe impl Sync for Val {}

type W = MonoWriteHandle<u8, Val, Val>;
type R = MonoReadHandle<u8, Val, Val>;

/// The map with both keys and the metadata at version `v`.
fn set_all(w: &mut W, v: u64) {
    w.insert(1, Val::new(v));
    w.insert(2, Val::new(v));
    drop(w.set_meta(Val::new(v)));
}
fn bump_all(w: &mut W, v: u64) {
    w.update(1, move |x| x.set(v));
    w.update(2, move |x| x.set(v));
    drop(w.set_meta(Val::new(v)));
}

/// One complete observation: both keys and the metadata in a single read.
fn look(r: &R) -> Option<u64> {
    let mut vals = vec![];
    let meta = r.meta_get_and(&1, |v| v.get());
    match meta {
        None => None,
        Some((v, m)) => {
            vals.push(v.unwrap_or(0));
            vals.push(m.get());
            assert!(vals[0] == vals[1], "value and metadata of different publishes seen in one read: {:?}", vals);
            Some(vals[0])
        }
    }
}
fn look_all(r: &R) -> Option<u64> {
    let mut vals: Vec<u64> = vec![];
    r.for_each(|_, v| vals.push(v.get()));
    assert!(vals.len() == 0 || vals.len() == 2, "half a publish seen: {:?}", vals);
    if vals.len() == 2 {
        assert!(vals[0] == vals[1], "keys of different publishes seen in one read: {:?}", vals);
    }
    vals.first().copied()
}

static ITER: AtomicU64 = AtomicU64::new(0);
fn outcomes() -> &'static Mutex<BTreeSet<Vec<Option<u64>>>> {
    static O: std::sync::OnceLock<Mutex<BTreeSet<Vec<Option<u64>>>>> = std::sync::OnceLock::new();
    O.get_or_init(Default::default)
}

fn record(v: Vec<Option<u64>>) {
    outcomes().lock().unwrap().insert(v);
}

/// `seen` must be published versions, oldest first, and nothing at all once something had been published and the
/// map is still there.
fn check(seen: &[Option<u64>], published: &[u64], destroyed: bool) {
    let mut last = 0;
    let mut gone = false;
    for s in seen {
        match s {
            Some(v) => {
                assert!(!gone, "a discarded map came back: {:?}", seen);
                assert!(published.contains(v), "saw {:?}, published {:?}", seen, published);
                assert!(*v >= last, "went back in time: {:?}", seen);
                last = *v;
            }
            None => {
                assert!(destroyed, "saw nothing although the map is published: {:?}", seen);
                gone = true;
            }
        }
    }
}

fn start() -> (R, W) {
    let (r, mut w): (R, W) = with_meta(Val::new(1));
    set_all(&mut w, 1);
    w.refresh();
    (r, w)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let bound: usize = a[2].parse().unwrap();
    let mut b = loom::model::Builder::new();
    b.preemption_bound = Some(bound);
    b.max_branches = 100_000;
    let f: fn() = match &a[1][..] {
        // one publish by insertion; reader takes two reads
        "insert" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let s = vec![look(&r), look_all(&r)];
                check(&s, &[1, 2], false);
                record(s);
            });
            set_all(&mut w, 2);
            w.refresh();
            t.join().unwrap();
        },
        // in-place updates published twice: the copy the reader may still hold is changed next
        "update" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let s = vec![look(&r), look(&r)];
                check(&s, &[1, 2, 3], false);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            bump_all(&mut w, 3);
            w.refresh();
            t.join().unwrap();
        },
        // before the first publish readers see nothing
        "first" => || {
            let (r, mut w): (R, W) = with_meta(Val::new(1));
            let t = thread::spawn(move || {
                let s = vec![look(&r), look(&r)];
                let seen: Vec<Option<u64>> = s.iter().copied().skip_while(|x| x.is_none()).collect();
                check(&seen, &[1], false);
                record(s);
            });
            set_all(&mut w, 1);
            w.refresh();
            t.join().unwrap();
        },
        // the writer goes away while a reader reads
        "drop" => || {
            let (r, w) = start();
            let t = thread::spawn(move || {
                let s = vec![look(&r), look(&r)];
                check(&s, &[1], true);
                record(s);
            });
            drop(w);
            t.join().unwrap();
        },
        // publish, then go away
        "update_drop" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let s = vec![look(&r), look(&r)];
                check(&s, &[1, 2], true);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            drop(w);
            t.join().unwrap();
        },
        // unpublished work when the writer goes away
        "pending_drop" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let s = vec![look(&r)];
                check(&s, &[1, 2], true);
                record(s);
            });
            bump_all(&mut w, 2);
            drop(w);
            t.join().unwrap();
        },
        // a read inside a read on the same handle
        "nested" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let mut s = vec![];
                r.get_and(&1, |v| {
                    let before = v.get();
                    let inner = look(&r);
                    assert!(v.get() == before, "a value changed while it was being read");
                    s.push(Some(before));
                    s.push(inner);
                });
                check(&s, &[1, 2, 3], false);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            bump_all(&mut w, 3);
            w.refresh();
            t.join().unwrap();
        },
        "nested_drop" => || {
            let (r, w) = start();
            let t = thread::spawn(move || {
                let mut s = vec![];
                r.get_and(&1, |v| {
                    let before = v.get();
                    let inner = look(&r);
                    assert!(v.get() == before, "a value changed while it was being read");
                    s.push(Some(before));
                    s.push(inner);
                });
                check(&s, &[1], true);
                record(s);
            });
            drop(w);
            t.join().unwrap();
        },
        // handles made while the writer publishes
        "clone" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let a = look(&r);
                let r2 = r.clone();
                let s = vec![a, look(&r2)];
                check(&s, &[1, 2, 3], false);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            bump_all(&mut w, 3);
            w.refresh();
            t.join().unwrap();
        },
        // a handle made inside a read
        "clone_inside" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let mut s = vec![];
                let mut r2 = None;
                r.get_and(&1, |v| {
                    let before = v.get();
                    r2 = Some(r.clone());
                    assert!(v.get() == before, "a value changed while it was being read");
                    s.push(Some(before));
                });
                s.push(look(&r2.unwrap()));
                check(&s, &[1, 2, 3], false);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            bump_all(&mut w, 3);
            w.refresh();
            t.join().unwrap();
        },
        "clone_inside_drop" => || {
            let (r, w) = start();
            let t = thread::spawn(move || {
                let mut s = vec![];
                let mut r2 = None;
                let x = r.get_and(&1, |v| {
                    let before = v.get();
                    r2 = Some(r.clone());
                    assert!(v.get() == before, "a value changed while it was being read");
                    before
                });
                s.push(x);
                s.push(r2.and_then(|r| look(&r)));
                check(&s, &[1], true);
                record(s);
            });
            drop(w);
            t.join().unwrap();
        },
        "factory_drop" => || {
            let (r, mut w) = start();
            let f = r.factory();
            drop(r);
            let t = thread::spawn(move || {
                let r2 = f.handle();
                let s = vec![look(&r2), look(&r2)];
                check(&s, &[1, 2], true);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            drop(w);
            t.join().unwrap();
        },
        // two readers
        "two" => || {
            let (r, mut w) = start();
            let r2 = r.clone();
            let t = thread::spawn(move || {
                let s = vec![look(&r)];
                check(&s, &[1, 2, 3], false);
                record(s);
            });
            let t2 = thread::spawn(move || {
                let s = vec![look_all(&r2)];
                check(&s, &[1, 2, 3], false);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            bump_all(&mut w, 3);
            w.refresh();
            t.join().unwrap();
            t2.join().unwrap();
        },
        // a read that panics must not keep the writer waiting, nor leave the map unprotected
        "panic" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    r.get_and(&1, |_| std::panic::resume_unwind(Box::new(())))
                }));
                assert!(p.is_err());
                let s = vec![look(&r)];
                check(&s, &[1, 2, 3], false);
                record(s);
            });
            bump_all(&mut w, 2);
            w.refresh();
            bump_all(&mut w, 3);
            w.refresh();
            t.join().unwrap();
        },
        // remove and clear
        "purge" => || {
            let (r, mut w) = start();
            let t = thread::spawn(move || {
                let a = look_all(&r);
                let b = look_all(&r);
                let c = look_all(&r);
                record(vec![a, b, c]);
                let got: Vec<u64> = [a, b, c].iter().map(|x| x.unwrap_or(2)).collect();
                assert!(got.windows(2).all(|w| w[0] <= w[1]), "went back in time: {:?}", [a, b, c]);
                assert!(got.iter().all(|g| [1, 2, 3].contains(g)));
            });
            w.purge();
            drop(w.set_meta(Val::new(2)));
            w.refresh();
            set_all(&mut w, 3);
            w.refresh();
            t.join().unwrap();
        },
        _ => std::process::exit(2),
    };
    let name = a[1].clone();
    b.check(move || {
        ITER.fetch_add(1, SeqCst);
        f()
    });
    let o = outcomes().lock().unwrap();
    println!("{} executions={} outcomes={}", name, ITER.load(SeqCst), o.len());
    for x in o.iter() {
        println!("outcome {:?}", x);
    }
}
