//! C02: every history of map operations up to a length against a plain map that is copied on publish.
use goko::verif_sync::map::{self as monomap, MonoReadHandle, MonoWriteHandle};
use crate::run::{h, Run, Seen};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

/// A value that remembers everything done to it and is counted while alive.
pub struct Val {
    log: Vec<u16>,
    live: Arc<AtomicI64>,
}
impl Val {
    fn new(tag: u16, live: &Arc<AtomicI64>) -> Val {
        live.fetch_add(1, SeqCst);
        Val { log: vec![tag], live: Arc::clone(live) }
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        self.live.fetch_add(1, SeqCst);
        Val { log: self.log.clone(), live: Arc::clone(&self.live) }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.live.fetch_sub(1, SeqCst);
    }
}

type W = MonoWriteHandle<u16, Val, u16>;
type R = MonoReadHandle<u16, Val, u16>;
type Plain = BTreeMap<u16, Vec<u16>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Ins(u16),
    Upd(u16),
    Rem(u16),
    Purge,
    Extend,
    Meta,
    Refresh,
    Flush,
    /// drop all the old reader handles, so that the epoch list has dead entries
    Forget,
    /// the same done to each of the first n keys
    InsAll(u16),
    UpdAll(u16),
    RemEven(u16),
    ExtAll(u16),
    /// n updates of one key among insertions and removals of another
    Burst(u16),
}
use Op::*;

fn observe(r: &R) -> (Plain, Option<u16>) {
    let mut m = Plain::new();
    r.for_each(|k, v| {
        m.insert(*k, v.log.clone());
    });
    (m, r.meta())
}

fn check(r: &R, want: &Plain, meta: u16, ready: bool, alive: bool, who: &str) -> Result<(), String> {
    if r.is_destroyed() == alive {
        return Err(format!("{}: is_destroyed is wrong", who));
    }
    let (got, m) = observe(r);
    if &got != want {
        return Err(format!("{} sees {:?}, published is {:?}", who, got, want));
    }
    if alive && m != Some(meta) || !alive && m.is_some() {
        return Err(format!("{} sees metadata {:?}, published is {}", who, m, meta));
    }
    if r.len() != want.len() || r.is_empty() != want.is_empty() {
        return Err(format!("{}: len {} but {} keys", who, r.len(), want.len()));
    }
    for k in 0..4u16 {
        let w = want.get(&k).cloned();
        if r.get_and(&k, |v| v.log.clone()) != w || r.contains_key(&k) != w.is_some() {
            return Err(format!("{}: lookup of key {} disagrees", who, k));
        }
        let mg = r.meta_get_and(&k, |v| v.log.clone());
        if mg != if ready && alive { Some((w, meta)) } else { None } {
            return Err(format!("{}: lookup of key {} with metadata gives {:?}", who, k, mg));
        }
    }
    let all: BTreeMap<u16, Vec<u16>> = r.map_into(|k, v| (*k, v.log.clone()));
    if &all != want {
        return Err(format!("{}: map_into gives {:?}", who, all));
    }
    Ok(())
}

fn history(ops: &[Op]) -> Result<Seen, String> {
    let live = Arc::new(AtomicI64::new(0));
    let (r0, mut w): (R, W) = monomap::with_meta(0u16);
    let mut readers = vec![r0.clone(), r0.factory().handle()];
    let mut now = Plain::new();
    let mut published = Plain::new();
    let (mut meta, mut meta_pub) = (0u16, 0u16);
    let (mut ready, mut dirty) = (false, false);
    let mut acc = 0u64;
    for (i, op) in ops.iter().enumerate() {
        let tag = i as u16 + 1;
        match *op {
            Ins(k) => {
                w.insert(k, Val::new(tag, &live));
                now.insert(k, vec![tag]);
                dirty = true;
            }
            Upd(k) => {
                w.update(k, move |v| v.log.push(tag));
                if let Some(v) = now.get_mut(&k) {
                    v.push(tag)
                }
                dirty = true;
            }
            Rem(k) => {
                w.remove(k);
                now.remove(&k);
                dirty = true;
            }
            Purge => {
                w.purge();
                now.clear();
                dirty = true;
            }
            Extend => {
                w.extend(vec![(2, Val::new(tag, &live)), (1, Val::new(tag, &live))]);
                now.insert(2, vec![tag]);
                now.insert(1, vec![tag]);
                dirty = true;
            }
            InsAll(n) => {
                for k in 0..n {
                    w.insert(k, Val::new(tag, &live));
                    now.insert(k, vec![tag]);
                }
                dirty = true;
            }
            UpdAll(n) => {
                for k in (0..n).rev() {
                    w.update(k, move |v| v.log.push(tag));
                }
                now.values_mut().for_each(|v| v.push(tag));
                dirty = true;
            }
            RemEven(n) => {
                for k in (0..n).step_by(2) {
                    w.remove(k);
                    now.remove(&k);
                }
                dirty = true;
            }
            ExtAll(n) => {
                w.extend((0..n).map(|k| (k, Val::new(tag, &live))).collect::<Vec<_>>());
                now.extend((0..n).map(|k| (k, vec![tag])));
                dirty = true;
            }
            Burst(n) => {
                for j in 0..n {
                    w.update(1, move |v| v.log.push(j));
                    if let Some(v) = now.get_mut(&1) {
                        v.push(j)
                    }
                    if j % 7 == 3 {
                        w.insert(2, Val::new(j, &live));
                        now.insert(2, vec![j]);
                    }
                    if j % 11 == 5 {
                        w.remove(2);
                        now.remove(&2);
                    }
                }
                dirty = true;
            }
            Meta => {
                if w.set_meta(tag) != meta {
                    return Err("set_meta did not return the previous metadata".into());
                }
                meta = tag;
            }
            Refresh => {
                w.refresh();
                published = now.clone();
                meta_pub = meta;
                ready = true;
                dirty = false;
            }
            Flush => {
                w.flush();
                if dirty {
                    published = now.clone();
                    meta_pub = meta;
                    ready = true;
                    dirty = false;
                } else if w.meta() == Some(meta) {
                    // with nothing but metadata to publish, flushing may or may not do it
                    meta_pub = meta;
                    ready = ready || w.meta_get_and(&9, |_| ()).is_some();
                } else {
                    ready = ready || w.meta_get_and(&9, |_| ()).is_some();
                }
            }
            Forget => readers = vec![],
        }
        check(&w, &published, meta_pub, ready, true, "the writer's own handle")?;
        check(&r0, &published, meta_pub, ready, true, "the first handle")?;
        for r in &readers {
            check(r, &published, meta_pub, ready, true, "an old handle")?;
        }
        readers.push(r0.clone());
        acc ^= h(&(i, &published, meta_pub));
    }
    drop(w);
    check(&r0, &Plain::new(), 0, false, false, "after the writer went, a handle")?;
    check(&r0.clone(), &Plain::new(), 0, false, false, "after the writer went, a new handle")?;
    drop((r0, readers));
    if live.load(SeqCst) != 0 {
        return Err(format!("{} values leaked or destroyed twice", live.load(SeqCst)));
    }
    Ok(Seen { hash: acc, transitions: ops.len() as u64 })
}

pub fn c02(run: &'static Run) {
    let alpha = [Ins(1), Ins(2), Upd(1), Upd(2), Rem(1), Rem(2), Purge, Extend, Meta, Refresh, Flush, Forget];
    let narrow = [Ins(1), Upd(1), Rem(1), Purge, Refresh];
    let some = [InsAll(9), UpdAll(9), RemEven(9), ExtAll(9), Purge, Refresh, Flush];
    let many = [InsAll(220), UpdAll(220), RemEven(220), ExtAll(220), Purge, Refresh];
    let bulk = [InsAll(5000), UpdAll(5000), RemEven(5000), Refresh];
    let burst = [Ins(1), Burst(4000), Purge, Refresh];
    let blocks: Vec<(&[Op], usize)> = if run.thorough {
        vec![(&alpha, 6), (&narrow, 10), (&some, 6), (&many, 5), (&bulk, 5), (&burst, 6)]
    } else {
        vec![(&alpha, 5), (&narrow, 8), (&some, 5), (&many, 4), (&bulk, 4), (&burst, 5)]
    };
    for (al, len) in blocks {
        run.bound(format!("all {} histories of length {} over {:?}, observed after every operation", al.len().pow(len as u32), len, al));
        // one job per prefix of two operations
        run.par(al.len() * al.len(), |p| {
            let rest = al.len().pow(len as u32 - 2);
            for c in 0..rest {
                let mut ops = vec![al[p / al.len()], al[p % al.len()]];
                let mut c = c;
                for _ in 2..len {
                    ops.push(al[c % al.len()]);
                    c /= al.len();
                }
                run.case(|| format!("{:?}", ops), || history(&ops));
                if run.stopped() {
                    return;
                }
            }
        });
    }
    run.assume("keys are independent of their numeric value (two keys written, two more only looked up)");
}
