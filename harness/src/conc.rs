//! C01 (tree level) and C05: the real tree code under the exploring scheduler.
use crate::run::{h, Run, Seen};
use crate::sched::{self, explore, Limit};
use crate::trees::*;
use goko::node::CoverNode;
use goko::plugins::{GokoPlugin, NodePlugin};
use goko::*;
use pointcloud::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub type Slot = Arc<Mutex<Result<u64, String>>>;

/// One scenario = one explored program.
pub fn scenario(run: &'static Run, name: &str, bound: Limit, cap: u64, body: impl Fn(Slot) -> Box<dyn FnOnce() + Send>) {
    // --case '<scenario>' explores one scenario; --case '<scenario> schedule [..]' replays one schedule
    if let Some(o) = &run.only {
        if let Some(rest) = o.strip_prefix(&format!("{} schedule ", name)) {
            let prefix: Vec<usize> = serde_json::from_str(rest).unwrap();
            run.case(
                || o.clone(),
                || {
                    let slot = Arc::new(Mutex::new(Ok(0)));
                    let x = sched::run_once(prefix, body(Arc::clone(&slot)));
                    let res = slot.lock().unwrap().clone();
                    match (x.failed, &res) {
                        (Some(m), _) => Err(m),
                        (None, Err(m)) => Err(m.clone()),
                        (None, Ok(v)) => Ok(Seen { hash: *v, transitions: x.steps as u64 }),
                    }
                },
            );
            return;
        }
    }
    let mut bad = None;
    run.case(
        || name.to_string(),
        || {
            let r = explore(bound, cap, &|| { run.touch(); run.stopped() }, &body);
            match r {
                Ok((ex, complete)) => {
                    if !complete {
                        run.incomplete(format!("{}: stopped after {} schedules", name, ex.executions));
                    }
                    run.add_execs(ex.executions.saturating_sub(1));
                    run.add_outcomes(ex.outcomes.iter().map(|o| h(&(name, *o))));
                    run.extra(
                        &format!("scenario {}", name),
                        serde_json::json!({"limit": format!("{:?}", bound), "schedules": ex.executions, "steps": ex.steps,
                            "longest": ex.max_points, "outcomes": ex.outcomes.len(), "complete": complete}),
                    );
                    Ok(Seen { hash: h(name), transitions: ex.steps })
                }
                Err((sch, m)) => {
                    // believe it only if the same schedule fails again
                    let slot = Arc::new(Mutex::new(Ok(0)));
                    let x = sched::run_once(sch.clone(), body(Arc::clone(&slot)));
                    let again = x.failed.is_some() || slot.lock().unwrap().is_err();
                    if m.starts_with("HARNESS") || !again {
                        eprintln!("HARNESS ERROR: schedule of {} did not replay: {}", name, m);
                        std::process::exit(3);
                    }
                    bad = Some((format!("{} schedule {:?}", name, sch), m));
                    Ok(Seen { hash: h(name), transitions: 0 })
                }
            }
        },
    );
    if let Some((c, m)) = bad {
        run.violate(&c, &m);
    }
}

// ------------------------------------------------------------------ C05

/// The recorded path of every point.
fn paths(r: &CoverTreeReader<Cloud>, n: usize) -> Result<Vec<Vec<(f32, NodeAddress)>>, String> {
    (0..n).map(|i| r.known_path(i).map_err(|e| format!("point {} has no recorded path: {:?}", i, e))).collect()
}

pub fn c05(run: &'static Run) {
    let mut jobs: Vec<(Data, Params, Limit)> = vec![];
    let three = [[0.0f32, 1.0, 4.0], [4.0, 1.0, 0.0], [1.0, 4.0, 0.0], [1.0, 1.0, 1.0], [0.0, 0.0, 4.0], [0.0, 4.0, 4.0]];
    let four = [[0.0f32, 1.0, 4.0, 5.0], [5.0, 0.0, 4.0, 1.0], [0.0, 0.0, 4.0, 4.0]];
    let more = [vec![0.0f32, 1.0, 4.0, 5.0, 9.0], vec![0.0, 0.5, 8.0, 8.5, 16.0, 16.5]];
    let q = if run.thorough { 1 } else { 0 };
    for d in three.iter() {
        // few layers: deeper schedules; more layers: fewer preemptions
        for p in params_grid(&[2.0], &[0], &[1], &[0]) {
            jobs.push((Data::d1(d), p, Limit::Preempt(if p.singles { 2 } else { 1 } + q)));
        }
        for p in params_grid(&[2.0], &[0, 1], &[0], &[0]) {
            jobs.push((Data::d1(d), p, Limit::Preempt(1 + q)));
        }
    }
    for (k, d) in four.iter().enumerate() {
        for p in params_grid(&[4.0], &[0], &[1], &[0]) {
            jobs.push((Data::d1(d), p, if k == 0 { Limit::Deviate(2 + q) } else { Limit::Preempt(1 + q) }));
        }
        for p in params_grid(&[2.0], &[0, 1], &[1], &[0]) {
            jobs.push((Data::d1(d), p, if k == 0 { Limit::Deviate(2 + q) } else { Limit::Preempt(q) }));
        }
    }
    for d in more.iter() {
        for p in params_grid(&[4.0], &[1], &[1], &[0, 5]) {
            jobs.push((Data::d1(d), p, Limit::Deviate(2 + q)));
        }
    }
    run.bound(format!("{} builds, every schedule of coordinator and workers with at most the stated number of preemptions", jobs.len()));
    let cap = if run.thorough { 1_500_000 } else { 60_000 };
    run.par(jobs.len(), |i| {
        let (d, p, bound) = &jobs[i];
        let (want, want_paths) = match build(d, p).and_then(|t| Ok((snap(&t.reader())?, paths(&t.reader(), d.n())?))) {
            Ok(w) => w,
            Err(e) => {
                run.violate(&format!("{:?} {:?}", d.pts, p), &e);
                return;
            }
        };
        let name = format!("{:?} {:?}", d.pts, p);
        scenario(run, &name, *bound, cap, |slot| {
            let (d, p, want, want_paths) = (d.clone(), *p, want.clone(), want_paths.clone());
            Box::new(move || {
                let r = (|| {
                    let t = builder(&p).build(d.cloud()).map_err(|e| format!("{:?}", e))?;
                    // the comparison itself is not part of the program being interleaved
                    sched::quietly(|| {
                    let got = check_structure(&t.reader(), &(0..d.n()).collect::<Vec<_>>())?;
                    if got != want {
                        return Err(format!("this schedule gives another tree: {:?} instead of {:?}", got, want));
                    }
                    let got_paths = paths(&t.reader(), d.n())?;
                    if got_paths != want_paths {
                        return Err(format!("this schedule records other paths: {:?} instead of {:?}", got_paths, want_paths));
                    }
                    Ok(got.hash())
                    })
                })();
                *slot.lock().unwrap() = r;
            })
        });
    });
    // The outcome must not depend on anything else either: the real pool, and a second build in the same process.
    let sets: Vec<Data> = structured().into_iter().map(|x| x.1).collect();
    let ps = params_grid(&[2.0, 1.3], &[0, 1, 5], &[-6, 0], &[0, 1, 12345]);
    run.bound(format!("{} structured data sets x {} parameter settings built inline and on the real thread pool, compared", sets.len(), ps.len()));
    let mut pairs: Vec<(Data, Params)> = vec![];
    // the large ones first, they take longest
    for seed in [0u64, 7, u64::MAX].iter() {
        pairs.extend(line70001_params().into_iter().map(|p| (line70001(), Params { seed: *seed, ..p })));
        pairs.extend(pairs8600_params().into_iter().map(|p| (pairs8600(), Params { seed: *seed, ..p })));
    }
    run.bound(format!("{} large builds (8600 and 70001 points) likewise", pairs.len()));
    pairs.extend(sets.iter().flat_map(|d| ps.iter().map(move |p| (d.clone(), *p))));
    run.par(pairs.len(), |k| {
        let (d, p) = (&pairs[k].0, &pairs[k].1);
        run.case(|| format!("pool {} {:?} {:?}", d.n(), d.pts.get(1), p), || {
            let (ta, tb) = (build(d, p)?, builder(p).build(d.cloud()).map_err(|e| format!("{:?}", e))?);
            let (a, b) = (snap(&ta.reader())?, snap(&tb.reader())?);
            if a != b {
                return Err("two builds with the same seed differ".into());
            }
            if paths(&ta.reader(), d.n())? != paths(&tb.reader(), d.n())? {
                return Err("two builds with the same seed record different paths".into());
            }
            Ok(Seen { hash: a.hash(), transitions: a.nodes.len() as u64 })
        });
    });
}

// ------------------------------------------------------------------ C01, tree level

static NEXT: AtomicU64 = AtomicU64::new(1);

/// Which node components have been destroyed.
fn dead() -> &'static Mutex<HashSet<u64>> {
    static D: std::sync::OnceLock<Mutex<HashSet<u64>>> = std::sync::OnceLock::new();
    D.get_or_init(Default::default)
}

#[derive(Debug)]
struct Comp {
    id: u64,
    version: u64,
    below: usize,
}
impl Comp {
    fn new(version: u64, below: usize) -> Comp {
        Comp { id: NEXT.fetch_add(1, SeqCst), version, below }
    }
}
impl Clone for Comp {
    fn clone(&self) -> Comp {
        Comp::new(self.version, self.below)
    }
}
impl Drop for Comp {
    fn drop(&mut self) {
        dead().lock().unwrap().insert(self.id);
    }
}
impl<D: PointCloud> NodePlugin<D> for Comp {}

#[derive(Debug, Clone)]
struct Stamp(u64);
impl<D: PointCloud> GokoPlugin<D> for Stamp {
    type NodeComponent = Comp;
    fn node_component(p: &Self, n: &CoverNode<D>, _t: &CoverTreeReader<D>) -> Option<Comp> {
        Some(Comp::new(p.0, n.coverage_count()))
    }
}

/// What one read of one node saw; the node must stay as it is for the duration of the read.
fn look(r: &CoverTreeReader<Cloud>, a: NodeAddress, inner: &mut dyn FnMut()) -> Option<u64> {
    r.get_node_and(a, |n| {
        let v = n.get_plugin_and::<Comp, _, _>(|c| (c.id, c.version));
        let kids = n.children().map(|x| (x.0, x.1.to_vec()));
        sched::step();
        inner();
        sched::step();
        if let Some((id, _)) = v {
            assert!(!dead().lock().unwrap().contains(&id), "a node component was destroyed while it was being read");
        }
        assert!(n.get_plugin_and::<Comp, _, _>(|c| (c.id, c.version)) == v, "a node changed while it was being read");
        assert!(n.children().map(|x| (x.0, x.1.to_vec())) == kids, "a node changed while it was being read");
        v.map(|x| x.1).unwrap_or(0)
    })
}
/// All nodes of a layer in one read.
fn look_layer(r: &CoverTreeReader<Cloud>, si: i32) -> Option<u64> {
    let mut vs: Vec<(u64, u64)> = vec![];
    r.layer(si).for_each_node(|_, n| {
        vs.push(n.get_plugin_and::<Comp, _, _>(|c| (c.version, c.id)).unwrap_or((0, 0)));
        sched::step();
    });
    assert!(vs.iter().all(|v| v.0 == vs[0].0), "one read of a layer saw nodes of different publishes: {:?}", vs);
    vs.first().map(|v| v.0)
}

fn in_order(seen: &[Option<u64>], max: u64, may_vanish: bool) {
    let mut last = 0;
    let mut gone = false;
    for s in seen {
        match s {
            Some(v) => {
                assert!(!gone, "a discarded tree came back: {:?}", seen);
                assert!(*v >= last && *v <= max, "publishes seen out of order: {:?}", seen);
                last = *v;
            }
            None => {
                assert!(may_vanish, "a node of the tree was not found: {:?}", seen);
                gone = true;
            }
        }
    }
}

fn small_tree() -> (Data, CoverTreeWriter<Cloud>, Snap) {
    let d = Data::d1(&[0.0, 1.0, 4.0]);
    let p = Params { base: 2.0, cutoff: 0, min_res: 1, singles: false, first: false, seed: 0 };
    let t = build(&d, &p).unwrap();
    let s = snap(&t.reader()).unwrap();
    (d, t, s)
}

struct Send_<T>(T);
unsafe impl<T> Send for Send_<T> {}
impl<T> Send_<T> {
    fn get(self) -> T {
        self.0
    }
}

pub fn c01_tree(run: &'static Run) {
    let bound = if run.thorough { 3 } else { 2 };
    let cap = if run.thorough { 400_000 } else { 8_000 };
    // The tree is built outside the scheduler; only what happens afterwards is interleaved.
    type Body = fn(CoverTreeWriter<Cloud>, Snap, Slot);
    let list: Vec<(&str, Body)> = vec![
        ("tree: attach twice, read a node twice", |mut t, s, slot| {
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let seen = [look(&r, a, &mut || {}), look(&r, a, &mut || {})];
                in_order(&seen, 2, false);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            t.add_plugin(Stamp(1));
            t.add_plugin(Stamp(2));
            j.join();
        }),
        ("tree: attach twice, read a layer twice", |mut t, s, slot| {
            let r = t.reader();
            let si = *s.nodes.keys().map(|a| &a.0).min().unwrap();
            let j = sched::spawn(move || {
                let seen = [look_layer(&r, si), look_layer(&r, si)];
                in_order(&seen, 2, false);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            t.add_plugin(Stamp(1));
            t.add_plugin(Stamp(2));
            j.join();
        }),
        ("tree: discarded while being read", |mut t, s, slot| {
            t.add_plugin(Stamp(1));
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let seen = [look(&r, a, &mut || {}), look(&r, a, &mut || {})];
                in_order(&seen, 1, true);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            drop(t);
            j.join();
        }),
        ("tree: attach then discard while being read", |mut t, s, slot| {
            t.add_plugin(Stamp(1));
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let seen = [look(&r, a, &mut || {})];
                in_order(&seen, 2, true);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            t.add_plugin(Stamp(2));
            drop(t);
            j.join();
        }),
        ("tree: nested reads on one handle", |mut t, s, slot| {
            t.add_plugin(Stamp(1));
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let mut inner = None;
                let outer = look(&r, a, &mut || inner = Some(look(&r, a, &mut || {})));
                let seen = [outer, inner.unwrap()];
                in_order(&seen, 3, false);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            t.add_plugin(Stamp(2));
            t.add_plugin(Stamp(3));
            j.join();
        }),
        ("tree: handle cloned while attaching", |mut t, s, slot| {
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let x = look(&r, a, &mut || {});
                let r2 = r.clone();
                let seen = [x, look(&r2, a, &mut || {})];
                in_order(&seen, 2, false);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            t.add_plugin(Stamp(1));
            t.add_plugin(Stamp(2));
            j.join();
        }),
        ("tree: handle taken inside a read while attaching", |mut t, s, slot| {
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let mut r2 = None;
                let x = look(&r, a, &mut || r2 = Some(r.clone()));
                let seen = [x, look(&r2.unwrap(), a, &mut || {})];
                in_order(&seen, 2, false);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            t.add_plugin(Stamp(1));
            t.add_plugin(Stamp(2));
            j.join();
        }),
        ("tree: handle taken inside a read while discarding", |mut t, s, slot| {
            t.add_plugin(Stamp(1));
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let mut r2 = None;
                let x = look(&r, a, &mut || r2 = Some(r.clone()));
                let seen = [x, r2.and_then(|r2| look(&r2, a, &mut || {}))];
                in_order(&seen, 1, true);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            drop(t);
            j.join();
        }),
        ("tree: a read panics, the writer still finishes", |mut t, s, slot| {
            let r = t.reader();
            let a = s.root;
            let j = sched::spawn(move || {
                let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    r.get_node_and(a, |_| {
                        sched::step();
                        panic!("reader gives up")
                    })
                }));
                assert!(p.is_err());
                let seen = [look(&r, a, &mut || {})];
                in_order(&seen, 2, false);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            t.add_plugin(Stamp(1));
            t.add_plugin(Stamp(2));
            j.join();
        }),
        ("tree: recorded paths stay available while they are redone", |mut t, _s, slot| {
            let r = t.reader();
            let j = sched::spawn(move || {
                let mut seen = vec![];
                for i in [0usize, 2].iter() {
                    seen.push(r.known_path(*i).map(|p| p.len()).map_err(|e| format!("point {} lost its recorded path: {:?}", i, e)));
                }
                *slot.lock().unwrap() = seen.into_iter().collect::<Result<Vec<_>, _>>().map(|v| h(&v));
            });
            t.refresh_final_indexes();
            j.join();
        }),
        ("tree: two readers", |mut t, s, slot| {
            let (r, r2) = (t.reader(), t.reader());
            let a = s.root;
            let si = *s.nodes.keys().map(|a| &a.0).min().unwrap();
            let j = sched::spawn(move || {
                let seen = [look(&r, a, &mut || {})];
                in_order(&seen, 2, false);
                *slot.lock().unwrap() = Ok(h(&seen));
            });
            let j2 = sched::spawn(move || {
                let seen = [look_layer(&r2, si)];
                in_order(&seen, 2, false);
            });
            t.add_plugin(Stamp(1));
            t.add_plugin(Stamp(2));
            j.join();
            j2.join();
        }),
    ];
    run.bound(format!("{} writer/reader programs over a real tree, all schedules with at most {} preemptions", list.len(), bound));
    run.par(list.len(), |i| {
        let (name, body) = list[i];
        let bound = if name.ends_with("two readers") { bound - 1 } else { bound };
        scenario(run, name, Limit::Preempt(bound), cap, |slot| {
            let (_d, t, s) = small_tree();
            let t = Send_(t);
            Box::new(move || body(t.get(), s, slot))
        });
    });
}

/// Counts how often the writer looks, without giving up the processor in between.
struct Count(AtomicU64);
impl goko::verif_sync::Controller for Count {
    fn point(&self) {}
    fn yield_now(&self) {
        self.0.fetch_add(1, SeqCst);
    }
    fn block_until(&self, ready: &dyn Fn() -> bool) {
        while !ready() {
            std::thread::yield_now()
        }
    }
    fn spawn(&self, f: Box<dyn FnOnce() + Send>) {
        std::thread::spawn(f);
    }
}

/// However long a read lasts: the writer keeps waiting for it, counted neither in attempts nor in time.
pub fn c01_long_reads(run: &'static Run) {
    let (least, most) = if run.thorough { (60, 90) } else { (3, 8) };
    let looks = if run.thorough { 200_000_000 } else { 5_000_000 };
    // (readers, which of them reads): a writer that waits for some of its readers only
    let crowds: Vec<(usize, usize)> = [2usize, 5, 9, 17, 33, 65, 129, 257, 1025].iter().flat_map(|n| vec![(*n, *n - 1), (*n, *n / 2), (*n, 0)]).collect();
    let names = ["publishes again", "discards the tree", "publishes and discards the tree", "discards the tree, everything published"];
    run.bound(format!("{} programs in which the writer has to wait for one read (real threads) for {} s and {} attempts, {} s at most", names.len(), least, looks, most));
    run.bound(format!("the same with 2 to 1025 readers of which the first, the middle or the last one reads, {} programs of 0.1 s", names.len() * crowds.len()));
    let mut jobs: Vec<(usize, Option<(usize, usize)>)> = (0..names.len()).map(|i| (i, None)).collect();
    jobs.extend(crowds.iter().flat_map(|c| (0..names.len()).map(move |i| (i, Some(*c)))));
    run.par(jobs.len(), |job| {
        let (i, crowd) = jobs[job];
        run.case(|| format!("long read while the writer {}{}", names[i], crowd.map(|(n, k)| format!(", reader {} of {}", k, n)).unwrap_or_default()), || {
            let (_d, mut t, s) = small_tree();
            t.add_plugin(Stamp(1));
            if i == 3 {
                // nothing is left to hand over when the tree goes away
                t.refresh();
                t.refresh();
            }
            let (least, most, looks) = match crowd {
                None => (least * 1000, most * 1000, looks),
                Some(_) => (100, 2000, 2000),
            };
            let (n, k) = crowd.unwrap_or((1, 0));
            let mut others: Vec<_> = (0..n).map(|_| t.reader()).collect();
            let (r, r2, a) = (Send_(others.remove(k)), t.reader(), s.root);
            let (tx, rx) = std::sync::mpsc::channel();
            let count: &'static Count = Box::leak(Box::new(Count(AtomicU64::new(0))));
            let j = std::thread::spawn(move || -> Result<u64, String> {
                let r = r.get();
                let t0 = std::time::Instant::now();
                r.get_node_and(a, |n| {
                    let v = n.get_plugin_and::<Comp, _, _>(|c| (c.id, c.version)).ok_or("no component")?;
                    let kids = n.children().map(|x| (x.0, x.1.to_vec()));
                    tx.send(()).unwrap();
                    loop {
                        let (s, n) = (t0.elapsed().as_millis() as u64, count.0.load(SeqCst));
                        if s >= most || (s >= least && n >= looks) {
                            break;
                        }
                        run.touch();
                        if dead().lock().unwrap().contains(&v.0) {
                            return Err(format!("the node being read was destroyed or rewritten {:?} into the read, after the writer had looked {} times", t0.elapsed(), n));
                        }
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                    if dead().lock().unwrap().contains(&v.0) || n.children().map(|x| (x.0, x.1.to_vec())) != kids {
                        return Err("the node being read changed during the read".into());
                    }
                    Ok(count.0.load(SeqCst))
                })
                .ok_or("the root was not found")?
            });
            rx.recv().map_err(|_| "the reader failed".to_string())?;
            let r = (|| {
                goko::verif_sync::enter(Some(count));
                if i != 1 && i != 3 {
                    t.add_plugin(Stamp(2));
                    t.add_plugin(Stamp(3));
                    let v = r2.get_node_and(a, |n| n.get_plugin_and::<Comp, _, _>(|c| c.version)).flatten();
                    if v != Some(3) {
                        return Err(format!("the last publish is not visible: {:?}", v));
                    }
                }
                if i != 0 {
                    drop(t);
                    if r2.get_node_and(a, |_| ()).is_some() {
                        return Err("a discarded tree is still readable".into());
                    }
                }
                Ok(())
            })();
            goko::verif_sync::enter(None);
            let looked = j.join().map_err(|_| "the reader panicked".to_string())??;
            r?;
            drop(others);
            if crowd.is_none() {
                run.extra(&format!("attempts of the writer that {}", names[i]), serde_json::json!(looked));
            }
            Ok(Seen { hash: h(&(names[i], crowd)), transitions: looked })
        });
    });
}

/// The map itself under loom: all interleavings and weak-memory outcomes.
pub fn c01_loom(run: &'static Run) {
    let bin = match std::env::var("VERIF_LOOM_BIN") {
        Ok(b) => b,
        Err(_) => {
            // the map's sources do not compile outside the crate any more: the schedules over real trees decide alone
            run.incomplete("loom: the map module could not be compiled on its own".into());
            return;
        }
    };
    let names = ["insert", "update", "first", "drop", "update_drop", "pending_drop", "nested", "nested_drop", "clone", "clone_inside", "clone_inside_drop", "factory_drop", "two", "purge"];
    let bound = |n: &str| match (run.thorough, n) {
        (false, "two") | (false, "update_drop") => 2,
        (false, _) => 3,
        (true, "two") | (true, "update_drop") => 4,
        (true, _) => 5,
    };
    run.bound("14 writer/reader programs over the map under loom (C11 memory model), preemption bound 3 (2 for the two largest; thorough: 5 and 4)");
    run.par(names.len(), |i| {
        let n = names[i];
        run.case(|| format!("loom {}", n), || {
            let lim = if run.thorough { 7000 } else { 110 };
            let out = std::process::Command::new("timeout")
                .args(["-k", "5", &lim.to_string(), &bin, n, &bound(n).to_string()])
                .env("RUST_BACKTRACE", "0")
                .stdin(std::process::Stdio::null())
                .output()
                .map_err(|e| format!("{}", e))?;
            let so = String::from_utf8_lossy(&out.stdout).to_string();
            let se = String::from_utf8_lossy(&out.stderr).to_string();
            match out.status.code() {
                Some(0) => {}
                // (a program that never ends exceeds loom's bound on the length of an execution instead)
                Some(124) | Some(137) => {
                    run.incomplete(format!("loom {}: not finished within {} s", n, lim));
                    return Ok(Seen { hash: h(n), transitions: 1 });
                }
                Some(2) => {
                    eprintln!("HARNESS ERROR: {}", se);
                    std::process::exit(3);
                }
                _ => {
                    let m: String = se.chars().take(1500).collect();
                    return Err(format!("loom: {}", m));
                }
            }
            let field = |k: &str| so.split_whitespace().find_map(|w| w.strip_prefix(k)).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
            let (e, o) = (field("executions="), field("outcomes="));
            run.add_execs(e.saturating_sub(1));
            run.add_outcomes(so.lines().filter(|l| l.starts_with("outcome ")).map(|l| h(&(n, l))));
            run.extra(&format!("loom {}", n), serde_json::json!({"preemption_bound": bound(n), "executions": e, "outcomes": o}));
            Ok(Seen { hash: h(n), transitions: e })
        });
    });
}
