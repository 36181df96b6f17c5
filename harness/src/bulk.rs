//! C09: bulk queries against single ones. C12: a failing point source.
use crate::conc::scenario;
use crate::faulty::Faulty;
use pointcloud::{Metric, PointCloud, L2};
use crate::inline::inline;
use crate::run::{h, Run, Seen};
use crate::sched::{self, Limit};
use crate::trees::*;
use goko::query_interface::BulkInterface;
use goko::*;
use ndarray::{Array2, ArrayView2, Axis, ShapeBuilder};
use std::sync::Arc;

type Knn = Vec<(f32, usize)>;
type Path = Vec<(f32, NodeAddress)>;
fn show<T: std::fmt::Debug>(r: &errors::GokoResult<T>) -> String {
    format!("{:?}", r)
}

fn same(what: &str, got: Vec<String>, want: Vec<String>) -> Result<u64, String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} results for {} inputs", what, got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w {
            return Err(format!("{}: result {} of {} is {}, the single query gives {}", what, i, want.len(), g, w));
        }
    }
    Ok(got.len() as u64)
}

fn bulk_all(t: &CoverTreeWriter<Cloud>, d: &Data, size: usize) -> Result<Seen, String> {
    let r = t.reader();
    let b = BulkInterface::new(t.reader());
    // every input differs from its neighbours, a few are unknown
    let idx: Vec<usize> = (0..size).map(|i| if i % 37 == 11 { d.n() + i } else { (i * 7) % d.n() }).collect();
    let pts: Vec<Vec<f32>> = (0..size).map(|i| d.pts[(i * 5) % d.n()].iter().map(|x| x + (i % 9) as f32 * 0.25).collect()).collect();
    let refs: Vec<&[f32]> = pts.iter().map(|p| &p[..]).collect();
    let mut n = 0;
    n += same("known_path", b.known_path(&idx).iter().map(show).collect(), idx.iter().map(|i| show(&r.known_path(*i))).collect())?;
    n += same(
        "known_path_and",
        b.known_path_and(&idx, |rr, p| format!("{:?} {:?}", rr.root_address(), p)),
        idx.iter().map(|i| format!("{:?} {:?}", r.root_address(), r.known_path(*i))).collect(),
    )?;
    n += same(
        "index_map_with_reader",
        b.index_map_with_reader(&idx, |rr, i| format!("{} {}", i, rr.node_count())),
        idx.iter().map(|i| format!("{} {}", i, r.node_count())).collect(),
    )?;
    n += same(
        "point_map_with_reader",
        b.point_map_with_reader(&refs, |rr, p| format!("{:?} {}", p, rr.node_count())),
        refs.iter().map(|p| format!("{:?} {}", p, r.node_count())).collect(),
    )?;
    n += same("path", b.path(&refs).iter().map(show).collect(), refs.iter().map(|p| show(&r.path(p))).collect())?;
    for k in [0usize, 1, 3].iter() {
        n += same("knn", b.knn(&refs, *k).iter().map(show).collect(), refs.iter().map(|p| show(&r.knn(p, *k))).collect())?;
        n += same("routing_knn", b.routing_knn(&refs, *k).iter().map(show).collect(), refs.iter().map(|p| show(&r.routing_knn(p, *k))).collect())?;
    }
    // owned points behave like borrowed ones
    n += same("path of owned points", b.path(&pts).iter().map(show).collect(), refs.iter().map(|p| show(&r.path(p))).collect())?;
    Ok(Seen { hash: h(&(size, n)), transitions: n })
}

/// Array views of the same logical rows in different memory layouts.
fn layouts(rows: usize, dim: usize, f: &mut dyn FnMut(&str, ArrayView2<f32>, Vec<Vec<f32>>) -> Result<(), String>) -> Result<(), String> {
    let val = |i: usize, j: usize| (i % 23) as f32 * 0.5 + j as f32 * 2.0 - 1.0;
    let want: Vec<Vec<f32>> = (0..rows).map(|i| (0..dim).map(|j| val(i, j)).collect()).collect();
    let c = Array2::from_shape_fn((rows, dim), |(i, j)| val(i, j));
    f("row major", c.view(), want.clone())?;
    let fo = Array2::from_shape_fn((rows, dim).f(), |(i, j)| val(i, j));
    f("column major", fo.view(), want.clone())?;
    let tr = Array2::from_shape_fn((dim, rows), |(j, i)| val(i, j));
    f("transposed", tr.t(), want.clone())?;
    let wide = Array2::from_shape_fn((rows * 2, dim * 3), |(i, j)| if i % 2 == 0 && j % 3 == 0 { val(i / 2, j / 3) } else { 1e6 });
    f("every second row, every third column", wide.slice(ndarray::s![..;2, ..;3]), want.clone())?;
    let mut rev = c.view();
    rev.invert_axis(Axis(0));
    f("rows reversed", rev, want.iter().rev().cloned().collect())?;
    let mut rc = c.view();
    rc.invert_axis(Axis(1));
    f("columns reversed", rc, want.iter().map(|r| r.iter().rev().copied().collect()).collect())?;
    if rows > 0 {
        let one = Array2::from_shape_fn((1, dim), |(i, j)| val(i, j));
        let b = one.broadcast((rows, dim)).unwrap();
        f("one row repeated", b, vec![want[0].clone(); rows])?;
        let col = Array2::from_shape_fn((rows, 1), |(i, j)| val(i, j));
        let b = col.broadcast((rows, dim)).unwrap();
        f("one column repeated", b, want.iter().map(|r| vec![r[0]; dim]).collect())?;
    }
    Ok(())
}

fn arrays(t: &CoverTreeWriter<Cloud>, dim: usize, rows: usize) -> Result<Seen, String> {
    let r = t.reader();
    let b = BulkInterface::new(t.reader());
    let mut n = 0;
    layouts(rows, dim, &mut |name, view, want| {
        n += same(
            &format!("array of {} rows, {}", rows, name),
            b.array_map_with_reader(view.clone(), |rr, p| format!("{:?} {:?} {:?}", p, rr.knn(p, 2), rr.path(p))),
            want.iter().map(|p| { let p = &p[..]; format!("{:?} {:?} {:?}", p, r.knn(&p, 2), r.path(&p)) }).collect(),
        )?;
        Ok(())
    })?;
    Ok(Seen { hash: h(&(rows, dim, n)), transitions: n })
}

pub fn c09(run: &'static Run) {
    let sets: Vec<(&str, Data)> = structured().into_iter().filter(|x| ["line25", "grid36", "scatter16", "dups"].contains(&x.0)).collect();
    let ps = params_grid(&[2.0], &[1], &[-3], &[0]);
    let mut sizes: Vec<usize> = if run.thorough { (0..=520).collect() } else { (0..=34).chain(62..=66).chain(95..=105).chain(126..=130).chain(195..=205).chain(254..=258).chain(295..=302).chain(vec![400, 401, 511, 512, 513]).collect() };
    sizes.extend(&[999usize, 1000, 1001, 1024, 1025, 2048, 3001]);
    run.bound(format!("{} trees x {} batch sizes ({}..{}, all around the chunk boundaries), every bulk query; 8 memory layouts per array", sets.len() * ps.len(), sizes.len(), sizes[0], sizes[sizes.len() - 1]));
    // trees can not be shared between threads, so each job builds its own
    run.par(sets.len() * ps.len() * sizes.len(), |k| {
        let size = sizes[k % sizes.len()];
        let (name, d) = &sets[(k / sizes.len()) % sets.len()];
        let p = &ps[k / sizes.len() / sets.len()];
        run.case(|| format!("{} {:?} batch {}", name, p, size), || bulk_all(&build(d, p)?, d, size));
        run.case(|| format!("{} {:?} array {}", name, p, size), || arrays(&build(d, p)?, d.dim, size));
    });
    // very large batches
    let huge = if run.thorough { 100_003 } else { 12_011 };
    run.bound(format!("{} trees, batches of {}", sets.len(), huge));
    run.par(sets.len(), |k| {
        let (name, d) = &sets[k];
        run.case(|| format!("{} {:?} batch {}", name, ps[0], huge), || bulk_all(&build(d, &ps[0])?, d, huge));
        run.case(|| format!("{} {:?} array {}", name, ps[0], huge), || arrays(&build(d, &ps[0])?, d.dim, huge));
    });
    // inside pools of other sizes, and called from inside a pool
    for threads in [1usize, 2, 3].iter() {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*threads).build().unwrap();
        let d = &sets[0].1;
        for size in [0usize, 1, 99, 100, 101, 250].iter() {
            run.case(|| format!("pool of {} threads, batch {}", threads, size), || {
                pool.install(|| bulk_all(&build(d, &ps[0])?, d, *size))
            });
        }
    }
}

// ------------------------------------------------------------------ C12

struct Op {
    name: String,
    run: Box<dyn Fn(&CoverTreeReader<Faulty>) -> Vec<Result<String, String>>>,
}
fn one<T: std::fmt::Debug>(r: errors::GokoResult<T>) -> Vec<Result<String, String>> {
    vec![many(r)]
}
fn many<T: std::fmt::Debug>(r: errors::GokoResult<T>) -> Result<String, String> {
    r.map(|x| format!("{:?}", x)).map_err(|e| format!("{:?}", e))
}

fn ops(d: &Data, idx: &[usize]) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut qs: Vec<Vec<f32>> = d.pts.clone();
    qs.dedup();
    qs.truncate(3);
    qs.push(d.pts[0].iter().map(|x| x + 0.5).collect());
    for q in qs.iter() {
        for k in [1usize, 2, d.n()].iter() {
            let (a, k) = (q.clone(), *k);
            v.push(Op { name: format!("knn {:?} {}", q, k), run: Box::new(move |r| one::<Knn>(r.knn(&&a[..], k))) });
            let a = q.clone();
            v.push(Op { name: format!("routing_knn {:?} {}", q, k), run: Box::new(move |r| one::<Knn>(r.routing_knn(&&a[..], k))) });
        }
        let a = q.clone();
        v.push(Op { name: format!("path {:?}", q), run: Box::new(move |r| one::<Path>(r.path(&&a[..]))) });
    }
    for i in idx.iter().take(4) {
        let i = *i;
        v.push(Op { name: format!("known_path {}", i), run: Box::new(move |r| one::<Path>(r.known_path(i))) });
    }
    let a = qs.clone();
    v.push(Op {
        name: "bulk knn".into(),
        run: Box::new(move |r| {
            let p: Vec<&[f32]> = a.iter().map(|x| &x[..]).collect();
            BulkInterface::new(r.clone()).knn(&p, 2).into_iter().map(many).collect()
        }),
    });
    let a = qs.clone();
    v.push(Op {
        name: "bulk routing_knn".into(),
        run: Box::new(move |r| {
            let p: Vec<&[f32]> = a.iter().map(|x| &x[..]).collect();
            BulkInterface::new(r.clone()).routing_knn(&p, 2).into_iter().map(many).collect()
        }),
    });
    let a = qs;
    v.push(Op {
        name: "bulk path".into(),
        run: Box::new(move |r| {
            let p: Vec<&[f32]> = a.iter().map(|x| &x[..]).collect();
            BulkInterface::new(r.clone()).path(&p).into_iter().map(many).collect()
        }),
    });
    let i = idx.to_vec();
    v.push(Op { name: "bulk known_path".into(), run: Box::new(move |r| BulkInterface::new(r.clone()).known_path(&i).into_iter().map(many).collect()) });
    v
}

/// Every single failing access (and, when `pairs`, every pair) of one operation.
fn fail_op(c: &Faulty, r: &CoverTreeReader<Faulty>, op: &Op, pairs: bool) -> Result<u64, String> {
    let normal = { c.arm(usize::MAX, usize::MAX); (op.run)(r) };
    let total = c.disarm();
    if let Some(e) = normal.iter().find_map(|x| x.as_ref().err()) {
        return Err(format!("{} fails without a fault: {}", op.name, e));
    }
    let mut n = 0;
    let mut one = |a: usize, b: usize| -> Result<(), String> {
        n += 1;
        c.arm(a, b);
        let got = (op.run)(r);
        let used = c.disarm();
        let hit = (a < used) as usize + (b < used && b != a) as usize;
        let errs = got.iter().filter(|x| x.is_err()).count();
        if hit > 0 && (errs == 0 || errs > hit) {
            return Err(format!("{}: access {} fails, {} of {} answers are errors: {:?}", op.name, a, errs, got.len(), got));
        }
        if hit == 0 && errs > 0 {
            return Err(format!("{}: nothing failed but the answer is {:?}", op.name, got));
        }
        if got.len() != normal.len() {
            return Err(format!("{}: access {} fails, {} instead of {} answers", op.name, a, got.len(), normal.len()));
        }
        for (g, w) in got.iter().zip(&normal) {
            if g.is_ok() && g != w {
                return Err(format!("{}: access {} fails, answer {:?} instead of {:?}", op.name, a, g, w));
            }
        }
        let again = (op.run)(r);
        if again != normal {
            return Err(format!("{}: after a failure at access {} the answer is {:?} instead of {:?}", op.name, a, again, normal));
        }
        Ok(())
    };
    for a in 0..total {
        one(a, usize::MAX)?;
        if pairs {
            for b in a + 1..total {
                one(a, b)?;
            }
        }
    }
    Ok(n)
}

/// One unreadable point among so many that distances are taken in parallel chunks of the usual size.
fn large_faults(run: &'static Run) {
    use std::sync::atomic::Ordering::SeqCst;
    let spots = |n: usize| -> Vec<usize> { (0..n).filter(|i| n <= 310 || *i < 3 || *i + 60 >= n || i % 100 < 2 || i % 100 == 99 || i % 37 == 5).collect() };
    let sizes = [99usize, 101, 299, 300, 301, 302, 310, 401, 999, 1000, 1001, 1050, 1203, 3333];
    run.bound(format!("batches of {:?} distances with one unreadable point: every position up to 310, then those around the chunk borders and the last 60", sizes));
    run.par(sizes.len() * 2, |k| {
        let (n, pool) = (sizes[k / 2], k % 2 == 1);
        run.case(|| format!("batch of {} pool {}", n, pool), || {
            let d = Data { dim: 2, pts: (0..n).map(|i| vec![i as f32, (i * 7 % 13) as f32]).collect() };
            let c = Faulty::new(&d, (0..n).collect());
            let x = &[0.5f32, 3.0][..];
            let batch: Vec<usize> = (0..n).collect();
            let want: Vec<f32> = (0..n).map(|i| L2::dist(x, &d.pts[i][..])).collect();
            let f = || if pool { c.distances_to_point(&x, &batch) } else { inline(|| c.distances_to_point(&x, &batch)) };
            let mut t = 0;
            for g in spots(n) {
                run.touch();
                c.gone.store(g, SeqCst);
                if let Ok(v) = f() {
                    return Err(format!("the point at {} cannot be read, the answer has {} distances", g, v.len()));
                }
                t += 1;
            }
            c.gone.store(usize::MAX, SeqCst);
            match f() {
                Ok(v) if v == want => Ok(Seen { hash: h(&(n, pool)), transitions: t + 1 }),
                r => Err(format!("afterwards: {:?}", r.map(|v| v.len()))),
            }
        });
    });
    let n = 1203usize;
    run.bound(format!("trees of {} points, all own points of one leaf or children of one node: the same positions unreadable in the build and in every query", n));
    let line = Data::d1(&(0..n).map(|i| (i * 77 % n) as f32 * 2.0).collect::<Vec<_>>());
    let trees = [
        Params { base: 2.0, cutoff: 2000, min_res: -1, singles: true, first: false, seed: 0 },
        Params { base: 4.0 * n as f32, cutoff: 0, min_res: -1, singles: false, first: false, seed: 0 },
        Params { base: 4.0 * n as f32, cutoff: 0, min_res: -1, singles: true, first: true, seed: 0 },
    ];
    run.par(trees.len(), |k| {
        let p = &trees[k];
        let c = Arc::new(Faulty::new(&line, (0..n).collect()));
        let t = match build_on(Arc::clone(&c), p) {
            Ok(t) => t,
            Err(e) => {
                run.case(|| format!("build of {} {:?}", n, p), || Err(format!("{:?}", e)));
                return;
            }
        };
        let r = t.reader();
        run.case(|| format!("builds of {} {:?}", n, p), || {
            let mut done = 0;
            for g in spots(n).into_iter().filter(|g| g % 5 == 0 || n - g < 12) {
                run.touch();
                let c = Arc::new(Faulty::new(&line, (0..n).collect()));
                c.gone.store(g, SeqCst);
                let r = build_on(Arc::clone(&c), p);
                if r.is_ok() && c.tried.load(SeqCst) > 0 {
                    return Err(format!("the point at {} cannot be read but the build reports success", g));
                }
                if r.is_err() && c.tried.load(SeqCst) == 0 {
                    return Err(format!("the build fails without a failing access: {:?}", r.err()));
                }
                done += 1;
            }
            Ok(Seen { hash: h(&k), transitions: done })
        });
        for op in ops(&line, &(0..n).collect::<Vec<_>>()).into_iter().filter(|o| !o.name.starts_with("bulk")) {
            run.case(|| format!("{} on {} points {:?}", op.name, n, p), || {
                let normal = (op.run)(&r);
                if normal.iter().any(|x| x.is_err()) {
                    return Err(format!("fails without a fault: {:?}", normal).chars().take(300).collect());
                }
                let mut done = 0;
                for g in spots(n) {
                    run.touch();
                    c.tried.store(0, SeqCst);
                    c.gone.store(g, SeqCst);
                    let got = (op.run)(&r);
                    c.gone.store(usize::MAX, SeqCst);
                    let hit = c.tried.load(SeqCst) > 0;
                    if hit && got[0].is_ok() {
                        return Err(format!("the point at {} cannot be read but there is an answer", g));
                    }
                    if !hit && got != normal {
                        return Err(format!("the point at {} was not read but the answer changes", g));
                    }
                    done += 1;
                }
                if (op.run)(&r) != normal {
                    return Err("afterwards the answer is another one".into());
                }
                Ok(Seen { hash: h(&(k, &op.name)), transitions: done })
            });
        }
    });
}

pub fn c12(run: &'static Run) {
    let mut sets: Vec<(Vec<usize>, Data, bool)> = vec![];
    for d in sequences(&[0.0, 1.0, 4.0], 3).into_iter().chain(sequences(&[0.0, 4.0], 2)) {
        let idx: Vec<usize> = if d.n() == 3 { vec![5, 0, 9] } else { (0..d.n()).collect() };
        sets.push((idx, d, false));
    }
    for (name, d) in structured() {
        if ["dups", "powers", "cantor27", "star24", "scatter16"].contains(&name) {
            let wide = ["star24", "scatter16"].contains(&name);
            sets.push(((0..d.n()).collect(), d.clone(), false));
            if wide {
                sets.push(((0..d.n()).collect(), d, true));
            }
        }
    }
    let ps = params_grid(&[2.0], &[0, 2], &[-3, 1], &[0]);
    run.bound(format!("{} point sets x {} settings; every single failing point access of the build, of every query and of every bulk query{}", sets.len(), ps.len(), if run.thorough { ", and every pair of failing accesses for up to 3 points" } else { "" }));
    run.par(sets.len() * ps.len(), |k| {
        let (idx, d, wide) = &sets[k / ps.len()];
        let p = &ps[k % ps.len()];
        // the build
        run.case(|| format!("build{} {:?} {:?} {:?}", if *wide { " wide" } else { "" }, idx, d.pts, p), || {
            let c = Arc::new(Faulty::new(d, idx.clone()).wide(*wide));
            let t = build_on(Arc::clone(&c), p).map_err(|e| format!("{:?}", e))?;
            let normal = snap(&t.reader())?;
            let total = c.disarm();
            let mut n = 0;
            for a in 0..total {
                let second: Vec<usize> = if run.thorough && d.n() <= 3 { (a + 1..=total).collect() } else { vec![usize::MAX] };
                for b in second {
                    for pool in [false, true].iter() {
                        run.touch();
                        n += 1;
                        // workers of a failed build may still be running on the pool: a cloud of its own for each build
                        let c = Arc::new(Faulty::new(d, idx.clone()).wide(*wide));
                        c.arm(a, b);
                        let r = if *pool { builder(p).build(Arc::clone(&c)) } else { inline(|| builder(p).build(Arc::clone(&c))) };
                        let used = c.count.load(std::sync::atomic::Ordering::SeqCst);
                        if r.is_ok() && used > a {
                            return Err(format!("access {} of {} failed but the build reports success", a, total));
                        }
                        if r.is_err() && used <= a {
                            return Err(format!("the build fails without a failing access: {:?}", r.err()));
                        }
                    }
                }
            }
            let t = build_on(Arc::clone(&c), p).map_err(|e| format!("after failures the build fails: {:?}", e))?;
            if snap(&t.reader())? != normal {
                return Err("after failed builds the tree is another one".into());
            }
            Ok(Seen { hash: h(&(total, normal.hash())), transitions: n })
        });
        // the queries
        let c = Arc::new(Faulty::new(d, idx.clone()).wide(*wide));
        if let Ok(t) = build_on(Arc::clone(&c), p) {
            let r = t.reader();
            for op in ops(d, idx) {
                run.case(|| format!("{} on{} {:?} {:?} {:?}", op.name, if *wide { " wide" } else { "" }, idx, d.pts, p), || {
                    let n = fail_op(&c, &r, &op, run.thorough || d.n() <= 3)?;
                    Ok(Seen { hash: h(&(&op.name, n)), transitions: n })
                });
            }
        }
    });
    // batches of distances: every subset of unreadable points
    let top = if run.thorough { 11 } else { 8 };
    run.bound(format!("batches of 0..={} distances, handled in sequence and in parallel chunks: every subset of unreadable points", top));
    run.par((top + 1) * 4, |k| {
        let (n, wide, pool) = (k / 4, k % 2 == 1, k / 2 % 2 == 1);
        run.case(|| format!("batch of {} wide {} pool {}", n, wide, pool), || {
            let d = Data { dim: 2, pts: (0..n + 1).map(|i| vec![i as f32, (i * i) as f32]).collect() };
            let idx: Vec<usize> = (0..n + 1).map(|i| 3 * i + 1).collect();
            let c = Faulty::new(&d, idx.clone()).wide(wide);
            // the last point is the one distances are taken to
            let (x, batch) = (&d.pts[n][..], &idx[..n]);
            let want: Vec<f32> = (0..n).map(|i| L2::dist(x, &d.pts[i][..])).collect();
            let mut count = 0;
            for lost in 0..1usize << (n + 1) {
                run.touch();
                c.lost.store(lost, std::sync::atomic::Ordering::SeqCst);
                let f = || (c.distances_to_point(&x, batch), c.distances_to_point_index(idx[n], batch));
                let (a, b) = if pool { f() } else { inline(f) };
                let bad = lost & ((1 << n) - 1) != 0;
                for (what, r, bad) in [("a point", a, bad), ("a stored point", b, bad || lost >> n & 1 == 1)] {
                    count += 1;
                    match r {
                        Ok(v) if bad => return Err(format!("distances to {}: points {:b} cannot be read, the answer is {:?}", what, lost, v)),
                        Ok(v) if v != want => return Err(format!("distances to {}: {:?} instead of {:?}", what, v, want)),
                        Err(e) if !bad => return Err(format!("distances to {}: everything needed can be read (lost {:b}), the answer is {:?}", what, lost, e)),
                        _ => {}
                    }
                }
            }
            Ok(Seen { hash: h(&(n, wide, pool)), transitions: count })
        });
    });
    large_faults(run);
    // a failing build under every schedule of its workers
    let q = if run.thorough { 1 } else { 0 };
    let mut jobs = vec![];
    for d in [[0.0f32, 1.0, 4.0], [0.0, 4.0, 4.0]].iter() {
        for p in params_grid(&[2.0], &[0], &[1], &[0]).into_iter().filter(|p| !p.first) {
            let d = Data::d1(d);
            let c = Arc::new(Faulty::new(&d, vec![0, 1, 2]));
            let _ = build_on(Arc::clone(&c), &p);
            for a in 0..c.disarm() {
                jobs.push((d.clone(), p, a));
            }
        }
    }
    run.bound(format!("{} builds with one failing access, every schedule with at most {} preemptions", jobs.len(), q));
    run.par(jobs.len(), |k| {
        let (d, p, a) = &jobs[k];
        let name = format!("schedules of a build with access {} failing {:?} {:?}", a, d.pts, p);
        scenario(run, &name, Limit::Preempt(q), if run.thorough { 300_000 } else { 20_000 }, |slot| {
            let (d, p, a) = (d.clone(), *p, *a);
            Box::new(move || {
                let c = Arc::new(Faulty::new(&d, vec![0, 1, 2]));
                c.arm(a, usize::MAX);
                let r = builder(&p).build(Arc::clone(&c));
                sched::quietly(|| {
                    let used = c.count.load(std::sync::atomic::Ordering::SeqCst);
                    *slot.lock().unwrap() = match r {
                        Ok(_) if used > a => Err(format!("access {} failed but the build reports success", a)),
                        Err(e) if used <= a => Err(format!("failed without a failing access: {:?}", e)),
                        Ok(_) => Ok(1),
                        Err(_) => Ok(2),
                    };
                });
            })
        });
    });
}
