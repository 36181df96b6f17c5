//! C03, C04, C06, C07, C08: exhaustive families of small trees against brute force.
use crate::run::{h, Run, Seen};
use crate::trees::*;
use goko::*;
use pointcloud::metrics::L1;
use pointcloud::*;

pub fn name(d: &Data, p: &Params) -> String {
    let pts = if d.n() > 40 { format!("[{} points, first {:?}]", d.n(), &d.pts[..3]) } else { format!("{:?}", d.pts) };
    format!("{} {:?}", pts, p)
}

pub fn c03(run: &'static Run) {
    let sp = space(run, true);
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| name(d, p), || {
            let t = build(d, p)?;
            let s = check_structure(&t.reader(), &(0..d.n()).collect::<Vec<_>>())?;
            Ok(Seen { hash: s.hash(), transitions: s.nodes.len() as u64 })
        });
    });
    // the same on a point cloud whose indexes are neither contiguous nor ordered
    let odd = odd_clouds();
    run.bound(format!("{} re-indexed clouds", odd.len()));
    run.par(odd.len(), |i| {
        let (idx, d) = &odd[i];
        for p in params_grid(&[2.0], &[0, 1, 2], &[-4, 1], &[0, 7]) {
            run.case(|| format!("indexes {:?} {}", idx, name(d, &p)), || {
                let c = std::sync::Arc::new(crate::faulty::Faulty::new(d, idx.clone()));
                let t = build_on(c, &p).map_err(|e| format!("{:?}", e))?;
                let s = check_structure(&t.reader(), idx)?;
                Ok(Seen { hash: s.hash(), transitions: s.nodes.len() as u64 })
            });
        }
    });
    // and built on the real worker pool
    let pool: Vec<_> = sp.iter().filter(|(d, _)| d.n() > 10).collect();
    run.bound(format!("{} of them rebuilt on the thread pool", pool.len()));
    run.par(pool.len(), |i| {
        let (d, p) = pool[i];
        run.case(|| format!("pool {}", name(d, p)), || {
            let t = builder(p).build(d.cloud()).map_err(|e| format!("{:?}", e))?;
            let s = check_structure(&t.reader(), &(0..d.n()).collect::<Vec<_>>())?;
            Ok(Seen { hash: s.hash(), transitions: s.nodes.len() as u64 })
        });
    });
}

pub fn odd_clouds() -> Vec<(Vec<usize>, Data)> {
    let mut v = vec![];
    for d in sequences(&[0.0, 1.0, 2.0, 8.0], 3) {
        v.push((vec![7, 3, 11], d.clone()));
        v.push((vec![100, 0, 50], d.clone()));
        v.push((vec![1 << 33, 5, (1 << 40) + 1], d));
    }
    v
}

pub fn c04(run: &'static Run) {
    let sp = space(run, true);
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| name(d, p), || {
            let t = build(d, p)?;
            let s = snap(&t.reader())?;
            let n = check_geometry(&s, p, &|i, j| d.dist(i, j))?;
            Ok(Seen { hash: s.hash(), transitions: n })
        });
    });
    let sp = taxi_space(run);
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| format!("L1 {}", name(d, p)), || {
            let t = build_on(taxi(d), p).map_err(|e| format!("build failed: {:?}", e))?;
            let s = snap(&t.reader())?;
            let n = check_geometry(&s, p, &|i, j| l1(&d.pts[i], &d.pts[j]))?;
            Ok(Seen { hash: s.hash(), transitions: n })
        });
    });
}

/// The trees that are also built with the L1 metric.
pub fn taxi_space(run: &'static Run) -> Vec<(Data, Params)> {
    let ps = params_grid(&[2.0, 1.3], &[0, 2], &[-4, 1], &[0]);
    let ds: Vec<Data> = grid2(3, 1.0, 3).into_iter().chain(structured().into_iter().filter(|x| x.1.dim > 1 && x.1.n() < 100).map(|x| x.1)).collect();
    run.bound(format!("L1 metric: {} data sets x {} parameter settings", ds.len(), ps.len()));
    ds.iter().flat_map(|d| ps.iter().map(move |p| (d.clone(), *p))).collect()
}
pub fn taxi(d: &Data) -> std::sync::Arc<DefaultCloud<L1>> {
    std::sync::Arc::new(DefaultCloud::<L1>::new(d.flat(), d.dim).unwrap())
}
pub fn l1(a: &[f32], b: &[f32]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (*x as f64 - *y as f64).abs()).sum::<f64>() as f32
}

pub fn queries(d: &Data) -> Vec<Vec<f32>> {
    let mut q: Vec<Vec<f32>> = vec![];
    if d.dim == 1 && d.n() <= 6 {
        for x in [-4.5f32, -3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.25, 1.5, 1.75, 2.0, 2.75, 3.5, 5.75, 6.0, 8.0, 12.0].iter() {
            q.push(vec![*x]);
        }
    } else if d.dim == 2 && d.n() <= 6 {
        for x in 0..7 {
            for y in 0..7 {
                q.push(vec![x as f32 * 0.5 - 0.5, y as f32 * 0.5 - 0.5]);
            }
        }
    } else {
        let step = (d.n() / 12).max(1);
        // offsets in proportion to the data, so that differences stay exact
        let top = d.pts.iter().flatten().fold(0.0f32, |a, b| a.max(b.abs()));
        let s = if top > 0.0 && (top < 0.01 || top > 1e6) { 2.0f32.powi((top / 100.0).log2().floor() as i32) } else { 1.0 };
        for i in (0..d.n()).step_by(step) {
            q.push(d.pts[i].clone());
            let mut p = d.pts[i].clone();
            p[0] += 0.5 * s;
            q.push(p.clone());
            let l = p.len() - 1;
            p[l] -= 2.25 * s;
            q.push(p);
            if d.dim == 1 && i + 1 < d.n() {
                q.push(vec![d.pts[i][0] * 0.5 + d.pts[i + 1][0] * 0.5]);
            }
        }
        q.push(vec![0.0; d.dim]);
        // far away, but close enough for every sum of squares to be exact
        q.push(vec![300.0 * s; d.dim]);
    }
    q
}

fn ks(n: usize) -> Vec<usize> {
    if n <= 6 {
        (0..n + 2).chain(vec![usize::MAX]).collect()
    } else {
        let mut v = vec![0, 1, 2, 3, 7, n / 2, n - 1, n, n + 1, 5 * n, usize::MAX];
        // around the sizes at which buffers like to change
        v.extend([10usize, 11, 16, 17, 20, 21, 32, 33, 50, 64, 65, 100, 101, 128, 129, 256, 257].iter().filter(|k| **k < n));
        v
    }
}

/// `got` must be the `k` closest of `members` (sorted), distinct, sorted, with true distances.
pub fn check_knn(got: &[(f32, usize)], members: &[usize], k: usize, dist: &dyn Fn(usize) -> f32) -> Result<(), String> {
    let want_n = k.min(members.len());
    if got.len() != want_n {
        return Err(format!("{} results for k={} over {} candidates: {:?}", got.len(), k, members.len(), got));
    }
    let mut seen = std::collections::BTreeSet::new();
    for (d, i) in got {
        if members.binary_search(i).is_err() {
            return Err(format!("result {} is not a candidate", i));
        }
        if !seen.insert(*i) {
            return Err(format!("point {} returned twice: {:?}", i, got));
        }
        if *d != dist(*i) {
            return Err(format!("point {} returned at distance {}, is at {}", i, d, dist(*i)));
        }
    }
    let mut best: Vec<f32> = members.iter().map(|i| dist(*i)).collect();
    best.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for (j, (d, i)) in got.iter().enumerate() {
        if *d != best[j] {
            return Err(format!("neighbour {} is {} at {}, the true one is at {}; got {:?}", j, i, d, best[j], got));
        }
    }
    Ok(())
}

/// `idx[i]` is the index of the point `d.pts[i]`.
fn knn_on<C: PointRef>(c: std::sync::Arc<C>, d: &Data, idx: &[usize], p: &Params, routing: bool, metric: fn(&[f32], &[f32]) -> f32) -> Result<Seen, String> {
    let row = rows(idx);
    let t = build_on(c, p).map_err(|e| format!("build failed: {:?}", e))?;
    let r = t.reader();
    let members: Vec<usize> = if routing {
        let s = snap(&r)?;
        let mut m: Vec<usize> = s.nodes.keys().map(|a| a.1).collect();
        m.sort();
        m.dedup();
        m
    } else {
        let mut m = idx.to_vec();
        m.sort();
        m
    };
    let mut n = 0;
    let mut all = vec![];
    let huge = d.n() > 20_000;
    for q in queries(d).into_iter().step_by(if huge { 9 } else { 1 }) {
        for k in ks(members.len()).into_iter().filter(|k| !huge || [1, 10, 257, members.len(), usize::MAX].contains(k)) {
            n += 1;
            let got = if routing { C::routing_knn(&r, &q, k) } else { C::knn(&r, &q, k) };
            let got = got.map_err(|e| format!("query failed {:?}", e))?;
            check_knn(&got, &members, k, &|i| metric(&d.pts[row(i)], &q)).map_err(|e| format!("query {:?} k={}: {}", q, k, e))?;
            all.push(got.iter().map(|x| x.1).collect::<Vec<_>>());
        }
    }
    Ok(Seen { hash: h(&all), transitions: n })
}

fn plain(d: &Data) -> Vec<usize> {
    (0..d.n()).collect()
}
fn rows(idx: &[usize]) -> impl Fn(usize) -> usize + '_ {
    let plain = idx.iter().enumerate().all(|(i, j)| i == *j);
    move |i| if plain { i } else { idx.iter().position(|j| *j == i).unwrap_or(usize::MAX) }
}

type Glued = pointcloud::glued_data_cloud::HashGluedCloud<DefaultCloud<L2>>;

/// The points in two sources, glued and re-indexed.
fn glued(d: &Data, idx: &[usize]) -> std::sync::Arc<Glued> {
    let cut = d.n() / 2;
    let part = |a: usize, b: usize| {
        let part = Data { dim: d.dim, pts: d.pts[a..b].to_vec() };
        DefaultCloud::<L2>::new(part.flat(), d.dim).unwrap()
    };
    let mut g = Glued::new(vec![part(0, cut), part(cut, d.n())]);
    g.reindex(&idx.iter().enumerate().map(|(i, j)| (i, *j)).collect::<Vec<_>>()).unwrap();
    std::sync::Arc::new(g)
}

/// Trees over glued and re-indexed sources.
fn glued_space(run: &'static Run) -> Vec<(Data, Vec<usize>, Params)> {
    let ps = params_grid(&[2.0], &[0, 2], &[-4, 1], &[0]);
    let mut v = vec![];
    for (idx, d) in odd_clouds() {
        v.extend(ps.iter().map(|p| (d.clone(), idx.clone(), *p)));
    }
    for (_, d) in structured().into_iter().filter(|x| x.1.n() < 200) {
        let n = d.n();
        let m = if n % 7 == 0 { 11 } else { 7 };
        for idx in vec![(0..n).map(|i| (i * m) % n).collect::<Vec<_>>(), (0..n).map(|i| 1000 + 3 * ((i * m) % n)).collect()] {
            v.extend(ps.iter().map(|p| (d.clone(), idx.clone(), *p)));
        }
    }
    run.bound(format!("{} trees over two glued sources, re-indexed", v.len()));
    v
}

/// The queries of trees over dense points.
pub trait PointRef: PointCloud + Sized {
    fn knn(r: &CoverTreeReader<Self>, q: &[f32], k: usize) -> GokoResult<Vec<(f32, usize)>>;
    fn routing_knn(r: &CoverTreeReader<Self>, q: &[f32], k: usize) -> GokoResult<Vec<(f32, usize)>>;
    fn path(r: &CoverTreeReader<Self>, q: &[f32]) -> GokoResult<Vec<(f32, NodeAddress)>>;
}
impl<M: Metric<[f32]>> PointRef for DefaultCloud<M> {
    fn knn(r: &CoverTreeReader<Self>, q: &[f32], k: usize) -> GokoResult<Vec<(f32, usize)>> {
        r.knn(&q, k)
    }
    fn routing_knn(r: &CoverTreeReader<Self>, q: &[f32], k: usize) -> GokoResult<Vec<(f32, usize)>> {
        r.routing_knn(&q, k)
    }
    fn path(r: &CoverTreeReader<Self>, q: &[f32]) -> GokoResult<Vec<(f32, NodeAddress)>> {
        r.path(&q)
    }
}

impl PointRef for Glued {
    fn knn(r: &CoverTreeReader<Self>, q: &[f32], k: usize) -> GokoResult<Vec<(f32, usize)>> {
        r.knn(&q, k)
    }
    fn routing_knn(r: &CoverTreeReader<Self>, q: &[f32], k: usize) -> GokoResult<Vec<(f32, usize)>> {
        r.routing_knn(&q, k)
    }
    fn path(r: &CoverTreeReader<Self>, q: &[f32]) -> GokoResult<Vec<(f32, NodeAddress)>> {
        r.path(&q)
    }
}

pub fn c06_c07(run: &'static Run, routing: bool) {
    let sp = space(run, true);
    run.bound("every query point of a grid on and between the data points; k from 0 to beyond the number of points, and the largest possible");
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| name(d, p), || knn_on(d.cloud(), d, &plain(d), p, routing, l2));
    });
    let sp = taxi_space(run);
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| format!("L1 {}", name(d, p)), || knn_on(taxi(d), d, &plain(d), p, routing, l1));
    });
    let sp = glued_space(run);
    run.par(sp.len(), |i| {
        let (d, idx, p) = &sp[i];
        run.case(|| format!("indexes {:?} {}", &idx[..3], name(d, p)), || knn_on(glued(d, idx), d, idx, p, routing, l2));
    });
}

/// One step of the partition rule, by brute force.
fn rule(s: &Snap, p: &Params, a: NodeAddress, dist: &dyn Fn(usize) -> f32) -> Option<Vec<NodeAddress>> {
    let ch = s.child_addrs(a);
    if ch.is_empty() {
        return None;
    }
    if p.first {
        let c = ch.into_iter().find(|c| dist(c.1) < p.base.powi(c.0))?;
        Some(vec![c])
    } else {
        let min = ch.iter().map(|c| dist(c.1)).fold(f32::INFINITY, f32::min);
        let best: Vec<NodeAddress> = ch.into_iter().filter(|c| dist(c.1) == min && min < p.base.powi(c.0)).collect();
        if best.is_empty() {
            None
        } else {
            Some(best)
        }
    }
}

pub fn check_path(s: &Snap, p: &Params, path: &[(f32, NodeAddress)], dist: &dyn Fn(usize) -> f32) -> Result<(), String> {
    if path.is_empty() || path[0].1 != s.root {
        return Err(format!("path {:?} does not start at the root {:?}", path, s.root));
    }
    for (d, a) in path {
        if !s.nodes.contains_key(a) {
            return Err(format!("path {:?} visits missing node {:?}", path, a));
        }
        if *d != dist(a.1) {
            return Err(format!("path {:?}: distance to {:?} is {}", path, a, dist(a.1)));
        }
    }
    for (i, (_, a)) in path.iter().enumerate() {
        let next = rule(s, p, *a, dist);
        match (path.get(i + 1), next) {
            (None, None) => {}
            (Some((_, b)), Some(v)) if v.contains(b) => {}
            (got, want) => return Err(format!("path {:?}: after {:?} comes {:?}, the rule gives {:?}", path, a, got, want)),
        }
    }
    Ok(())
}

pub fn check_all_paths<D: PointCloud>(r: &CoverTreeReader<D>, d: &Data, idx: &[usize], p: &Params, metric: fn(&[f32], &[f32]) -> f32, path_of: &dyn Fn(&[f32]) -> Result<Vec<(f32, NodeAddress)>, String>) -> Result<(u64, u64), String> {
    let s = snap(r)?;
    let row = rows(idx);
    let mut all = vec![];
    let mut n = 0;
    for q in queries(d) {
        n += 1;
        let path = path_of(&q)?;
        check_path(&s, p, &path, &|i| metric(&d.pts[row(i)], &q)).map_err(|e| format!("query {:?}: {}", q, e))?;
        all.push(path.iter().map(|x| x.1).collect::<Vec<_>>());
    }
    for i in idx.iter().copied() {
        n += 1;
        let known = r.known_path(i).map_err(|e| format!("no recorded path for point {}: {:?}", i, e))?;
        let q = &d.pts[row(i)];
        let last = known.last().ok_or("empty recorded path")?.1;
        let node = s.nodes.get(&last).ok_or("recorded path ends nowhere")?;
        if !(node.singles.contains(&i) || (node.leaf && last.1 == i)) {
            return Err(format!("recorded path of {} ends at {:?} which does not hold it", i, last));
        }
        if known[0].1 != s.root {
            return Err(format!("recorded path of {} starts at {:?}", i, known[0]));
        }
        for w in known.windows(2) {
            if !s.child_addrs(w[0].1).contains(&w[1].1) {
                return Err(format!("recorded path of {} jumps from {:?} to {:?}", i, w[0], w[1]));
            }
        }
        for (dd, a) in &known {
            if *dd != metric(q, &d.pts[row(a.1)]) {
                return Err(format!("recorded path of {} gives distance {} to {:?}", i, dd, a));
            }
        }
        let fresh = path_of(q)?;
        // With exact duplicates or ties the descent is still fully determined, so both must agree.
        if fresh != known {
            return Err(format!("point {}: recorded path {:?}, computed path {:?}", i, known, fresh));
        }
        all.push(known.iter().map(|x| x.1).collect());
    }
    for bad in [0, d.n(), d.n() + 1, usize::MAX].iter().filter(|i| !idx.contains(i)) {
        if r.known_path(*bad).is_ok() {
            return Err(format!("index {} is not in the tree but has a path", bad));
        }
    }
    Ok((h(&all), n))
}

fn paths_on<C: PointRef>(cloud: &dyn Fn() -> std::sync::Arc<C>, d: &Data, idx: &[usize], p: &Params, metric: fn(&[f32], &[f32]) -> f32) -> Result<Seen, String> {
    let t = build_on(cloud(), p).map_err(|e| format!("build failed: {:?}", e))?;
    let r = t.reader();
    let (hash, n) = check_all_paths(&r, d, idx, p, metric, &|q| C::path(&r, q).map_err(|e| format!("{:?}", e)))?;
    let t2 = CoverTreeWriter::load(&t.save(), cloud()).map_err(|e| format!("{:?}", e))?;
    let r2 = t2.reader();
    check_all_paths(&r2, d, idx, p, metric, &|q| C::path(&r2, q).map_err(|e| format!("{:?}", e))).map_err(|e| format!("after load: {}", e))?;
    Ok(Seen { hash, transitions: 2 * n })
}

pub fn c08(run: &'static Run) {
    let sp = space(run, true);
    run.bound("every data point and a grid of query points; before and after save/load");
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| name(d, p), || paths_on(&|| d.cloud(), d, &plain(d), p, l2));
    });
    let sp = taxi_space(run);
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| format!("L1 {}", name(d, p)), || paths_on(&|| taxi(d), d, &plain(d), p, l1));
    });
    let sp = glued_space(run);
    run.par(sp.len(), |i| {
        let (d, idx, p) = &sp[i];
        run.case(|| format!("indexes {:?} {}", &idx[..3], name(d, p)), || paths_on(&|| glued(d, idx), d, idx, p, l2));
    });
}
