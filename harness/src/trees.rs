//! Data families, parameter grids, tree snapshots.
use crate::inline::inline;
use goko::errors::GokoResult;
use goko::*;
use pointcloud::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Cloud = DefaultCloud<L2>;

#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub dim: usize,
    pub pts: Vec<Vec<f32>>,
}

impl Data {
    pub fn d1(v: &[f32]) -> Data {
        Data { dim: 1, pts: v.iter().map(|x| vec![*x]).collect() }
    }
    pub fn flat(&self) -> Vec<f32> {
        self.pts.iter().flatten().copied().collect()
    }
    pub fn cloud(&self) -> Arc<Cloud> {
        Arc::new(Cloud::new(self.flat(), self.dim).unwrap())
    }
    pub fn n(&self) -> usize {
        self.pts.len()
    }
    pub fn dist(&self, i: usize, j: usize) -> f32 {
        l2(&self.pts[i], &self.pts[j])
    }
}

/// Scalar reference distance. All coordinates used are dyadic, so every partial sum is exact.
pub fn l2(a: &[f32], b: &[f32]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (*x as f64 - *y as f64).powi(2)).sum::<f64>().sqrt() as f32
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Params {
    pub base: f32,
    pub cutoff: usize,
    pub min_res: i32,
    pub singles: bool,
    pub first: bool,
    pub seed: u64,
}

pub fn scratch() -> std::path::PathBuf {
    let d = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
    std::path::PathBuf::from(d)
}

thread_local! {
    static TID: u64 = {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
    };
}
/// A scratch path private to this thread.
pub fn tmp(name: &str) -> std::path::PathBuf {
    scratch().join(format!("t{}_{}", TID.with(|t| *t), name))
}

pub fn builder(p: &Params) -> CoverTreeBuilder {
    let mut b = if p.first {
        let f = tmp("first.yml");
        if !f.exists() {
            std::fs::write(&f, "---\npartition_type: first\nverbosity: 0\n").unwrap();
        }
        CoverTreeBuilder::from_yaml(&f)
    } else {
        CoverTreeBuilder::new()
    };
    b.set_scale_base(p.base)
        .set_leaf_cutoff(p.cutoff)
        .set_min_res_index(p.min_res)
        .set_use_singletons(p.singles)
        .set_verbosity(0)
        .set_rng_seed(p.seed);
    b
}

pub fn build_on<D: PointCloud>(c: Arc<D>, p: &Params) -> GokoResult<CoverTreeWriter<D>> {
    inline(|| builder(p).build(c))
}

pub fn build(d: &Data, p: &Params) -> Result<CoverTreeWriter<Cloud>, String> {
    build_on(d.cloud(), p).map_err(|e| format!("build failed: {:?}", e))
}

#[derive(Clone, Debug, PartialEq)]
pub struct NodeSnap {
    pub parent: Option<NodeAddress>,
    pub radius: f32,
    pub coverage: usize,
    pub children: Option<(i32, Vec<NodeAddress>)>,
    pub singles: Vec<usize>,
    pub leaf: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub root: NodeAddress,
    pub nodes: BTreeMap<NodeAddress, NodeSnap>,
}

pub fn node_snap<D: PointCloud>(n: &covertree_node::CoverNode<D>) -> NodeSnap {
    NodeSnap {
        parent: n.parent_address(),
        radius: n.radius(),
        coverage: n.coverage_count(),
        children: n.children().map(|(s, c)| (s, c.to_vec())),
        singles: n.singletons().to_vec(),
        leaf: n.is_leaf(),
    }
}

pub mod covertree_node {
    pub use goko::node::CoverNode;
}

pub fn snap<D: PointCloud>(r: &CoverTreeReader<D>) -> Result<Snap, String> {
    let mut nodes = BTreeMap::new();
    let mut err = None;
    for (si, layer) in r.layers() {
        if layer.scale_index() != si {
            err = Some(format!("layer listed at scale {} says it is at scale {}", si, layer.scale_index()));
        }
        let mut seen = 0;
        layer.for_each_node(|pi, n| {
            seen += 1;
            if n.address() != (si, *pi) {
                err = Some(format!("node stored at {:?} says its address is {:?}", (si, pi), n.address()));
            }
            let s = node_snap(n);
            if n.singletons_len() != s.singles.len()
                || n.children_len() != s.children.as_ref().map(|c| c.1.len() + 1).unwrap_or(0)
                || s.leaf != s.children.is_none()
            {
                err = Some(format!("node {:?} has inconsistent counts", n.address()));
            }
            if nodes.insert((si, *pi), s).is_some() {
                err = Some(format!("node {:?} appears twice", (si, pi)));
            }
        });
        if seen != layer.len() || layer.is_empty() != (seen == 0) {
            err = Some(format!("layer {} reports {} nodes but holds {}", si, layer.len(), seen));
        }
    }
    match err {
        Some(e) => Err(e),
        None => Ok(Snap { root: r.root_address(), nodes }),
    }
}

impl Snap {
    pub fn hash(&self) -> u64 {
        crate::run::h(&format!("{:?}", self))
    }
    pub fn child_addrs(&self, a: NodeAddress) -> Vec<NodeAddress> {
        match &self.nodes[&a].children {
            Some((s, c)) => {
                let mut v = vec![(*s, a.1)];
                v.extend(c);
                v
            }
            None => vec![],
        }
    }
    /// All points below a node, with multiplicity.
    pub fn covered(&self, a: NodeAddress) -> Vec<usize> {
        let mut out = vec![];
        let mut todo = vec![a];
        while let Some(a) = todo.pop() {
            let n = &self.nodes[&a];
            out.extend(&n.singles);
            if n.children.is_none() {
                out.push(a.1);
            }
            todo.extend(self.child_addrs(a));
        }
        out
    }
}

/// C03: partition and link consistency. `members` are the indexes the tree must hold.
pub fn check_structure<D: PointCloud>(r: &CoverTreeReader<D>, members: &[usize]) -> Result<Snap, String> {
    let s = snap(r)?;
    let n = members.len();
    if !s.nodes.contains_key(&s.root) {
        return Err(format!("root {:?} is not in the tree", s.root));
    }
    if s.nodes[&s.root].parent.is_some() {
        return Err("root has a parent".into());
    }
    // links; every node reached exactly once
    let mut reached = std::collections::BTreeSet::new();
    let mut todo = vec![s.root];
    while let Some(a) = todo.pop() {
        if !reached.insert(a) {
            return Err(format!("node {:?} reached twice", a));
        }
        let node = &s.nodes[&a];
        if let Some((ns, ch)) = &node.children {
            let via_api = r.get_node_children_and(a, |nested, c| (nested, c.to_vec()));
            if via_api != Some(((*ns, a.1), ch.clone())) {
                return Err(format!("children of {:?} read differently: {:?}", a, via_api));
            }
        }
        for c in s.child_addrs(a) {
            match s.nodes.get(&c) {
                None => return Err(format!("{:?} refers to missing node {:?}", a, c)),
                Some(cn) if cn.parent != Some(a) => {
                    return Err(format!("child {:?} of {:?} has parent {:?}", c, a, cn.parent))
                }
                _ => todo.push(c),
            }
        }
    }
    if reached.len() != s.nodes.len() {
        let lost: Vec<_> = s.nodes.keys().filter(|k| !reached.contains(*k)).collect();
        return Err(format!("unreachable nodes {:?}", lost));
    }
    for (a, node) in &s.nodes {
        let cov = s.covered(*a);
        if cov.len() != node.coverage {
            return Err(format!("node {:?} says it covers {} points, {} are below it", a, node.coverage, cov.len()));
        }
        let uniq: std::collections::BTreeSet<_> = cov.iter().collect();
        if uniq.len() != cov.len() {
            return Err(format!("a point appears twice below {:?}: {:?}", a, cov));
        }
        if !uniq.contains(&a.1) {
            return Err(format!("node {:?} does not cover its own centre", a));
        }
    }
    let mut all = s.covered(s.root);
    all.sort();
    let mut want = members.to_vec();
    want.sort();
    if all != want {
        return Err(format!("tree holds {:?}, data set is {:?}", all, want));
    }
    if r.node_count() != s.nodes.len() {
        return Err(format!("node_count {} but {} nodes", r.node_count(), s.nodes.len()));
    }
    let listed: Vec<i32> = r.layers().map(|(si, _)| si).collect();
    if listed.len() != r.len() || r.is_empty() {
        return Err("layer count disagrees".into());
    }
    if listed.first() != Some(&s.root.0) || r.scale_range().end != s.root.0 + 1 {
        return Err(format!("top of the scale range {:?}/{:?} is not the root scale {}", listed, r.scale_range(), s.root.0));
    }
    if n == 0 {
        return Err("empty".into());
    }
    Ok(s)
}

/// C04: geometry. `pt` gives the coordinates of an index.
pub fn check_geometry(s: &Snap, p: &Params, dist: &dyn Fn(usize, usize) -> f32) -> Result<u64, String> {
    let mut checked = 0;
    for (a, node) in &s.nodes {
        let cov = s.covered(*a);
        let scale = p.base.powi(a.0);
        let mut far = f32::NEG_INFINITY;
        for q in cov.iter().filter(|q| **q != a.1) {
            let d = dist(a.1, *q);
            far = far.max(d);
            checked += 1;
            let ok = if *a == s.root { d <= scale * (1.0 + 1e-5) } else { d < scale || (d == 0.0 && scale == 0.0) };
            if !ok {
                return Err(format!("node {:?} (scale {}) covers point {} at distance {}", a, scale, q, d));
            }
        }
        if cov.len() > 1 && node.radius != far {
            return Err(format!("node {:?} has radius {} but its farthest point is at {}", a, node.radius, far));
        }
        if let Some((ns, ch)) = &node.children {
            let next = p.base.powi(*ns);
            if *ns >= a.0 {
                return Err(format!("nested child of {:?} is at scale {}", a, ns));
            }
            let mut centers = vec![a.1];
            for c in ch {
                if c.0 != *ns {
                    return Err(format!("children of {:?} at different scales", a));
                }
                centers.push(c.1);
            }
            let hubs = centers.clone();
            centers.extend(&node.singles);
            for i in 0..centers.len() {
                for j in 0..i {
                    checked += 1;
                    let d = dist(centers[i], centers[j]);
                    if !(d >= next) {
                        return Err(format!("centres {} and {} under {:?} are {} apart, closer than {}", centers[i], centers[j], a, d, next));
                    }
                }
            }
            if !p.first {
                for (k, c) in s.child_addrs(*a).into_iter().enumerate() {
                    for q in s.covered(c) {
                        let own = dist(hubs[k], q);
                        for o in &hubs {
                            checked += 1;
                            if dist(*o, q) < own {
                                return Err(format!("point {} sits under {:?} but centre {} is closer", q, c, o));
                            }
                        }
                    }
                }
            } else {
                // first: nothing that an earlier centre covers may sit under a later one
                for (k, c) in s.child_addrs(*a).into_iter().enumerate() {
                    for q in s.covered(c) {
                        for o in &hubs[..k] {
                            checked += 1;
                            if dist(*o, q) < next {
                                return Err(format!("point {} sits under {:?} but the earlier centre {} covers it", q, c, o));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(checked)
}

/// The documented effect of the settings on the shape of the tree.
pub fn check_settings(s: &Snap, p: &Params, dist: &dyn Fn(usize, usize) -> f32) -> Result<u64, String> {
    let mut checked = 0;
    for (a, node) in &s.nodes {
        checked += 1;
        let cov = s.covered(*a);
        if a.0 < p.min_res - 1 {
            return Err(format!("node {:?} is below the minimum scale {}", a, p.min_res));
        }
        if node.children.is_some() {
            if a.0 < p.min_res {
                return Err(format!("node {:?} is below the minimum scale {} but has children", a, p.min_res));
            }
            if cov.len() <= p.cutoff {
                return Err(format!("node {:?} covers {} <= cutoff {} points but has children", a, cov.len(), p.cutoff));
            }
            if !p.singles && !node.singles.is_empty() {
                return Err(format!("routing node {:?} has singletons although they are switched off", a));
            }
        } else if cov.len() > p.cutoff && cov.len() > 1 && a.0 >= p.min_res {
            // A leaf above the cutoff has been split into its centre and outliers only,
            // or cannot be split because the next scale is too small for a number.
            let far = cov.iter().map(|q| dist(a.1, *q)).fold(0.0, f32::max);
            let next = (a.0 - 1).min((far.log(p.base).ceil() as i32).max(p.min_res));
            let next = p.base.powi(next);
            if next == 0.0 {
                continue;
            }
            if !p.singles {
                return Err(format!("leaf {:?} covers {} > cutoff {} points", a, cov.len(), p.cutoff));
            }
            for i in 0..cov.len() {
                for j in 0..i {
                    if dist(cov[i], cov[j]) < next {
                        return Err(format!("leaf {:?} covers {} > cutoff {} points that could be split", a, cov.len(), p.cutoff));
                    }
                }
            }
        }
    }
    Ok(checked)
}

// ---------------------------------------------------------------- families

pub fn sequences(alpha: &[f32], n: usize) -> Vec<Data> {
    let mut out = vec![];
    let k = alpha.len();
    for mut c in 0..k.pow(n as u32) {
        let mut v = vec![];
        for _ in 0..n {
            v.push(alpha[c % k]);
            c /= k;
        }
        out.push(Data::d1(&v));
    }
    out
}

/// All sequences of `n` points of a `w` x `w` grid (spacing `s`) with the last point (the root) varying too, up to
/// the order of the others.
pub fn grid2(w: usize, s: f32, n: usize) -> Vec<Data> {
    let cells: Vec<Vec<f32>> = (0..w * w).map(|i| vec![(i % w) as f32 * s, (i / w) as f32 * s]).collect();
    let mut out = vec![];
    fn rec(cells: &[Vec<f32>], n: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Data>) {
        if cur.len() + 1 == n {
            for r in 0..cells.len() {
                let mut pts: Vec<Vec<f32>> = cur.iter().map(|i| cells[*i].clone()).collect();
                pts.push(cells[r].clone());
                out.push(Data { dim: 2, pts });
            }
            return;
        }
        for i in from..cells.len() {
            cur.push(i);
            rec(cells, n, i, cur, out);
            cur.pop();
        }
    }
    rec(&cells, n, 0, &mut vec![], &mut out);
    out
}

/// Larger fixed shapes, one per size-dependent shortcut in the code.
pub fn structured() -> Vec<(&'static str, Data)> {
    let mut v: Vec<(&'static str, Data)> = vec![];
    v.push(("line25", Data::d1(&(0..25).map(|i| i as f32).collect::<Vec<_>>())));
    v.push(("powers", Data::d1(&[0.0, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, -1.0, -2.0, -4.0, -8.0])));
    v.push(("dups", Data::d1(&[1.0, 1.0, 1.0, 4.0, 4.0, 4.0, 4.0, 9.0, 9.0, 1.0, 0.0, 0.0])));
    v.push(("alldup", Data::d1(&[3.0; 6])));
    v.push(("tiny", Data::d1(&[0.0, 1.0 / 1048576.0, 3.0 / 1048576.0, 2.0 / 1048576.0])));
    v.push(("huge", Data::d1(&[0.0, 1048576.0, 1048577.0, -1048576.0, 524288.0])));
    // one far-away singleton per axis: more than 20 singletons under one node
    let star = |pairs: bool, arms: usize| {
        let mut pts = vec![];
        for i in 0..arms {
            let mut p = vec![0.0; arms];
            p[i] = 8.0;
            pts.push(p.clone());
            if pairs {
                p[i] = 8.5;
                pts.push(p);
            }
        }
        pts.push(vec![0.0; arms]);
        Data { dim: arms, pts }
    };
    v.push(("star24", star(false, 24)));
    v.push(("pairs14", star(true, 14)));
    // clusters of clusters
    let mut c = vec![];
    for a in [0.0f32, 27.0, 54.0].iter() {
        for b in [0.0f32, 9.0, 3.0].iter() {
            for d in [0.0f32, 1.0, 0.5].iter() {
                c.push(a + b + d);
            }
        }
    }
    v.push(("cantor27", Data::d1(&c)));
    let mut g = vec![];
    for i in 0..6 {
        for j in 0..6 {
            g.push(vec![i as f32, j as f32 * 0.5]);
        }
    }
    v.push(("grid36", Data { dim: 2, pts: g }));
    let mut ring = vec![];
    for i in 0..16i32 {
        ring.push(vec![(i - 8) as f32, ((i * 7) % 16 - 8) as f32, ((i * 5) % 11) as f32]);
    }
    v.push(("scatter16", Data { dim: 3, pts: ring }));
    // one occupied scale after another, on both sides of zero
    let mut deep = vec![0.0f32];
    for i in -12..12i32 {
        deep.push(2.0f32.powi(i) * if i % 3 == 0 { -1.0 } else { 1.0 });
    }
    v.push(("deep25", Data::d1(&deep)));
    // more than twenty copies of one point among others
    let mut heap = vec![-3.0f32; 26];
    heap.extend([-3.5f32, -2.0, 0.0, 5.0, 5.25, -11.0, 6.0].iter());
    v.push(("heap33", Data::d1(&heap)));
    let mut mixed = vec![];
    for i in 0..30i32 {
        mixed.push(vec![((i * 11) % 31 - 15) as f32 * 0.75, ((i * i) % 17 - 8) as f32 * 1.25]);
    }
    v.push(("mixed30", Data { dim: 2, pts: mixed }));
    v.push(("line130", Data::d1(&(0..130).map(|i| ((i * 37) % 131) as f32).collect::<Vec<_>>())));
    v.push(("line420", Data::d1(&(0..420).map(|i| ((i * 173) % 421) as f32 * 0.5).collect::<Vec<_>>())));
    let mut wide = vec![];
    for i in 0..1050i32 {
        wide.push(vec![((i * 389) % 1051 - 525) as f32 * 0.25, ((i * 97) % 41 - 20) as f32]);
    }
    v.push(("wide1050", Data { dim: 2, pts: wide }));
    v.push(("deep160", deep160()));
    v.push(("lonely142", lonely142()));
    v
}

/// 140 arms of one point each and three points at the middle: a node with almost nothing but singletons.
pub fn lonely142() -> Data {
    let arms = 140;
    let mut pts: Vec<Vec<f32>> = (0..arms).map(|i| { let mut p = vec![0.0f32; arms]; p[i] = 8.0; p }).collect();
    pts.push(vec![0.0; arms]);
    let mut near = vec![0.0; arms];
    near[3] = 0.5;
    pts.insert(17, near);
    Data { dim: arms, pts }
}

/// Eight points per octave over twenty octaves: a level for nearly every point when the scale base is small.
pub fn deep160() -> Data {
    Data::d1(&(0..160i32).map(|i| { let k = (i * 67) % 160; (1.0 + (k % 8) as f32 / 8.0) * 2.0f32.powi(k / 8 - 8) }).collect::<Vec<_>>())
}

/// Thousands of nodes: in many levels, or (with a huge scale base) all under one parent.
pub fn pairs8600() -> Data {
    Data::d1(&(0..8600).map(|i| ((i / 2 * 2731) % 4303) as f32 * 2.0 + (i % 2) as f32 * 0.5).collect::<Vec<_>>())
}
pub fn pairs8600_params() -> Vec<Params> {
    params_grid(&[2.0], &[0], &[-1], &[0]).into_iter().chain(params_grid(&[16384.0], &[0], &[-1], &[0])).collect()
}

/// More points than sixteen bits can number; also as one single leaf.
pub fn line70001() -> Data {
    Data::d1(&(0..70001usize).map(|i| ((i * 40503) % 70001) as f32 * 0.25).collect::<Vec<_>>())
}
pub fn line70001_params() -> Vec<Params> {
    let p = Params { base: 4.0, cutoff: 300, min_res: -1, singles: true, first: false, seed: 0 };
    vec![p, Params { cutoff: 1000, first: true, ..p }, Params { cutoff: 100_000, ..p }]
}

pub fn params_grid(bases: &[f32], cutoffs: &[usize], min_res: &[i32], seeds: &[u64]) -> Vec<Params> {
    let mut v = vec![];
    for base in bases {
        for cutoff in cutoffs {
            for mr in min_res {
                for singles in [true, false].iter() {
                    for first in [false, true].iter() {
                        for seed in seeds {
                            v.push(Params { base: *base, cutoff: *cutoff, min_res: *mr, singles: *singles, first: *first, seed: *seed });
                        }
                    }
                }
            }
        }
    }
    v
}

/// The (data, parameters) space shared by the tree checks, as a list of blocks "all of these data sets with all of
/// these parameters".
pub fn space(run: &crate::run::Run, heavy: bool) -> Vec<(Data, Params)> {
    let mut out = vec![];
    let mut block = |name: &str, ds: Vec<Data>, ps: Vec<Params>| {
        run.bound(format!("{}: {} data sets x {} parameter settings", name, ds.len(), ps.len()));
        for d in &ds {
            for p in &ps {
                out.push((d.clone(), *p));
            }
        }
    };
    let a5 = [0.0, 1.0, 2.0, 3.5, 8.0];
    let a3 = [0.0, 1.0, 4.0];
    let full = params_grid(&[2.0, 1.3, 3.0], &[0, 1, 2, 5], &[-10, -2, 0, 2, 5], &[0]);
    let mid = params_grid(&[2.0, 1.3], &[0, 1, 3], &[-6, 0, 1], &[0, 1]);
    let slim = params_grid(&[2.0], &[0, 1], &[-4], &[0, 1, 2]);
    if run.thorough {
        for n in 1..=3 {
            block(&format!("1-d sequences of {} over {:?}", n, a5), sequences(&a5, n), full.clone());
        }
        block("1-d sequences of 4", sequences(&a5, 4), mid.clone());
        block("1-d sequences of 5", sequences(&a5, 5), slim.clone());
        block("1-d sequences of 6", sequences(&a3, 6), slim.clone());
        block("3x3 grid, 4 points", grid2(3, 1.0, 4), mid.clone());
        block("3x3 grid, 5 points", grid2(3, 1.0, 5), slim.clone());
        if run.deep {
            block("1-d sequences of 5, more settings", sequences(&a5, 5), params_grid(&[2.0, 1.3], &[0, 2], &[-6, 1], &[0, 1]));
            block("1-d sequences of 6 over five values", sequences(&a5, 6), params_grid(&[2.0], &[0, 1], &[-4], &[0]));
            block("1-d sequences of 7", sequences(&a3, 7), slim.clone());
            block("4x4 grid, 4 points", grid2(4, 1.0, 4), mid.clone());
            block("4x4 grid, 5 points", grid2(4, 1.0, 5), params_grid(&[2.0], &[0, 1], &[-4], &[0]));
        }
    } else {
        for n in 1..=2 {
            block(&format!("1-d sequences of {} over {:?}", n, a5), sequences(&a5, n), full.clone());
        }
        block("1-d sequences of 3", sequences(&a5, 3), mid.clone());
        block("1-d sequences of 4", sequences(&a5, 4), slim.clone());
        block("1-d sequences of 5", sequences(&a3, 5), slim.clone());
        block("3x3 grid, 3 points", grid2(3, 1.0, 3), mid.clone());
        block("3x3 grid, 4 points", grid2(3, 1.0, 4), params_grid(&[2.0], &[0, 1], &[-4], &[0]));
    }
    let big = structured();
    let (small, large): (Vec<_>, Vec<_>) = big.into_iter().partition(|(_, d)| d.n() < 100);
    let small: Vec<Data> = small.into_iter().map(|x| x.1).collect();
    block("structured sets", small.clone(), if run.thorough { full } else { mid.clone() });
    let odd: Vec<Params> = params_grid(&[1.5, 5.0, 10.0], &[10, 21], &[-20, 8], &[7]).into_iter().chain(params_grid(&[1.1], &[2], &[-3], &[3, 4, 5])).collect();
    block("structured sets, unusual settings", small, odd);
    // the same shape at very large and very small scales
    let shape = [0.0f32, 1.0, 2.0, 3.5, 8.0, 8.5, 8.5, -5.0, -5.25, 17.0, 100.0, 101.0];
    let far: Vec<Data> = [50, 30, -20, -45].iter().map(|e| Data::d1(&shape.iter().map(|x| x * 2.0f32.powi(*e)).collect::<Vec<_>>())).collect();
    block("shapes scaled by 2^50, 2^30, 2^-20, 2^-45", far, params_grid(&[2.0, 1.3], &[0, 2], &[-60, -10, 48], &[0]));
    let signs = [-4.0, -1.0, 0.0, 0.5, 3.0];
    block("1-d sequences of 3, both signs", sequences(&signs, 3), params_grid(&[2.0, 1.5], &[0, 1], &[-4, 1], &[0, 5]));
    // scale indexes beyond eight bits
    let far: Vec<Data> = [50, -50].iter().map(|e| Data::d1(&shape.iter().map(|x| x * 2.0f32.powi(*e)).collect::<Vec<_>>())).collect();
    block("shapes scaled by 2^50, 2^-50, hundreds of scales", far, params_grid(&[1.1], &[0, 1], &[-700], &[0, 1]));
    // scales so small that they come out as zero, where only equal points are close to each other
    let vanishing: Vec<Params> = params_grid(&[2.0], &[0, 1], &[-200], &[0]).into_iter().chain(params_grid(&[70000.0, 100.5], &[0, 1, 2], &[-12, -30], &[0, 1])).collect();
    block("1-d sequences of 3 over three values, vanishing scales", sequences(&a3, 3), vanishing.clone());
    let equal = vec![Data::d1(&[3.0; 7]), Data::d1(&[0.0; 5]), Data::d1(&[0.0, 0.0, 1.0, 1.0, 1.0, 5.0, 5.0]), Data::d1(&shape), Data { dim: 2, pts: vec![vec![1.0, 2.0], vec![2.0, 1.0], vec![1.0, 2.0], vec![2.0, 1.0], vec![1.0, 2.0]] }];
    block("sets of equal points, vanishing scales", equal, vanishing);
    if heavy {
        let many: Vec<Data> = large.iter().map(|x| x.1.clone()).filter(|d| d.n() < 500).collect();
        block("large structured sets, large cutoffs", many, params_grid(&[2.0, 3.0], &[64, 100, 200, 500], &[-4], &[0]));
        block("4300 pairs of points on a line, narrow and wide trees", vec![pairs8600()], pairs8600_params());
        block("70001 points on a line", vec![line70001()], line70001_params());
        block("160 points, over a hundred levels", vec![deep160()], params_grid(&[1.1], &[0], &[-120], &[0, 1]));
        block("large structured sets", large.into_iter().map(|x| x.1).collect(), if run.thorough { mid } else { params_grid(&[2.0], &[1, 5], &[-3, 1], &[0]) });
    }
    out
}
