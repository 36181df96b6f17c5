//! C13, C14: what is attached to the nodes, compared with brute force over the points below each node.
use crate::run::{h, Run, Seen};
use crate::trees::*;
use goko::plugins::discrete::prelude::*;
use goko::plugins::gaussians::*;
use goko::plugins::labels::*;
use goko::plugins::utils::*;
use goko::*;
use pointcloud::data_sources::DataRam;
use pointcloud::glued_data_cloud::HashGluedCloud;
use pointcloud::label_sources::*;
use pointcloud::pc_errors::*;
use pointcloud::summaries::*;
use pointcloud::*;
use std::collections::BTreeMap;
use std::sync::Arc;

/// The label (or metadata) of one point.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum L {
    Is(i64),
    None,
    Err,
}

/// A cloud with labels and metadata that may be missing or fail.
pub struct Annotated {
    data: DataRam<L2>,
    labels: Vec<L>,
    meta: Vec<(L, String)>,
}

impl Annotated {
    pub fn new(d: &Data, labels: Vec<L>, meta: Vec<L>) -> Annotated {
        Annotated {
            data: DataRam::new(d.flat(), d.dim).unwrap(),
            labels,
            meta: meta.into_iter().map(|l| (l, format!("m{:?}", l))).collect(),
        }
    }
}

impl PointCloud for Annotated {
    type Metric = L2;
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type LabelSummary = CategorySummary;
    type Label = i64;
    type MetaSummary = StringSummary;
    type Metadata = String;
    fn metadata(&self, i: usize) -> PointCloudResult<Option<&String>> {
        match &self.meta[i] {
            (L::Is(_), s) => Ok(Some(s)),
            (L::None, _) => Ok(None),
            (L::Err, _) => Err(PointCloudError::data_access(i, "no metadata".to_string())),
        }
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<StringSummary>> {
        let mut s = SummaryCounter::default();
        pns.iter().for_each(|i| s.add(self.metadata(*i)));
        Ok(s)
    }
    fn label(&self, i: usize) -> PointCloudResult<Option<&i64>> {
        match &self.labels[i] {
            L::Is(x) => Ok(Some(x)),
            L::None => Ok(None),
            L::Err => Err(PointCloudError::data_access(i, "no label".to_string())),
        }
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>> {
        let mut s = SummaryCounter::default();
        pns.iter().for_each(|i| s.add(self.label(*i)));
        Ok(s)
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.data.name(pi)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.data.index(pn)
    }
    fn names(&self) -> Vec<String> {
        self.data.names()
    }
    fn dim(&self) -> usize {
        self.data.dim()
    }
    fn len(&self) -> usize {
        self.data.len()
    }
    fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.data.reference_indexes()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        self.data.point(i)
    }
}

/// A summary in comparable form.
pub trait Canon {
    fn canon(&self) -> String;
}
impl Canon for () {
    fn canon(&self) -> String {
        String::new()
    }
}
impl Canon for CategorySummary {
    fn canon(&self) -> String {
        let m: BTreeMap<i64, Vec<usize>> = self.items.iter().fold(BTreeMap::new(), |mut m, (k, c)| {
            m.entry(*k).or_insert_with(Vec::new).push(*c);
            m
        });
        format!("{:?} count {}", m, Summary::count(self))
    }
}
impl Canon for StringSummary {
    fn canon(&self) -> String {
        let m: BTreeMap<&String, usize> = self.items.iter().map(|(k, v)| (k, *v)).collect();
        format!("{:?} count {}", m, Summary::count(self))
    }
}
impl Canon for VecSummary {
    fn canon(&self) -> String {
        format!("{:?} {:?} count {}", self.moment1, self.moment2, Summary::count(self))
    }
}
pub fn canon<S: Summary + Canon>(s: &SummaryCounter<S>) -> String {
    format!("{} nones {} errors {} total {}", s.summary().canon(), s.nones(), s.errors(), s.count())
}

/// The expected canonical form for integer labels.
pub fn expect_cat(ls: impl Iterator<Item = L>) -> String {
    let mut m: BTreeMap<i64, Vec<usize>> = BTreeMap::new();
    let (mut nones, mut errors, mut n) = (0, 0, 0);
    for l in ls {
        n += 1;
        match l {
            L::Is(x) => m.entry(x).or_insert_with(|| vec![0])[0] += 1,
            L::None => nones += 1,
            L::Err => errors += 1,
        }
    }
    format!("{:?} count {} nones {} errors {} total {}", m, n - nones - errors, nones, errors, n)
}
fn expect_str(ls: impl Iterator<Item = L>) -> String {
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    let (mut nones, mut errors, mut n) = (0, 0, 0);
    for l in ls {
        n += 1;
        match l {
            L::Is(_) => *m.entry(format!("m{:?}", l)).or_insert(0) += 1,
            L::None => nones += 1,
            L::Err => errors += 1,
        }
    }
    format!("{:?} count {} nones {} errors {} total {}", m, n - nones - errors, nones, errors, n)
}
/// Vector labels of integers, so that moments are exact.
pub fn expect_vec(ls: impl Iterator<Item = Option<Vec<f32>>>) -> String {
    let (mut m1, mut m2): (Vec<f32>, Vec<f32>) = (vec![], vec![]);
    let (mut nones, mut n) = (0, 0);
    for l in ls {
        n += 1;
        match l {
            None => nones += 1,
            Some(v) => {
                if m1.is_empty() {
                    m1 = vec![0.0; v.len()];
                    m2 = m1.clone();
                }
                for (i, x) in v.iter().enumerate() {
                    m1[i] += x;
                    m2[i] += x * x;
                }
            }
        }
    }
    format!("{:?} {:?} count {} nones {} errors 0 total {}", m1, m2, n - nones, nones, n)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Label,
    Meta,
    Cover,
    CoverMax(usize),
    Dir,
    Cat,
    Gauss,
    GaussSingles,
    NewReader,
}

pub fn attach<D: PointCloud>(w: &mut CoverTreeWriter<D>, op: Op) {
    match op {
        Op::Label => w.generate_summaries(),
        Op::Meta => w.generate_meta_summaries(),
        Op::Cover => w.add_plugin::<GokoCoverageIndexes>(GokoCoverageIndexes::new()),
        Op::CoverMax(m) => w.add_plugin::<GokoCoverageIndexes>(GokoCoverageIndexes::restricted(m)),
        Op::Dir => w.add_plugin::<GokoDirichlet>(GokoDirichlet::default()),
        Op::Cat => w.add_plugin::<GokoCategorical>(GokoCategorical {}),
        Op::Gauss => w.add_plugin::<GokoDiagGaussian>(GokoDiagGaussian::recursive()),
        Op::GaussSingles => w.add_plugin::<GokoDiagGaussian>(GokoDiagGaussian::singletons()),
        Op::NewReader => {}
    }
}

type Probs = Option<(Vec<(NodeAddress, f64)>, f64)>;

/// Where the points of a node go: one entry per child, and the points it holds itself.
pub fn node_counts(s: &Snap, a: NodeAddress) -> (BTreeMap<NodeAddress, f64>, f64) {
    let n = &s.nodes[&a];
    let kids = s.child_addrs(a).into_iter().map(|c| (c, s.covered(c).len() as f64)).collect();
    let own = n.singles.len() + if n.children.is_none() { 1 } else { 0 };
    (kids, own as f64)
}

fn check_probs(what: &str, got: Probs, total: f64, kids: &BTreeMap<NodeAddress, f64>, own: f64) -> Result<(), String> {
    let want: f64 = kids.values().sum::<f64>() + own;
    if total != want {
        return Err(format!("{} total {} but {} points are below", what, total, want));
    }
    let (v, s) = got.ok_or(format!("{} has no probability vector", what))?;
    let m: BTreeMap<NodeAddress, f64> = v.iter().cloned().collect();
    if m.len() != v.len() || m.len() != kids.len() {
        return Err(format!("{} lists children {:?}, expected {:?}", what, v, kids));
    }
    for (k, c) in kids {
        let p = *m.get(k).ok_or(format!("{} misses child {:?}", what, k))?;
        if (p * want - c).abs() > 1e-6 * want {
            return Err(format!("{} counts {} at {:?}, expected {}", what, p * want, k, c));
        }
    }
    if (s * want - own).abs() > 1e-6 * want {
        return Err(format!("{} counts {} own points, expected {}", what, s * want, own));
    }
    Ok(())
}

fn check_gauss(g: &DiagGaussian, d: &Data, pts: &[usize]) -> Result<(), String> {
    let n = pts.len();
    if g.count() != n {
        return Err(format!("gaussian counts {} of {} points", g.count(), n));
    }
    if g.dim() != d.dim {
        return Err(format!("gaussian has dimension {}", g.dim()));
    }
    let (mean, var) = (g.mean(), g.var());
    for k in 0..d.dim {
        let xs: Vec<f64> = pts.iter().map(|i| d.pts[*i][k] as f64).collect();
        let (m, v) = if n == 0 {
            (0.0, 0.0)
        } else {
            let m = xs.iter().sum::<f64>() / n as f64;
            (m, xs.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n as f64)
        };
        let scale = xs.iter().fold(1.0f64, |a, x| a.max(x.abs()));
        // sums of n values in single precision
        let tol = 1e-5 + if n > 200 { n as f64 * 1.2e-7 } else { 0.0 };
        if (mean[k] as f64 - m).abs() > tol * scale || (var[k] as f64 - v).abs() > 2.0 * tol * scale * scale {
            return Err(format!("gaussian mean {} var {} in coordinate {}, expected {} and {}", mean[k], var[k], k, m, v));
        }
    }
    Ok(())
}

/// Compares everything attached so far with brute force, through every access path.
pub fn check_attached<D: PointCloud>(
    r: &CoverTreeReader<D>,
    s: &Snap,
    done: &[Op],
    d: &Data,
    labels: &dyn Fn(&[usize]) -> String,
    metas: &dyn Fn(&[usize]) -> String,
) -> Result<(u64, String), String>
where
    D::LabelSummary: Canon,
    D::MetaSummary: Canon,
{
    let has = |o: Op| done.contains(&o);
    let mut steps = 0;
    let mut seen = String::new();
    for (a, n) in &s.nodes {
        let mut cov = s.covered(*a);
        cov.sort_unstable();
        let at = |e: String| format!("node {:?} after {:?}: {}", a, done, e);
        let same = |what: &str, got: Option<String>, want: Option<String>| {
            if got != want {
                Err(at(format!("{} is {:?}, expected {:?}", what, got, want)))
            } else {
                Ok(())
            }
        };
        let want_l = if has(Op::Label) { Some(labels(&cov)) } else { None };
        same("label summary", r.get_node_label_summary(*a).map(|x| canon(&x)), want_l.clone())?;
        same("label summary of the node", r.get_node_and(*a, |n| n.label_summary().map(|x| canon(&x))).flatten(), want_l)?;
        let want_m = if has(Op::Meta) { Some(metas(&cov)) } else { None };
        same("metadata summary", r.get_node_metasummary(*a).map(|x| canon(&x)), want_m.clone())?;
        same("metadata summary of the node", r.get_node_and(*a, |n| n.metasummary().map(|x| canon(&x))).flatten(), want_m)?;
        // coverage
        let idx = |p: &CoverageIndexes| {
            let mut v = p.point_indexes().to_vec();
            v.sort_unstable();
            v
        };
        let got = r.get_node_plugin_and::<CoverageIndexes, _, _>(*a, idx);
        let via_layer = r.layer(a.0).get_node_plugin_and::<CoverageIndexes, _, _>(a.1, idx);
        if got != via_layer {
            return Err(at("the layer and the tree disagree on the coverage".into()));
        }
        let maxes: Vec<usize> = done.iter().filter_map(|o| if let Op::CoverMax(m) = o { Some(*m) } else { None }).collect();
        match &got {
            Some(v) if *v != cov => return Err(at(format!("coverage {:?}, expected {:?}", v, cov))),
            Some(_) if !has(Op::Cover) && !maxes.iter().any(|m| cov.len() < *m) => return Err(at("coverage attached although not asked for".into())),
            None if has(Op::Cover) || maxes.iter().any(|m| cov.len() < *m) => return Err(at("coverage is missing".into())),
            _ => {}
        }
        let (kids, own) = node_counts(s, *a);
        match r.get_node_plugin_and::<Dirichlet, _, _>(*a, |p| (p.prob_vector(), p.total())) {
            Some((p, t)) => check_probs("Dirichlet", p, t, &kids, own).map_err(at)?,
            None if has(Op::Dir) => return Err(at("Dirichlet is missing".into())),
            None => {}
        }
        match r.get_node_plugin_and::<Categorical, _, _>(*a, |p| (p.prob_vector(), p.total())) {
            Some((p, t)) => check_probs("Categorical", p, t, &kids, own).map_err(at)?,
            None if has(Op::Cat) => return Err(at("Categorical is missing".into())),
            None => {}
        }
        let last = done.iter().rev().find(|o| **o == Op::Gauss || **o == Op::GaussSingles);
        let g = r.get_node_plugin_and::<DiagGaussian, _, _>(*a, |p| p.clone());
        match (g, last) {
            (Some(g), Some(Op::Gauss)) => check_gauss(&g, d, &cov).map_err(at)?,
            (Some(g), Some(_)) => {
                let mut own = n.singles.clone();
                if n.children.is_none() {
                    own.push(a.1)
                }
                check_gauss(&g, d, &own).map_err(at)?
            }
            (None, None) => {}
            (g, _) => return Err(at(format!("gaussian attached: {}", g.is_some()))),
        }
        steps += 6;
        seen.push_str(&format!("{:?}{:?}{:?}", a, got, r.get_node_label_summary(*a).map(|x| canon(&x))));
    }
    let tree_level = [
        (has(Op::Dir), r.get_plugin_and::<GokoDirichlet, _, _>(|_| ()).is_some()),
        (has(Op::Cat), r.get_plugin_and::<GokoCategorical, _, _>(|_| ()).is_some()),
        (has(Op::Label), r.get_plugin_and::<LabelSummaryPlugin, _, _>(|_| ()).is_some()),
        (has(Op::Meta), r.get_plugin_and::<MetaSummaryPlugin, _, _>(|_| ()).is_some()),
    ];
    if tree_level.iter().any(|(a, b)| a != b) {
        return Err(format!("after {:?} the tree lists attachments {:?}", done, tree_level));
    }
    Ok((steps, seen))
}

/// Runs one attachment history, checking with readers made before, between and after.
fn history<D: PointCloud>(
    cloud: Arc<D>,
    d: &Data,
    p: &Params,
    ops: &[Op],
    labels: &dyn Fn(&[usize]) -> String,
    metas: &dyn Fn(&[usize]) -> String,
) -> Result<Seen, String>
where
    D::LabelSummary: Canon,
    D::MetaSummary: Canon,
{
    let mut w = build_on(cloud, p).map_err(|e| format!("build failed: {:?}", e))?;
    let mut readers = vec![w.reader()];
    let s = snap(&readers[0])?;
    let mut done = vec![];
    let mut steps = 0;
    let mut seen = String::new();
    for op in ops {
        attach(&mut w, *op);
        done.push(*op);
        readers.push(w.reader());
        let c = readers[0].clone();
        readers.push(c);
        for (i, r) in readers.iter().enumerate() {
            let (n, x) = check_attached(r, &s, &done, d, labels, metas).map_err(|e| format!("reader {}: {}", i, e))?;
            steps += n;
            seen = x;
        }
        if snap(&readers[0])? != s {
            return Err(format!("attaching {:?} changed the tree", op));
        }
    }
    Ok(Seen { hash: h(&(seen, format!("{:?}", ops))), transitions: steps })
}

fn all_labels(n: usize, alpha: &[L]) -> Vec<Vec<L>> {
    let k = alpha.len();
    (0..k.pow(n as u32))
        .map(|mut c| {
            (0..n)
                .map(|_| {
                    let l = alpha[c % k];
                    c /= k;
                    l
                })
                .collect()
        })
        .collect()
}

fn pick(ls: &[L]) -> (Vec<i64>, Option<Vec<bool>>) {
    (
        ls.iter().map(|l| if let L::Is(x) = l { *x } else { 7 }).collect(),
        if ls.iter().all(|l| matches!(l, L::Is(_))) { None } else { Some(ls.iter().map(|l| matches!(l, L::Is(_))).collect()) },
    )
}

fn op_sequences(alpha: &[Op], n: usize) -> Vec<Vec<Op>> {
    let k = alpha.len();
    (0..k.pow(n as u32))
        .map(|mut c| {
            (0..n)
                .map(|_| {
                    let l = alpha[c % k];
                    c /= k;
                    l
                })
                .collect()
        })
        .collect()
}

pub fn c13(run: &'static Run) {
    let a5 = [0.0, 1.0, 2.0, 3.5, 8.0];
    let ps = params_grid(&[2.0], &[0, 1, 3], &[-4, 1], &[0]);
    let mut small: Vec<Data> = (1..=3).flat_map(|n| sequences(&a5, n)).collect();
    small.extend(sequences(&[0.0, 1.0, 4.0], 4));
    let some: Vec<Data> = vec![Data::d1(&[0.0, 1.0, 3.5, 8.0]), Data::d1(&[2.0, 2.0, 5.0, 9.0, 1.0]), Data::d1(&[0.0, 1.0, 2.0, 3.0, 4.0, 16.0])];
    // 1. every label assignment, on every small tree, three kinds of label source
    let alpha = [L::Is(0), L::Is(-3), L::None, L::Err];
    let mut jobs: Vec<(Data, Params, Vec<L>)> = vec![];
    for d in small.iter().chain(&some[..2]) {
        let al = if d.n() <= 3 { &alpha[..] } else if d.n() == 4 && run.thorough { &alpha[..] } else { &alpha[..3] };
        for ls in all_labels(d.n(), al) {
            for p in &ps {
                if d.n() == 4 && !run.thorough && p.seed + p.cutoff as u64 == 3 {
                    continue;
                }
                if d.n() == 3 && !run.thorough && p.min_res == 1 && p.first {
                    continue;
                }
                jobs.push((d.clone(), *p, ls.clone()));
            }
        }
    }
    run.bound(format!("{} combinations of tree (1-4 points over {:?} x parameters) and label assignment over {:?}, attached twice", jobs.len(), a5, alpha));
    run.par(jobs.len(), |i| {
        let (d, p, ls) = &jobs[i];
        let n = d.n();
        let ms: Vec<L> = (0..n).map(|k| ls[(k + 1) % n]).collect();
        let lab = |v: &[usize]| expect_cat(v.iter().map(|k| ls[*k]));
        let met = |v: &[usize]| expect_str(v.iter().map(|k| ms[*k]));
        run.case(
            || format!("annotated {:?} {:?} labels {:?}", d.pts, p, ls),
            || history(Arc::new(Annotated::new(d, ls.clone(), ms.clone())), d, p, &[Op::Label, Op::Meta], &lab, &met),
        );
        if ls.iter().any(|l| *l == L::Err) {
            return;
        }
        let (vals, mask) = pick(ls);
        let none = |v: &[usize]| format!(" nones {} errors 0 total {}", v.len(), v.len());
        run.case(
            || format!("int labels {:?} {:?} labels {:?}", d.pts, p, ls),
            || {
                let c = SimpleLabeledCloud::new(DataRam::<L2>::new(d.flat(), d.dim).unwrap(), SmallIntLabels::new(vals.clone(), mask.clone()));
                history(Arc::new(c), d, p, &[Op::Meta, Op::Label], &lab, &none)
            },
        );
        run.case(
            || format!("vector labels {:?} {:?} labels {:?}", d.pts, p, ls),
            || {
                let vl = VecLabels::new(vals.iter().flat_map(|x| vec![*x as f32, 1.0 - *x as f32]).collect(), 2, mask.clone());
                let c = SimpleLabeledCloud::new(DataRam::<L2>::new(d.flat(), d.dim).unwrap(), vl);
                let lab = |v: &[usize]| expect_vec(v.iter().map(|k| if let L::Is(x) = ls[*k] { Some(vec![x as f32, 1.0 - x as f32]) } else { None }));
                history(Arc::new(c), d, p, &[Op::Label], &lab, &none)
            },
        );
        run.case(
            || format!("glued labels {:?} {:?} labels {:?}", d.pts, p, ls),
            || {
                let m = (n + 1) / 2;
                let part = |a: usize, b: usize| {
                    SimpleLabeledCloud::new(
                        DataRam::<L2>::new(d.pts[a..b].iter().flatten().cloned().collect(), d.dim).unwrap(),
                        SmallIntLabels::new(vals[a..b].to_vec(), mask.as_ref().map(|x| x[a..b].to_vec())),
                    )
                };
                history(Arc::new(HashGluedCloud::new(vec![part(0, m), part(m, n)])), d, p, &[Op::Label], &lab, &none)
            },
        );
    });
    // 2. every attachment history
    let ops = [Op::Label, Op::Meta, Op::Cover, Op::CoverMax(3), Op::Dir, Op::Gauss, Op::GaussSingles, Op::Cat];
    let depth = if run.thorough { 5 } else { 3 };
    let seqs: Vec<Vec<Op>> = (1..=depth).flat_map(|n| op_sequences(&ops, n)).collect();
    let hist_ps = [ps[0], Params { cutoff: 1, singles: false, ..ps[0] }, Params { first: true, cutoff: 3, ..ps[0] }];
    run.bound(format!("all {} attachment histories up to length {} over {:?} on {} trees", seqs.len(), depth, ops, some.len() * hist_ps.len()));
    run.par(seqs.len(), |i| {
        for d in &some {
            for p in &hist_ps {
                let n = d.n();
                let ls: Vec<L> = (0..n).map(|k| alpha[k % 4]).collect();
                let ms: Vec<L> = (0..n).map(|k| alpha[(k + 2) % 4]).collect();
                let lab = |v: &[usize]| expect_cat(v.iter().map(|k| ls[*k]));
                let met = |v: &[usize]| expect_str(v.iter().map(|k| ms[*k]));
                run.case(
                    || format!("history {:?} {:?} {:?}", seqs[i], d.pts, p),
                    || history(Arc::new(Annotated::new(d, ls.clone(), ms.clone())), d, p, &seqs[i], &lab, &met),
                );
            }
        }
    });
    // 3. larger trees, and loaded ones
    let big = structured();
    run.bound("structured sets up to 160 points, and 4300 pairs of points on a line with 2500 labels, built and loaded, all kinds attached");
    let bp = params_grid(&[2.0, 1.3], &[0, 2, 6], &[-6, 1], &[0]);
    // the long ones first
    let mut jobs: Vec<(&str, Data, Params)> = pairs8600_params().into_iter().filter(|p| p.singles != p.first).map(|p| ("pairs8600", pairs8600(), p)).collect();
    for (name, d) in &big {
        if d.n() <= 200 || run.thorough {
            jobs.extend(bp.iter().map(|p| (*name, d.clone(), *p)));
        }
    }
    jobs.extend(params_grid(&[1.1], &[0], &[-120], &[0]).into_iter().map(|p| ("deep160", deep160(), p)));
    run.par(jobs.len(), |i| {
        let (name, d, p) = &jobs[i];
        let n = d.n();
        let many = |l: L, k: usize| if let (L::Is(_), true) = (l, n > 200) { L::Is((k % 2500) as _) } else { l };
        let ls: Vec<L> = (0..n).map(|k| many(alpha[(k * k + k / 3) % 4], k)).collect();
        let ms: Vec<L> = (0..n).map(|k| many(alpha[(k + k / 5) % 4], k / 2)).collect();
        let lab = |v: &[usize]| expect_cat(v.iter().map(|k| ls[*k]));
        let met = |v: &[usize]| expect_str(v.iter().map(|k| ms[*k]));
        let all = if n > 1000 && !run.deep { vec![Op::Label, Op::Meta, Op::Label] } else { vec![Op::Gauss, Op::Label, Op::Cover, Op::Meta, Op::Dir, Op::Cat, Op::Label] };
        run.case(
            || format!("structured {} {:?}", name, p),
            || history(Arc::new(Annotated::new(d, ls.clone(), ms.clone())), d, p, &all, &lab, &met),
        );
        run.case(
            || format!("loaded {} {:?}", name, p),
            || {
                let c = Arc::new(Annotated::new(d, ls.clone(), ms.clone()));
                let mut w = build_on(Arc::clone(&c), p).map_err(|e| format!("build failed: {:?}", e))?;
                attach(&mut w, Op::Label);
                let proto = w.save();
                let mut w2 = CoverTreeWriter::load(&proto, c).map_err(|e| format!("load failed: {:?}", e))?;
                let mut done = vec![];
                let r0 = w2.reader();
                let s = snap(&r0)?;
                let mut steps = 0;
                let ops = [Op::Meta, Op::Label, Op::Cover, Op::Dir, Op::Gauss];
                for op in ops[..if n > 1000 && !run.deep { 2 } else { 5 }].iter() {
                    attach(&mut w2, *op);
                    done.push(*op);
                    for r in [&r0, &w2.reader()].iter() {
                        steps += check_attached(r, &s, &done, d, &lab, &met)?.0;
                    }
                }
                Ok(Seen { hash: s.hash(), transitions: steps })
            },
        );
    });
    run.assume("attached values are compared on integer-valued labels, where sums are exact");
}

pub fn c14(run: &'static Run) {
    // 1. attached to every node of every tree
    let sp = space(run, true);
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(
            || format!("{:?} {:?}", d.pts, p),
            || {
                let mut w = build(d, p)?;
                let r = w.reader();
                let s = snap(&r)?;
                let mut done = vec![];
                let mut steps = 0;
                let none = |v: &[usize]| format!(" nones {} errors 0 total {}", v.len(), v.len());
                for op in [Op::Dir, Op::Gauss, Op::Cat, Op::GaussSingles].iter() {
                    attach(&mut w, *op);
                    done.push(*op);
                    if d.n() > 50 && *op != Op::GaussSingles && *op != Op::Gauss {
                        continue;
                    }
                    steps += check_attached(&r, &s, &done, d, &none, &none)?.0;
                }
                Ok(Seen { hash: s.hash(), transitions: steps })
            },
        );
    });
    // 2. every history of adding, removing and merging
    let depth = if run.thorough { 9 } else { 7 };
    let pts = [vec![1.0f32, -2.0], vec![3.0, 0.5], vec![0.0, 4.0]];
    let nops = 3 + 3 + 2; // add i, remove i, merge a fixed pair, merge self's copy
    let total: usize = (1..=depth).map(|n| 8usize.pow(n as u32)).sum::<usize>();
    run.bound(format!("all histories of up to {} add/remove/merge operations on a gaussian with 3 points ({} before pruning removals of absent points)", depth, total));
    fn rec(run: &Run, pts: &[Vec<f32>], g: &DiagGaussian, held: [usize; 3], trace: &mut Vec<usize>, depth: usize, n: &mut (u64, std::collections::HashSet<[usize; 3]>), nops: usize) -> Result<(), String> {
        let members: Vec<usize> = (0..3).flat_map(|i| std::iter::repeat(i).take(held[i])).collect();
        let d = Data { dim: 2, pts: pts.to_vec() };
        check_gauss(g, &d, &members).map_err(|e| format!("after {:?}: {}", trace, e))?;
        n.0 += 1;
        n.1.insert(held);
        if trace.len() == depth {
            return Ok(());
        }
        for op in 0..nops {
            let mut g2 = g.clone();
            let mut held2 = held;
            match op {
                0..=2 => {
                    g2.add_point(&&pts[op][..]);
                    held2[op] += 1;
                }
                3..=5 => {
                    if held[op - 3] == 0 {
                        continue;
                    }
                    g2.remove_point(&&pts[op - 3][..]);
                    held2[op - 3] -= 1;
                }
                6 => {
                    let mut o = DiagGaussian::new(2);
                    o.add_point(&&pts[0][..]);
                    o.add_point(&&pts[2][..]);
                    g2.merge(&o);
                    held2[0] += 1;
                    held2[2] += 1;
                }
                _ => {
                    g2.merge(g);
                    held2 = [2 * held[0], 2 * held[1], 2 * held[2]];
                }
            }
            trace.push(op);
            rec(run, pts, &g2, held2, trace, depth, n, nops)?;
            trace.pop();
        }
        Ok(())
    }
    run.par(8, |first| {
        run.case(
            || format!("gaussian histories starting with {}", first),
            || {
                if (3..=5).contains(&first) || first == 7 {
                    // removing from / doubling an empty gaussian
                    let mut g = DiagGaussian::new(2);
                    if first == 7 {
                        let o = g.clone();
                        g.merge(&o)
                    }
                    check_gauss(&g, &Data { dim: 2, pts: pts.to_vec() }, &[])?;
                    return Ok(Seen { hash: 0, transitions: 1 });
                }
                let mut g = DiagGaussian::new(2);
                let mut held = [0; 3];
                if first < 3 {
                    g.add_point(&&pts[first][..]);
                    held[first] += 1;
                } else {
                    let mut o = DiagGaussian::new(2);
                    o.add_point(&&pts[0][..]);
                    o.add_point(&&pts[2][..]);
                    g.merge(&o);
                    held = [1, 0, 1];
                }
                let mut n = (0, Default::default());
                rec(run, &pts, &g, held, &mut vec![first], depth, &mut n, nops)?;
                run.add_execs(n.0);
                run.add_outcomes(n.1.iter().map(|x| h(x)));
                Ok(Seen { hash: first as u64, transitions: n.0 })
            },
        );
    });
    // 3. Dirichlet observations: every history of observations and weights, and evidence taken from real trackers
    let locs = [None, Some((0, 0)), Some((-1, 2)), Some((-1, 0))];
    let depth = if run.thorough { 8 } else { 6 };
    run.bound(format!("all histories of up to {} observations and re-weightings of a Dirichlet over {:?}", depth, locs));
    fn recd(locs: &[Option<NodeAddress>], g: &Dirichlet, want: &BTreeMap<Option<NodeAddress>, f64>, left: usize, n: &mut u64) -> Result<(), String> {
        let kids: BTreeMap<NodeAddress, f64> = want.iter().filter_map(|(k, v)| k.map(|k| (k, *v))).collect();
        let own = *want.get(&None).unwrap_or(&0.0);
        if kids.is_empty() && own == 0.0 {
            if g.total() != 0.0 {
                return Err("an empty Dirichlet has a total".into());
            }
        } else {
            check_probs("Dirichlet", g.prob_vector(), g.total(), &kids, own).map_err(|e| format!("{:?}: {}", want, e))?;
        }
        *n += 1;
        if left == 0 {
            return Ok(());
        }
        for l in locs {
            let mut g2 = g.clone();
            g2.add_observation(*l);
            let mut w2 = want.clone();
            *w2.entry(*l).or_insert(0.0) += 1.0;
            recd(locs, &g2, &w2, left - 1, n)?;
        }
        for f in [0.5, 2.0].iter() {
            let mut g2 = g.clone();
            g2.weight(*f);
            let w2 = want.iter().map(|(k, v)| (*k, v * f)).collect();
            recd(locs, &g2, &w2, left - 1, n)?;
        }
        Ok(())
    }
    run.case(
        || "dirichlet histories".into(),
        || {
            let mut n = 0;
            recd(&locs, &Dirichlet::new(), &BTreeMap::new(), depth, &mut n)?;
            run.add_execs(n);
            Ok(Seen { hash: 1, transitions: n })
        },
    );
    // many coordinates, and many children under one node
    run.bound("gaussians of 65, 300 and 784 coordinates under 12 adds, removes and merges; the Dirichlets of trees with 40 and 150 children under one node");
    for dim in [65usize, 300, 784].iter() {
        run.case(
            || format!("gaussian of {} coordinates", dim),
            || {
                let pts: Vec<Vec<f32>> = (0..5usize).map(|i| (0..*dim).map(|k| ((i * (k + 3) + k * k) % 17) as f32 * 0.5 - 4.0).collect()).collect();
                let d = Data { dim: *dim, pts: pts.clone() };
                let mut g = DiagGaussian::new(*dim);
                let mut held: Vec<usize> = vec![];
                for step in 0..12usize {
                    match step % 4 {
                        3 if step % 8 == 3 => {
                            let mut o = DiagGaussian::new(*dim);
                            o.add_point(&&pts[1][..]);
                            o.add_point(&&pts[4][..]);
                            g.merge(&o);
                            held.extend(&[1, 4]);
                        }
                        3 => {
                            let i = held.remove(0);
                            g.remove_point(&&pts[i][..]);
                        }
                        _ => {
                            g.add_point(&&pts[step % 5][..]);
                            held.push(step % 5);
                        }
                    }
                    check_gauss(&g, &d, &held).map_err(|e| format!("after {} steps: {}", step + 1, e))?;
                }
                Ok(Seen { hash: *dim as u64, transitions: 12 })
            },
        );
    }
    // more points below one child than 16 bits count
    run.bound("70000 points, 65882 of them below one child");
    for first in [true, false].iter() {
        run.case(
            || format!("70000 points {}", first),
            || {
                let d = Data::d1(&(0..70_000).map(|i| if i % 17 == 0 { 9.0 } else { 1.0 }).collect::<Vec<f32>>());
                let p = Params { base: 2.0, cutoff: 66_000, min_res: -1, singles: true, first: *first, seed: 0 };
                let mut w = build(&d, &p)?;
                let r = w.reader();
                let s = snap(&r)?;
                if !s.nodes.keys().any(|a| s.nodes[a].parent.is_some() && s.covered(*a).len() == 65_882) {
                    return Err(format!("no child covers the 65882 equal points: {} nodes", s.nodes.len()));
                }
                let none = |v: &[usize]| format!(" nones {} errors 0 total {}", v.len(), v.len());
                let done = [Op::Dir, Op::Gauss, Op::Cat, Op::Cover];
                done.iter().for_each(|o| attach(&mut w, *o));
                let steps = check_attached(&r, &s, &done, &d, &none, &none)?.0;
                Ok(Seen { hash: s.hash(), transitions: steps })
            },
        );
    }
    for n in [40usize, 150].iter() {
        for singles in [true, false].iter() {
            for first in [true, false].iter() {
                run.case(
                    || format!("{} children under one node, {} {}", n, singles, first),
                    || {
                        let d = Data::d1(&(0..2 * n).map(|i| ((i / 2 * 77) % n) as f32 * 2.0 + (i % 2) as f32 * 0.5).collect::<Vec<_>>());
                        let p = Params { base: 4.0 * *n as f32, cutoff: 0, min_res: -1, singles: *singles, first: *first, seed: 0 };
                        let mut w = build(&d, &p)?;
                        let r = w.reader();
                        let s = snap(&r)?;
                        let none = |v: &[usize]| format!(" nones {} errors 0 total {}", v.len(), v.len());
                        attach(&mut w, Op::Dir);
                        attach(&mut w, Op::Gauss);
                        let steps = check_attached(&r, &s, &[Op::Dir, Op::Gauss], &d, &none, &none)?.0;
                        Ok(Seen { hash: s.hash(), transitions: steps })
                    },
                );
            }
        }
    }
    // 4. evidence added to a node's Dirichlet equals the observations added one by one
    let some: Vec<Data> = vec![Data::d1(&[0.0, 1.0, 3.5, 8.0]), Data::d1(&[2.0, 2.0, 5.0, 9.0, 1.0]), Data::d1(&[0.0, 1.0, 2.0, 3.0, 4.0, 16.0])];
    let ps = params_grid(&[2.0], &[0, 2], &[-4], &[0]);
    run.bound("evidence of every subset of up to 6 recorded paths added to every node's Dirichlet");
    run.par(some.len() * ps.len(), |i| {
        let (d, p) = (&some[i / ps.len()], &ps[i % ps.len()]);
        run.case(
            || format!("evidence {:?} {:?}", d.pts, p),
            || {
                let mut w = build(d, p)?;
                attach(&mut w, Op::Dir);
                let r = w.reader();
                let mut steps = 0;
                for set in 0..1usize << d.n() {
                    let mut t = BayesCategoricalTracker::new(0, w.reader());
                    let mut direct: BTreeMap<NodeAddress, Vec<Option<NodeAddress>>> = BTreeMap::new();
                    for k in (0..d.n()).filter(|k| set >> k & 1 == 1) {
                        let path = r.known_path(k).map_err(|e| format!("{:?}", e))?;
                        for (j, (_, a)) in path.iter().enumerate() {
                            direct.entry(*a).or_insert_with(Vec::new).push(path.get(j + 1).map(|x| x.1));
                        }
                        t.add_path(path);
                    }
                    // a fresh Dirichlet, and that of another node, also take any evidence
                    let root = r.get_node_plugin_and::<Dirichlet, _, _>(r.root_address(), |p| p.clone()).ok_or("no Dirichlet")?;
                    for (a, obs) in &direct {
                        for start in [&root, &Dirichlet::new()].iter() {
                            let (mut one, mut all) = ((*start).clone(), (*start).clone());
                            obs.iter().for_each(|o| one.add_observation(*o));
                            all.add_evidence(t.running_evidence().get(a).ok_or(format!("no evidence at {:?}", a))?);
                            if one.prob_vector() != all.prob_vector() || one.total() != all.total() {
                                return Err(format!("evidence {:?} of {:?} added to {:?}: {:?} against {:?}", obs, a, start, all, one));
                            }
                            steps += 1;
                        }
                    }
                    for (a, obs) in direct {
                        let mut one = r.get_node_plugin_and::<Dirichlet, _, _>(a, |p| p.clone()).ok_or("no Dirichlet")?;
                        let mut all = one.clone();
                        obs.iter().for_each(|o| one.add_observation(*o));
                        all.add_evidence(t.running_evidence().get(&a).ok_or(format!("no evidence at {:?}", a))?);
                        if one.prob_vector() != all.prob_vector() || one.total() != all.total() {
                            return Err(format!("at {:?} with {:?}: {:?} against {:?}", a, obs, all, one));
                        }
                        steps += 1;
                    }
                }
                Ok(Seen { hash: h(&format!("{:?}", d.pts)), transitions: steps })
            },
        );
    });
    run.assume("means and variances are compared to 1e-5 of the data's scale (single precision accumulation; plus an ulp per point beyond 200 points)");
}
