//! C18: point sources, however put together. C19: labels and their summaries.
use crate::plugs::{canon, expect_cat, expect_vec, Annotated, Canon, L};
use crate::run::{h, Run, Seen};
use crate::trees::{tmp, Data};
use pointcloud::data_sources::{DataMemmap, DataRam};
use pointcloud::glued_data_cloud::HashGluedCloud;
use pointcloud::label_sources::*;
use pointcloud::loaders::*;
use pointcloud::pc_errors::*;
use pointcloud::summaries::*;
use pointcloud::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One original point.
#[derive(Clone, Debug, PartialEq)]
struct Pt {
    x: Vec<f32>,
    label: Option<String>,
    meta: Option<String>,
    name: String,
}

type Want = BTreeMap<usize, Pt>;

/// Everything the trait offers, for every index around the range.
fn check_cloud<C: PointCloud<Point = [f32]>>(c: &C, want: &Want, dim: usize, show_label: &dyn Fn(&C::Label) -> String, show_meta: &dyn Fn(&C::Metadata) -> String) -> Result<u64, String>
where
    C::LabelSummary: Canon,
    C::MetaSummary: Canon,
{
    if c.len() != want.len() || c.is_empty() != want.is_empty() {
        return Err(format!("{} points (empty: {}), expected {}", c.len(), c.is_empty(), want.len()));
    }
    let mut refs = c.reference_indexes();
    refs.sort_unstable();
    if refs.iter().ne(want.keys()) {
        return Err(format!("indexes {:?}, expected {:?}", refs, want.keys()));
    }
    if !want.is_empty() && c.dim() != dim {
        return Err(format!("dimension {}", c.dim()));
    }
    let mut names: Vec<String> = c.names();
    names.sort();
    let mut wn: Vec<String> = want.values().map(|p| p.name.clone()).collect();
    wn.sort();
    if names != wn {
        return Err(format!("names {:?}, expected {:?}", names, wn));
    }
    for (i, p) in want {
        let x = c.point(*i).map_err(|e| format!("point {}: {}", i, e))?;
        if x.dense() != p.x || x.dense_iter().collect::<Vec<f32>>() != p.x || x[..] != p.x[..] {
            return Err(format!("point {} is {:?}, expected {:?}", i, x.dense(), p.x));
        }
        let l = c.label(*i).map_err(|e| format!("label {}: {}", i, e))?.map(|l| show_label(l));
        if l != p.label {
            return Err(format!("label {} is {:?}, expected {:?}", i, l, p.label));
        }
        let m = c.metadata(*i).map_err(|e| format!("metadata {}: {}", i, e))?.map(|l| show_meta(l));
        if m != p.meta {
            return Err(format!("metadata {} is {:?}, expected {:?}", i, m, p.meta));
        }
        match c.name(*i) {
            Ok(n) if n == p.name => {}
            n => return Err(format!("name of {} is {:?}, expected {}", i, n.ok(), p.name)),
        }
        // (the way back takes long in large clouds)
        if want.len() > 2000 && i % 401 != 0 && i + 1 != want.len() {
            continue;
        }
        let ix = c.index(&p.name).map_err(|e| format!("index of {}: {}", p.name, e))?;
        let same: Vec<&usize> = want.iter().filter(|q| q.1.name == p.name).map(|q| q.0).collect();
        if !same.contains(&&ix) {
            return Err(format!("the index of {:?} is {}, expected one of {:?}", p.name, ix, same));
        }
        let a = c.point_dense_array(*i).map_err(|e| e.to_string())?;
        if a.iter().ne(p.x.iter()) {
            return Err(format!("dense array of {} is {:?}", i, a));
        }
    }
    let top = want.keys().last().cloned().unwrap_or(0);
    let mut absent: Vec<usize> = (0..top + 4).filter(|i| !want.contains_key(i)).collect();
    absent.extend(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX / 3 + 1, 1 << 32, 1 << 62]);
    for i in &absent {
        if c.point(*i).is_ok() {
            return Err(format!("index {} is out of range and yields {:?}", i, c.point(*i).unwrap().dense()));
        }
        if let Ok(Some(_)) = c.label(*i) {
            return Err(format!("index {} is out of range and has a label", i));
        }
        if let Ok(Some(_)) = c.metadata(*i) {
            return Err(format!("index {} is out of range and has metadata", i));
        }
        if let Ok(n) = c.name(*i) {
            return Err(format!("index {} is out of range and has the name {:?}", i, n));
        }
    }
    for n in absent.iter().map(|i| i.to_string()).chain(["", "x", "-1", "0x", "1x", "0.0", " 0", "0 ", "0\n", "000000000x", "00000000000000000000000000000000x", "18446744073709551616", "\u{e9}"].iter().map(|n| n.to_string())) {
        if !wn.contains(&n) {
            if let Ok(i) = c.index(&n) {
                return Err(format!("the name {:?} is unknown and leads to {}", n, i));
            }
        }
    }
    // all points at once
    let ix: Vec<usize> = want.keys().rev().cloned().collect();
    if !ix.is_empty() {
        let m = c.points_dense_matrix(&ix).map_err(|e| e.to_string())?;
        if m.iter().cloned().collect::<Vec<f32>>() != ix.iter().flat_map(|i| want[i].x.clone()).collect::<Vec<f32>>() {
            return Err(format!("dense matrix {:?}", m));
        }
    }
    let ls = c.label_summary(&ix).map_err(|e| e.to_string())?;
    let mut one = SummaryCounter::<C::LabelSummary>::default();
    ix.iter().for_each(|i| one.add(c.label(*i)));
    if canon(&ls) != canon(&one) || ls.errors() != 0 || ls.nones() != want.values().filter(|p| p.label.is_none()).count() {
        return Err(format!("label summary {}, expected {}", canon(&ls), canon(&one)));
    }
    let ms = c.metasummary(&ix).map_err(|e| e.to_string())?;
    let mut one = SummaryCounter::<C::MetaSummary>::default();
    ix.iter().for_each(|i| one.add(c.metadata(*i)));
    if canon(&ms) != canon(&one) || ms.errors() != 0 || ms.nones() != want.values().filter(|p| p.meta.is_none()).count() {
        return Err(format!("metadata summary {}, expected {}", canon(&ms), canon(&one)));
    }
    Ok((want.len() + absent.len()) as u64)
}

struct Names(Vec<String>);
impl NamedSet for Names {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.0.get(pi).cloned().ok_or_else(|| PointCloudError::data_access(pi, "name".to_string()))
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.0.iter().position(|n| n == pn).ok_or(PointCloudError::UnknownName)
    }
    fn names(&self) -> Vec<String> {
        self.0.clone()
    }
}

fn coords(g: usize, dim: usize) -> Vec<f32> {
    (0..dim).map(|k| g as f32 * 10.0 + k as f32 + 0.25).collect()
}

pub fn tuples(vals: &[usize], n: usize) -> Vec<Vec<usize>> {
    let k = vals.len();
    (0..k.pow(n as u32))
        .map(|mut c| {
            (0..n)
                .map(|_| {
                    let v = vals[c % k];
                    c /= k;
                    v
                })
                .collect()
        })
        .collect()
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}

/// Sources of these sizes; `f` gets the sizes' global starts and makes one source.
fn starts(sizes: &[usize]) -> Vec<(usize, usize)> {
    let mut s = 0;
    sizes
        .iter()
        .map(|n| {
            let r = (s, *n);
            s += n;
            r
        })
        .collect()
}

fn lab(g: usize) -> i64 {
    100 + g as i64
}
fn masked(g: usize) -> bool {
    g % 3 == 1
}

fn ram(s: usize, n: usize, dim: usize) -> DataRam<L2> {
    DataRam::new((s..s + n).flat_map(|g| coords(g, dim)).collect(), dim).unwrap()
}
fn plain_want(sizes: &[usize], dim: usize) -> Want {
    starts(sizes)
        .iter()
        .flat_map(|(s, n)| (0..*n).map(move |j| (s + j, j)))
        .map(|(g, j)| (g, Pt { x: coords(g, dim), label: None, meta: None, name: j.to_string() }))
        .collect()
}

fn labeled(sizes: &[usize], dim: usize, all_masks: bool) -> (HashGluedCloud<SimpleNamedCloud<SimpleLabeledCloud<DataRam<L2>, SmallIntLabels>, Names>>, Want) {
    let mut want = Want::new();
    let v = starts(sizes)
        .iter()
        .enumerate()
        .map(|(k, (s, n))| {
            let has_mask = all_masks || k % 2 == 0;
            let mask = if has_mask { Some((*s..s + n).map(|g| !masked(g)).collect()) } else { None };
            for g in *s..s + n {
                let label = if has_mask && masked(g) { None } else { Some(lab(g).to_string()) };
                want.insert(g, Pt { x: coords(g, dim), label, meta: None, name: format!("point-{}", g) });
            }
            SimpleNamedCloud::new(
                SimpleLabeledCloud::new(ram(*s, *n, dim), SmallIntLabels::new((*s..s + n).map(lab).collect(), mask)),
                Names((*s..s + n).map(|g| format!("point-{}", g)).collect()),
            )
        })
        .collect();
    (HashGluedCloud::new(v), want)
}

fn annotated(sizes: &[usize], dim: usize) -> (HashGluedCloud<HashGluedCloud<Cover>>, Want) {
    let mut want = Want::new();
    let v = starts(sizes)
        .iter()
        .map(|(s, n)| {
            let l = |g: usize| if g % 4 == 3 { L::None } else { L::Is(lab(g)) };
            let m = |g: usize| if masked(g) { L::None } else { L::Is(g as i64) };
            for g in *s..s + n {
                let label = if let L::Is(x) = l(g) { Some(x.to_string()) } else { None };
                let meta = if let L::Is(_) = m(g) { Some(format!("m{:?}", m(g))) } else { None };
                want.insert(g, Pt { x: coords(g, dim), label, meta, name: (g - s).to_string() });
            }
            // two halves glued, then glued again
            let half = n / 2;
            HashGluedCloud::new(
                vec![(*s, half), (s + half, n - half)]
                    .into_iter()
                    .map(|(a, k)| Cover {
                        shift: a - s,
                        of: Annotated::new(&Data { dim, pts: (a..a + k).map(|g| coords(g, dim)).collect() }, (a..a + k).map(l).collect(), (a..a + k).map(m).collect()),
                    })
                    .collect(),
            )
        })
        .collect();
    (HashGluedCloud::new(v), want)
}

/// An annotated cloud whose names start at `shift` and whose indexes out of range are errors.
struct Cover {
    shift: usize,
    of: Annotated,
}
impl PointCloud for Cover {
    type Metric = L2;
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type LabelSummary = CategorySummary;
    type Label = i64;
    type MetaSummary = StringSummary;
    type Metadata = String;
    fn metadata(&self, i: usize) -> PointCloudResult<Option<&String>> {
        self.of.metadata(i)
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<StringSummary>> {
        self.of.metasummary(pns)
    }
    fn label(&self, i: usize) -> PointCloudResult<Option<&i64>> {
        self.of.label(i)
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>> {
        self.of.label_summary(pns)
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        Ok((pi + self.shift).to_string())
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        match pn.parse::<usize>() {
            Ok(i) if i >= self.shift && i < self.shift + self.len() => Ok(i - self.shift),
            _ => Err(PointCloudError::UnknownName),
        }
    }
    fn names(&self) -> Vec<String> {
        (0..self.len()).map(|i| (i + self.shift).to_string()).collect()
    }
    fn dim(&self) -> usize {
        self.of.dim()
    }
    fn len(&self) -> usize {
        self.of.len()
    }
    fn is_empty(&self) -> bool {
        self.of.is_empty()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.of.reference_indexes()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        self.of.point(i)
    }
}

fn unit(_: &()) -> String {
    "()".into()
}
fn int(l: &i64) -> String {
    l.to_string()
}
fn string(s: &String) -> String {
    s.clone()
}

fn moved(w: &Want, map: &[(usize, usize)]) -> Want {
    map.iter().map(|(o, n)| (*n, w[o].clone())).collect()
}

pub fn c18(run: &'static Run) {
    let most = if run.thorough { 5 } else { 4 };
    run.bound(format!("all lists of up to {} sources of 0-3 points each, 1-2 dimensions: plain, labelled with and without masks and named, with metadata and glued twice", most));
    let mut lists: Vec<Vec<usize>> = vec![];
    for k in 0..=most {
        lists.extend(tuples(&[0, 1, 2, 3], k));
    }
    let long: Vec<Vec<usize>> = vec![vec![40], vec![17, 16], vec![0, 33, 0, 2], vec![1; 12], vec![5, 0, 9, 1, 0, 0, 12, 3, 7, 2, 11], vec![1; 130], vec![2; 300]];
    run.bound(format!("the longer lists {:?}", long));
    lists.extend(long);
    run.par(lists.len(), |i| {
        let sizes = &lists[i];
        for dim in 1..=2 {
            run.case(
                || format!("glued {:?} dim {}", sizes, dim),
                || {
                    let g = HashGluedCloud::new(starts(sizes).iter().map(|(s, n)| ram(*s, *n, dim)).collect());
                    let mut t = check_cloud(&g, &plain_want(sizes, dim), dim, &unit, &unit)?;
                    for all in [true, false].iter() {
                        let (g, w) = labeled(sizes, dim, *all);
                        t += check_cloud(&g, &w, dim, &int, &unit)?;
                    }
                    let (g, w) = annotated(sizes, dim);
                    t += check_cloud(&g, &w, dim, &int, &string)?;
                    if g.data_sources().len() != sizes.len() {
                        return Err("number of sources".into());
                    }
                    // merging the same data into one
                    let mut all: Option<DataRam<L2>> = None;
                    for (s, n) in starts(sizes) {
                        match all.as_mut() {
                            None => all = Some(ram(s, n, dim)),
                            Some(a) => a.merge(ram(s, n, dim)),
                        }
                    }
                    if let Some(a) = all {
                        let w = plain_want(&[sizes.iter().sum()], dim);
                        t += check_cloud(&a, &w, dim, &unit, &unit).map_err(|e| format!("merged: {}", e))?;
                    }
                    Ok(Seen { hash: h(&(sizes, dim)), transitions: t })
                },
            );
        }
    });
    let large: Vec<Vec<usize>> = vec![vec![70001], vec![3, 70000, 2], vec![1; 70001]];
    run.bound("a cloud of 70001 points, one glued of 3, 70000 and 2, and one glued of 70001 single points");
    run.par(large.len(), |i| {
        let sizes = &large[i];
        run.case(
            || format!("glued sources, {} of them, the first of {} points", sizes.len(), sizes[0]),
            || {
                let mut g = HashGluedCloud::new(starts(sizes).iter().map(|(s, n)| ram(*s, *n, 1)).collect());
                let w = plain_want(sizes, 1);
                let mut t = check_cloud(&g, &w, 1, &unit, &unit)?;
                let n = w.len();
                let map: Vec<(usize, usize)> = (0..n).map(|k| (k, (k * 40507 + 17) % n)).collect();
                g.reindex(&map).map_err(|e| e.to_string())?;
                t += check_cloud(&g, &moved(&w, &map), 1, &unit, &unit).map_err(|e| format!("re-indexed: {}", e))?;
                Ok(Seen { hash: h(sizes), transitions: t })
            },
        );
    });
    // re-indexing by every permutation, twice, and to scattered indexes
    let shapes: Vec<Vec<usize>> = vec![vec![1], vec![2], vec![1, 1], vec![2, 1], vec![1, 0, 2], vec![2, 2], vec![1, 2, 1]];
    run.bound("re-indexing: every permutation of up to 4 points (then every permutation again for up to 3), to neighbouring and scattered indexes; every list of pairs that is no one-to-one map for up to 3 points");
    let scatter = |i: usize| (i * 37 + 5) % 101;
    for shape in &shapes {
        let n: usize = shape.iter().sum();
        let perms = permutations(n);
        run.par(perms.len(), |k| {
            let p = &perms[k];
            let maps: Vec<Vec<(usize, usize)>> = vec![
                (0..n).map(|i| (i, p[i])).collect(),
                (0..n).rev().map(|i| (i, p[i])).collect(),
                (0..n).map(|i| (p[i], scatter(i))).collect(),
            ];
            for m in maps {
                run.case(
                    || format!("reindex {:?} by {:?}", shape, m),
                    || {
                        let (mut g, w) = labeled(shape, 2, true);
                        g.reindex(&m).map_err(|e| format!("rejected: {}", e))?;
                        let w1 = moved(&w, &m);
                        let mut t = check_cloud(&g, &w1, 2, &int, &unit)?;
                        let (mut g2, v) = annotated(shape, 1);
                        g2.reindex(&m).map_err(|e| format!("rejected: {}", e))?;
                        t += check_cloud(&g2, &moved(&v, &m), 1, &int, &string)?;
                        let mut g3 = HashGluedCloud::new(starts(shape).iter().map(|(s, n)| ram(*s, *n, 1)).collect::<Vec<_>>());
                        g3.reindex(&m).map_err(|e| format!("rejected: {}", e))?;
                        t += check_cloud(&g3, &moved(&plain_want(shape, 1), &m), 1, &unit, &unit)?;
                        if n <= 3 {
                            let at: Vec<usize> = w1.keys().cloned().collect();
                            for q in permutations(n) {
                                let (mut g, w) = labeled(shape, 2, true);
                                g.reindex(&m).unwrap();
                                let m2: Vec<(usize, usize)> = (0..n).map(|i| (at[i], at[q[i]])).collect();
                                g.reindex(&m2).map_err(|e| format!("second one {:?} rejected: {}", m2, e))?;
                                t += check_cloud(&g, &moved(&moved(&w, &m), &m2), 2, &int, &unit).map_err(|e| format!("then {:?}: {}", m2, e))?;
                            }
                        }
                        Ok(Seen { hash: h(&(shape, &m)), transitions: t })
                    },
                );
            }
        });
        if n > 3 {
            continue;
        }
        let pairs: Vec<(usize, usize)> = (0..n + 1).flat_map(|a| (0..n + 1).map(move |b| (a, b))).collect();
        for len in n.saturating_sub(1)..=n + 1 {
            if len == n + 1 && n == 3 {
                continue;
            }
            let lists = tuples(&(0..pairs.len()).collect::<Vec<_>>(), len);
            run.par(lists.len(), |k| {
                let m: Vec<(usize, usize)> = lists[k].iter().map(|i| pairs[*i]).collect();
                let olds: BTreeSet<usize> = m.iter().map(|x| x.0).filter(|o| *o < n).collect();
                let news: BTreeSet<usize> = m.iter().map(|x| x.1).collect();
                let good = m.len() == n && olds.len() == n && news.len() == n;
                run.case(
                    || format!("reindex {:?} by the list {:?}", shape, m),
                    || {
                        let (mut g, w) = labeled(shape, 2, false);
                        let r = catch_unwind(AssertUnwindSafe(|| g.reindex(&m)));
                        let accepted = matches!(r, Ok(Ok(())));
                        if accepted != good {
                            return Err(format!("{}", if accepted { "accepted though it loses or repeats points" } else { "rejected" }));
                        }
                        let t = check_cloud(&g, &if good { moved(&w, &m) } else { w }, 2, &int, &unit)?;
                        Ok(Seen { hash: h(&(shape, &m)), transitions: t })
                    },
                );
            });
        }
    }
    memmaps(run);
}

fn write_f32(path: &std::path::Path, v: &[f32], extra: usize) {
    let mut b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
    b.extend(vec![7u8; extra]);
    std::fs::write(path, b).unwrap();
}

fn memmaps(run: &'static Run) {
    let big: &[usize] = if run.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 1023, 1024, 1025, 4096, 5000, 65537, 210003] } else { &[0, 1, 2, 3, 4, 5, 7, 1023, 1024, 1025, 65537, 210003] };
    run.bound(format!("data files of {:?} numbers and 0-3 further bytes, 1-3 dimensions, mapped and copied to memory; every list of up to 3 files of 0-3 points with a remainder", big));
    let cases: Vec<(usize, usize, usize)> = big.iter().flat_map(|n| (0..4).flat_map(move |e| (1..=3).map(move |d| (*n, e, d)))).collect();
    run.par(cases.len(), |i| {
        let (n, extra, dim) = cases[i];
        run.case(
            || format!("data file of {} numbers and {} bytes dim {}", n, extra, dim),
            || {
                let f = tmp("data.dat");
                let v: Vec<f32> = (0..n).map(|k| k as f32 - 3.5).collect();
                write_f32(&f, &v, extra);
                let pts = n / dim;
                let want: Want = (0..pts).map(|i| (i, Pt { x: v[i * dim..(i + 1) * dim].to_vec(), label: None, meta: None, name: i.to_string() })).collect();
                let m = match DataMemmap::<L2>::new(dim, &f) {
                    Ok(m) => m,
                    Err(e) => return if pts == 0 { Ok(Seen { hash: 0, transitions: 1 }) } else { Err(format!("not opened: {}", e)) },
                };
                let mut t = check_cloud(&m, &want, dim, &unit, &unit)?;
                let r = m.convert_to_ram();
                t += check_cloud(&r, &want, dim, &unit, &unit).map_err(|e| format!("copy: {}", e))?;
                drop(r);
                let again = DataMemmap::<L2>::new(dim, &f).map_err(|e| e.to_string())?;
                t += check_cloud(&again, &want, dim, &unit, &unit)?;
                drop(again);
                if std::fs::read(&f).unwrap().len() != n * 4 + extra {
                    return Err("the file changed".into());
                }
                let _ = std::fs::remove_file(&f);
                Ok(Seen { hash: h(&(n, extra, dim)), transitions: t })
            },
        );
    });
    let mut lists: Vec<Vec<usize>> = (1..=3).flat_map(|k| tuples(&[1, 2, 3], k)).collect();
    lists.extend(vec![vec![1, 20, 1], vec![30, 1, 2], vec![1, 1, 300], vec![1; 13], (1..=17).collect(), vec![2; 130], vec![1; 300]]);
    run.bound("data files of 1-3 points in lists of up to three and longer ones (up to 300 files), named in ascending, descending and mixed order, 1-3 dimensions, 0-2 numbers left over; with label files of another dimension; the same file listed twice");
    run.par(lists.len(), |i| {
        for dim in 1..=3usize {
            for (rest, order) in (0..dim).flat_map(|r| (0..3usize).map(move |o| (r, o))) {
                if order > 0 && lists[i].len() == 1 {
                    continue;
                }
                run.case(
                    || format!("data files of {:?} points dim {} with {} numbers left over, names {}", lists[i], dim, rest, ["ascending", "descending", "mixed"][order]),
                    || {
                        let st = starts(&lists[i]);
                        let count = st.len();
                        let named = |what: &str, k: usize| {
                            let k = match order {
                                0 => k,
                                1 => count - 1 - k,
                                // 7 and 11 divide none of the lengths
                                _ => (k * if count % 7 == 0 { 11 } else { 7 } + 3) % count,
                            };
                            tmp(&format!("{}{:04}.dat", what, k))
                        };
                        let files: Vec<std::path::PathBuf> = st
                            .iter()
                            .enumerate()
                            .map(|(k, (s, n))| {
                                let f = named("part", k);
                                let mut v: Vec<f32> = (*s..s + n).flat_map(|g| coords(g, dim)).collect();
                                v.extend(vec![-1.0; rest]);
                                write_f32(&f, &v, 0);
                                f
                            })
                            .collect();
                        let g = open_memmaps::<L2>(dim, &files).map_err(|e| e.to_string())?;
                        let mut t = check_cloud(&g, &plain_want(&lists[i], dim), dim, &unit, &unit)?;
                        let r = convert_glued_memmap_to_ram(g);
                        t += check_cloud(&r, &plain_want(&[lists[i].iter().sum()], dim), dim, &unit, &unit).map_err(|e| format!("copy: {}", e))?;
                        if rest == 0 {
                            // the same files as labels of themselves
                            let g = open_labeled_memmaps::<L2>(dim, dim, &files, &files).map_err(|e| e.to_string())?;
                            let mut w = plain_want(&lists[i], dim);
                            w.values_mut().for_each(|p| p.label = Some(format!("{:?}", p.x)));
                            t += check_cloud(&g, &w, dim, &|l: &[f32]| format!("{:?}", l), &unit).map_err(|e| format!("labelled: {}", e))?;
                            // and with files of their own, named the other way round
                            let label = |g: usize| -> Vec<f32> { (0..=dim).map(|j| (g * 5 + j) as f32 + 0.5).collect() };
                            let labels: Vec<std::path::PathBuf> = st
                                .iter()
                                .enumerate()
                                .map(|(k, (s, n))| {
                                    let f = named("label", count - 1 - k);
                                    write_f32(&f, &(*s..s + n).flat_map(|g| label(g)).collect::<Vec<f32>>(), 0);
                                    f
                                })
                                .collect();
                            let g = open_labeled_memmaps::<L2>(dim, dim + 1, &files, &labels).map_err(|e| e.to_string())?;
                            let mut w = plain_want(&lists[i], dim);
                            w.iter_mut().for_each(|(k, p)| p.label = Some(format!("{:?}", label(*k))));
                            t += check_cloud(&g, &w, dim, &|l: &[f32]| format!("{:?}", l), &unit).map_err(|e| format!("labelled by other files: {}", e))?;
                            drop(g);
                            labels.iter().for_each(|f| {
                                let _ = std::fs::remove_file(f);
                            });
                            // a file listed twice is there twice
                            let twice: Vec<std::path::PathBuf> = files.iter().chain(files.iter().take(1)).cloned().collect();
                            let g = open_memmaps::<L2>(dim, &twice).map_err(|e| e.to_string())?;
                            let n: usize = lists[i].iter().sum();
                            if g.len() != n + lists[i][0] {
                                return Err(format!("a file listed twice: {} points", g.len()));
                            }
                            for k in 0..g.len() {
                                let x = g.point(k).map_err(|e| e.to_string())?.to_vec();
                                if x != coords(k % n, dim) {
                                    return Err(format!("a file listed twice: point {} is {:?}", k, x));
                                }
                            }
                            t += g.len() as u64;
                        }
                        files.iter().for_each(|f| {
                            let _ = std::fs::remove_file(f);
                        });
                        Ok(Seen { hash: h(&(&lists[i], dim, rest, order)), transitions: t })
                    },
                );
            }
        }
    });
}

// ------------------------------------------------------------------ C19

impl Canon for FloatSummary {
    fn canon(&self) -> String {
        format!("{} {} count {}", self.moment1, self.moment2, Summary::count(self))
    }
}
impl Canon for IntSummary {
    fn canon(&self) -> String {
        format!("{} {} count {}", self.moment1, self.moment2, Summary::count(self))
    }
}

fn bad(i: usize) -> PointCloudError {
    PointCloudError::data_access(i, "label".to_string())
}

/// All ways to split 0..n into up to three runs (empty ones included) and to group and order them.
fn check_splits<S: Summary + Canon>(what: &str, seq: &[L], vals: &dyn Fn(i64) -> Box<S::Label>, want: &str) -> Result<u64, String>
where
    S::Label: Sized,
{
    let build = |part: &[L]| {
        let mut s = SummaryCounter::<S>::default();
        for (i, l) in part.iter().enumerate() {
            match l {
                L::Is(x) => {
                    let v = vals(*x);
                    s.add(Ok(Some(&v)))
                }
                L::None => s.add(Ok(None)),
                L::Err => s.add(Err(bad(i))),
            }
        }
        s
    };
    splits(what, seq.len(), &|a, b| build(&seq[a..b]), want)
}

fn splits<S: Summary + Canon>(what: &str, n: usize, build: &dyn Fn(usize, usize) -> SummaryCounter<S>, want: &str) -> Result<u64, String> {
    let mut t = 0;
    let mut same = |s: &SummaryCounter<S>, how: &str| {
        t += 1;
        if canon(s) == want {
            Ok(())
        } else {
            Err(format!("{} {}: {}, expected {}", what, how, canon(s), want))
        }
    };
    same(&build(0, n), "at once")?;
    for i in 0..=n {
        for j in i..=n {
            let parts = [build(0, i), build(i, j), build(j, n)];
            for o in permutations(3) {
                let p: Vec<&SummaryCounter<S>> = o.iter().map(|k| &parts[*k]).collect();
                let how = format!("split at {} and {}, order {:?}", i, j, o);
                let mut l = p[0].clone();
                l.combine(p[1]);
                l.combine(p[2]);
                same(&l, &how)?;
                let mut r = p[1].clone();
                r.combine(p[2]);
                let mut x = p[0].clone();
                x.combine(&r);
                same(&x, &how)?;
                let mut e = SummaryCounter::<S>::default();
                e.combine(&x);
                e.combine(&SummaryCounter::default());
                same(&e, &how)?;
            }
        }
    }
    Ok(t)
}

fn moments(seq: &[L], f: &dyn Fn(f64) -> String) -> String {
    let (mut a, mut b, mut c, mut nones, mut errors) = (0.0, 0.0, 0, 0, 0);
    for l in seq {
        match l {
            L::Is(x) => {
                a += *x as f64;
                b += (*x * *x) as f64;
                c += 1
            }
            L::None => nones += 1,
            L::Err => errors += 1,
        }
    }
    format!("{} {} count {} nones {} errors {} total {}", f(a), f(b), c, nones, errors, seq.len())
}

fn all_seqs(alpha: &[L], n: usize) -> Vec<Vec<L>> {
    tuples(&(0..alpha.len()).collect::<Vec<_>>(), n).into_iter().map(|v| v.into_iter().map(|i| alpha[i]).collect()).collect()
}

/// One label set: the labels, and whether it has a mask.
type Part = (Vec<L>, bool);

fn int_labels(p: &Part) -> SmallIntLabels {
    let labels = p.0.iter().map(|l| if let L::Is(x) = l { *x } else { 9 }).collect();
    SmallIntLabels::new(labels, if p.1 { Some(p.0.iter().map(|l| *l != L::None).collect()) } else { None })
}

fn check_int_labels(s: &SmallIntLabels, want: &[L]) -> Result<u64, String> {
    if s.len() != want.len() || s.is_empty() != want.is_empty() {
        return Err(format!("{} labels, expected {}", s.len(), want.len()));
    }
    for (i, l) in want.iter().enumerate() {
        let e = if let L::Is(x) = l { Some(*x) } else { None };
        let g = s.label(i).map_err(|e| e.to_string())?.cloned();
        if g != e {
            return Err(format!("label {} is {:?}, expected {:?}", i, g, e));
        }
    }
    for i in [want.len(), want.len() + 1, usize::MAX].iter() {
        if let Ok(Some(l)) = s.label(*i) {
            return Err(format!("label {:?} beyond the end", l));
        }
    }
    let few = want.len() < 16;
    for set in 0..if few { 1usize << want.len() } else { 3 } {
        let ix: Vec<usize> = (0..want.len()).filter(|i| if few { set >> i & 1 == 1 } else { i % 3 <= set }).collect();
        let g = canon(&s.label_summary(&ix).map_err(|e| e.to_string())?);
        let e = expect_cat(ix.iter().map(|i| want[*i]));
        if g != e {
            return Err(format!("summary of {:?}: {}, expected {}", ix, g, e));
        }
    }
    // a point without a label counts as unlabelled or as an error
    if let Ok(s) = s.label_summary(&[want.len()]) {
        if s.summary().count() != 0 || s.nones() + s.errors() != 1 {
            return Err(format!("summary beyond the end: {}", canon(&s)));
        }
    }
    Ok(if few { 1 << want.len() } else { 3 })
}

pub fn c19(run: &'static Run) {
    let len = if run.thorough { 6 } else { 5 };
    run.bound(format!("summaries (category, string, integer, float, vector): every sequence of up to {} of 2 values, unlabelled and failing, every split into three parts, every order and grouping", len));
    let mut groups: Vec<Vec<Vec<L>>> = (0..=len).map(|n| all_seqs(&[L::Is(2), L::Is(-3), L::None, L::Err], n)).collect();
    run.bound("mixed sequences of 17, 33 and 64 labels over 11 values, every split");
    groups.push([17i32, 33, 64].iter().map(|n| (0..*n).map(|k| match (k * k + k / 5) % 7 { 3 => L::None, 5 => L::Err, _ => L::Is(((k * 5) % 11 - 4) as _) }).collect()).collect());
    for seqs in &groups {
        run.par(seqs.len(), |i| {
            let s = &seqs[i];
            run.case(
                || format!("summaries of {:?}", s),
                || {
                    let cat = expect_cat(s.iter().cloned());
                    let mut t = check_splits::<CategorySummary>("category", s, &|x| Box::new(x), &cat)?;
                    let mut m: BTreeMap<String, usize> = BTreeMap::new();
                    s.iter().for_each(|l| {
                        if let L::Is(x) = l {
                            *m.entry(x.to_string()).or_insert(0) += 1
                        }
                    });
                    let tail = moments(s, &|_| String::new());
                    let tail = tail.trim_start();
                    t += check_splits::<StringSummary>("string", s, &|x| Box::new(x.to_string()), &format!("{:?} {}", m, tail))?;
                    t += check_splits::<IntSummary>("integer", s, &|x| Box::new(x), &moments(s, &|x| (x as i64).to_string()))?;
                    t += check_splits::<FloatSummary>("float", s, &|x| Box::new(x as f64), &moments(s, &|x| x.to_string()))?;
                    // vectors, failing labels as unlabelled
                    let vec = |l: &L| match l {
                        L::Is(x) => Some(vec![*x as f32, 1.0, 0.0]),
                        _ => None,
                    };
                    let want = expect_vec(s.iter().map(vec));
                    t += splits::<VecSummary>(
                        "vector",
                        s.len(),
                        &|a, b| {
                            let mut c = SummaryCounter::default();
                            for l in &s[a..b] {
                                match vec(l) {
                                    Some(v) => c.add(Ok(Some(&v[..]))),
                                    None => c.add(Ok(None)),
                                }
                            }
                            c
                        },
                        &want,
                    )?;
                    t += splits::<()>(
                        "nothing",
                        s.len(),
                        &|a, b| {
                            let mut c = SummaryCounter::default();
                            s[a..b].iter().for_each(|l| {
                                c.add(match l {
                                    L::Err => Err(bad(0)),
                                    _ => Ok(None),
                                })
                            });
                            c
                        },
                        &{
                            let e = s.iter().filter(|l| **l == L::Err).count();
                            format!(" nones {} errors {} total {}", s.len() - e, e, s.len())
                        },
                    )?;
                    Ok(Seen { hash: h(s), transitions: t })
                },
            );
        });
    }
    // many categories: the summary's inline storage overflows
    run.case(
        || "summaries of 20 categories".into(),
        || {
            let s: Vec<L> = (0..20).map(|i| L::Is(i % 13)).collect();
            let t = check_splits::<CategorySummary>("category", &s, &|x| Box::new(x), &expect_cat(s.iter().cloned()))?;
            Ok(Seen { hash: 20, transitions: t })
        },
    );
    // thousands of labels and categories, a few splits
    run.bound("summaries of all kinds of 12000 labels over 4000 values, split at seven places; of 300 vectors, split at every place");
    run.case(
        || "summaries of 12000 labels".into(),
        || {
            let s: Vec<L> = (0..12000i64).map(|k| if k % 11 == 3 { L::None } else if k % 13 == 5 { L::Err } else { L::Is(((k * 7) % 4000 - 400) as _) }).collect();
            fn cut<S: Summary + Canon>(what: &str, n: usize, make: &dyn Fn(usize, usize) -> SummaryCounter<S>, want: &str) -> Result<(), String> {
                for i in [0usize, 1, 2, 999, 6500, n - 1, n].iter() {
                    for (x, y) in [(make(0, *i), make(*i, n)), (make(*i, n), make(0, *i))].iter_mut() {
                        x.combine(y);
                        let g = canon(x);
                        if g != want {
                            return Err(format!("{} split at {}: {:.300}, expected {:.300}", what, i, g, want));
                        }
                    }
                }
                Ok(())
            }
            fn of<S: Summary>(s: &[L], vals: &dyn Fn(i64) -> Box<S::Label>) -> SummaryCounter<S> where S::Label: Sized {
                let mut c: SummaryCounter<S> = SummaryCounter::default();
                for l in s {
                    match l {
                        L::Is(x) => c.add(Ok(Some(&*vals(*x as i64)))),
                        L::None => c.add(Ok(None)),
                        L::Err => c.add(Err(bad(0))),
                    }
                }
                c
            }
            cut::<CategorySummary>("category", 12000, &|a, b| of(&s[a..b], &|x| Box::new(x)), &expect_cat(s.iter().cloned()))?;
            cut::<IntSummary>("integer", 12000, &|a, b| of(&s[a..b], &|x| Box::new(x)), &moments(&s, &|x| (x as i64).to_string()))?;
            cut::<FloatSummary>("float", 12000, &|a, b| of(&s[a..b], &|x| Box::new(x as f64)), &moments(&s, &|x| x.to_string()))?;
            let mut m: BTreeMap<String, usize> = BTreeMap::new();
            s.iter().for_each(|l| {
                if let L::Is(x) = l {
                    *m.entry(x.to_string()).or_insert(0) += 1
                }
            });
            let tail = moments(&s, &|_| String::new());
            cut::<StringSummary>("string", 12000, &|a, b| of(&s[a..b], &|x| Box::new(x.to_string())), &format!("{:?} {}", m, tail.trim_start()))?;
            let vec = |l: &L| match l {
                L::Is(x) => Some(vec![(*x % 3) as f32, 1.0, (*x % 2) as f32]),
                _ => None,
            };
            let make = |a: usize, b: usize| {
                let mut c = SummaryCounter::default();
                for l in &s[a..b] {
                    match vec(l) {
                        Some(v) => c.add(Ok(Some(&v[..]))),
                        None => c.add(Ok(None)),
                    }
                }
                c
            };
            cut::<VecSummary>("vector", 12000, &make, &expect_vec(s.iter().map(vec)))?;
            // all labelled, one part of a single label
            let (from, to) = (0, 300);
            let t: Vec<L> = s.iter().filter(|l| matches!(l, L::Is(_))).cloned().collect();
            let make = |a: usize, b: usize| {
                let mut c: SummaryCounter<VecSummary> = SummaryCounter::default();
                t[a..b].iter().for_each(|l| c.add(Ok(Some(&vec(l).unwrap()[..]))));
                c
            };
            for i in from..=to {
                for (mut x, y) in vec![(make(from, i), make(i, to)), (make(i, to), make(from, i))] {
                    x.combine(&y);
                    if canon(&x) != expect_vec(t[from..to].iter().map(vec)) {
                        return Err(format!("vector split at {} of 300: {}", i, canon(&x)));
                    }
                }
            }
            Ok(Seen { hash: 12000, transitions: 672 })
        },
    );
    // names as labels: nothing about them may be taken as irrelevant
    let words: Vec<String> = vec!["".into(), " ".into(), "a".into(), "a ".into(), " a".into(), "A".into(), "a\n".into(), "\u{e4}".into(), "a\u{308}".into(), format!("{}1", "x".repeat(300)), format!("{}2", "x".repeat(300)), "x".repeat(300), "0".into(), "00".into()];
    run.bound(format!("string summaries: every sequence of 2 and 3 of {} names (blank, spaces around, upper case, accents, 300 letters), every split", words.len()));
    for n in 2..=3 {
        let seqs = tuples(&(0..words.len()).collect::<Vec<_>>(), n);
        run.par(seqs.len(), |i| {
            run.case(
                || format!("string summaries of {:?}", seqs[i]),
                || {
                    let mut m: BTreeMap<String, usize> = BTreeMap::new();
                    seqs[i].iter().for_each(|k| *m.entry(words[*k].clone()).or_insert(0) += 1);
                    let s: Vec<L> = seqs[i].iter().map(|k| L::Is(*k as _)).collect();
                    let t = check_splits::<StringSummary>("string", &s, &|x| Box::new(words[x as usize].clone()), &format!("{:?} count {} nones 0 errors 0 total {}", m, n, n))?;
                    Ok(Seen { hash: h(&(n, &m)), transitions: t })
                },
            );
        });
    }
    // numbers that need all of their digits
    let ints: Vec<i64> = vec![0, 1_234_567_891, -1_000_000_007, (1 << 30) - 1, -5, 65_537];
    let floats: Vec<f64> = vec![0.0, 1.0 + 2f64.powi(-15), -(300.0 + 2f64.powi(-8)), 1024.25, -0.5, 77.0];
    run.bound("integer and float summaries: every sequence of up to 4 of six values whose squares need up to 62 bits (52 for floats), every split");
    for n in 1..=4 {
        let seqs = tuples(&(0..ints.len()).collect::<Vec<_>>(), n);
        run.par(seqs.len(), |i| {
            run.case(
                || format!("number summaries of {:?}", seqs[i]),
                || {
                    let s: Vec<L> = seqs[i].iter().map(|k| L::Is(*k as _)).collect();
                    let tail = format!("count {} nones 0 errors 0 total {}", n, n);
                    let (m1, m2) = seqs[i].iter().fold((0i64, 0i64), |(a, b), k| (a + ints[*k], b + ints[*k] * ints[*k]));
                    let mut t = check_splits::<IntSummary>("integer", &s, &|x| Box::new(ints[x as usize]), &format!("{} {} {}", m1, m2, tail))?;
                    let (m1, m2) = seqs[i].iter().fold((0f64, 0f64), |(a, b), k| (a + floats[*k], b + floats[*k] * floats[*k]));
                    t += check_splits::<FloatSummary>("float", &s, &|x| Box::new(floats[x as usize]), &format!("{} {} {}", m1, m2, tail))?;
                    Ok(Seen { hash: h(&("numbers", &seqs[i])), transitions: t })
                },
            );
        });
    }
    // long label sets
    let long: Vec<Part> = [70usize, 1500, 70001]
        .iter()
        .flat_map(|n| {
            let full: Vec<L> = (0..*n).map(|k| L::Is(((k * k) % 97) as _)).collect();
            let some: Vec<L> = (0..*n).map(|k| if (k / 3) % 4 == 1 { L::None } else { L::Is(((k * k) % 97) as _) }).collect();
            vec![(full.clone(), false), (full, true), (some, true)]
        })
        .collect();
    run.bound("integer label sets of 70, 1500 and 70001 labels, with and without masks, every ordered pair merged and then a third one");
    run.par(long.len() * long.len(), |k| {
        let (a, b) = (&long[k / long.len()], &long[k % long.len()]);
        run.case(
            || format!("{} labels (mask {}) merged with {} (mask {})", a.0.len(), a.1, b.0.len(), b.1),
            || {
                let mut l = int_labels(a);
                let mut want = a.0.clone();
                let mut t = 0;
                for p in [b, &long[2], &long[0]].iter() {
                    l.merge(&int_labels(p));
                    want.extend(p.0.iter().cloned());
                    t += check_int_labels(&l, &want)?;
                }
                Ok(Seen { hash: h(&k), transitions: t })
            },
        );
    });
    // label sets
    let most = if run.thorough { 3 } else { 2 };
    run.bound(format!("integer label sets: every list of three sets of up to {} labels over 2 values and unlabelled, with and without masks, merged in both groupings", most));
    let mut parts: Vec<Part> = vec![];
    for n in 0..=most {
        for v in all_seqs(&[L::Is(0), L::Is(7), L::None], n) {
            if !v.contains(&L::None) {
                parts.push((v.clone(), false));
            }
            parts.push((v, true));
        }
    }
    run.par(parts.len(), |i| {
        for b in &parts {
            run.case(
                || format!("labels {:?} merged with {:?}", parts[i], b),
                || {
                    let a = &parts[i];
                    let mut t = 0;
                    for c in parts.iter() {
                        let want: Vec<L> = a.0.iter().chain(&b.0).chain(&c.0).cloned().collect();
                        let mut l = int_labels(a);
                        l.merge(&int_labels(b));
                        if c.0.is_empty() && !c.1 {
                            t += check_int_labels(&l, &want)?;
                        }
                        l.merge(&int_labels(c));
                        t += check_int_labels(&l, &want).map_err(|e| format!("then {:?}: {}", c, e))?;
                        let mut r = int_labels(b);
                        r.merge(&int_labels(c));
                        let mut x = int_labels(a);
                        x.merge(&r);
                        t += check_int_labels(&x, &want).map_err(|e| format!("with {:?} first: {}", c, e))?;
                    }
                    run.add_execs(parts.len() as u64);
                    Ok(Seen { hash: h(&(&parts[i], b)), transitions: t })
                },
            );
        }
    });
    vec_labels(run);
    csv_labels(run);
}

fn vec_labels(run: &'static Run) {
    let most = if run.thorough { 4 } else { 3 };
    run.bound(format!("vector label sets of 1-3 dimensions and up to {} labels, every entry above, at and below one half, every mask: labels, summaries, conversion to integer labels", most));
    for dim in 1..=3usize {
        for n in 0..=most {
            let vals = [0usize, 1, 2];
            let cells = dim * n;
            if vals.len().pow(cells as u32) > 60_000 {
                continue;
            }
            let all = tuples(&vals, cells);
            run.par(all.len(), |i| {
                for mask in 0..=1usize << n {
                    run.case(
                        || format!("vector labels {:?} dim {} mask {:b}", all[i], dim, mask),
                        || {
                            let v: Vec<f32> = all[i].iter().map(|k| [0.0, 0.5, 1.0][*k]).collect();
                            let on = |j: usize| mask == 1 << n || mask >> j & 1 == 1;
                            let m = if mask == 1 << n { None } else { Some((0..n).map(on).collect()) };
                            let s = VecLabels::new(v.clone(), dim, m);
                            let rows: Vec<&[f32]> = v.chunks(dim).collect();
                            if s.len() != n || s.dim() != dim || s.is_empty() != (n == 0) {
                                return Err(format!("{} labels of dimension {}", s.len(), s.dim()));
                            }
                            for j in 0..n {
                                let want = if on(j) { Some(rows[j]) } else { None };
                                let got = s.label(j).map_err(|e| e.to_string())?;
                                if got != want {
                                    return Err(format!("label {}: {:?}, expected {:?}", j, got, want));
                                }
                            }
                            for j in [n, n + 1, usize::MAX].iter() {
                                if let Ok(Some(l)) = s.label(*j) {
                                    return Err(format!("label {:?} beyond the end", l));
                                }
                            }
                            for set in 0..1usize << n {
                                let ix: Vec<usize> = (0..n).filter(|i| set >> i & 1 == 1).collect();
                                let g = canon(&s.label_summary(&ix).map_err(|e| e.to_string())?);
                                let e = expect_vec(ix.iter().map(|j| if on(*j) { Some(rows[*j].to_vec()) } else { None }));
                                if g != e {
                                    return Err(format!("summary of {:?}: {}, expected {}", ix, g, e));
                                }
                            }
                            let hot: Vec<L> = (0..n)
                                .map(|j| match rows[j].iter().position(|x| *x > 0.5) {
                                    Some(k) if on(j) => L::Is(k as i64),
                                    _ => L::None,
                                })
                                .collect();
                            let mut t = check_int_labels(&s.one_hot_to_int(), &hot).map_err(|e| format!("one-hot: {}", e))?;
                            if dim == 1 {
                                let bin: Vec<L> = (0..n).map(|j| if on(j) { L::Is((rows[j][0] > 0.5) as i64) } else { L::None }).collect();
                                t += check_int_labels(&s.binary_to_int(), &bin).map_err(|e| format!("binary: {}", e))?;
                            }
                            Ok(Seen { hash: h(&(&all[i], dim, mask)), transitions: t })
                        },
                    );
                }
            });
        }
    }
}

fn csv_labels(run: &'static Run) {
    let alpha = ["3", "0", "-1", "12", "3000000000", "-4000000000"];
    let most = 3;
    run.bound(format!("label files: every column of up to {} rows over {:?}, first, middle and last column, plain and compressed; a column that is not there; text that is no number", most, alpha));
    for n in 0..=most {
        let seqs = tuples(&[0, 1, 2, 3, 4, 5], n);
        run.par(seqs.len(), |i| {
            for col in 0..4usize {
                for gz in [false, true].iter() {
                    run.case(
                        || format!("label file {:?} column {} compressed {}", seqs[i], col, gz),
                        || {
                            let mut text = String::from("a,b,c\n");
                            for k in &seqs[i] {
                                let row: Vec<&str> = (0..3).map(|c| if c == col { alpha[*k] } else { "5" }).collect();
                                text += &row.join(",");
                                text += "\n";
                            }
                            let f = tmp(if *gz { "labels.csv.gz" } else { "labels.csv" });
                            write_csv(&f, &text, *gz);
                            let want: Vec<L> = seqs[i].iter().map(|k| if col < 3 && *k != 2 && *k != 5 { L::Is(alpha[*k].parse().unwrap()) } else { L::None }).collect();
                            let s = open_int_csv(&f, col).map_err(|e| e.to_string())?;
                            let t = check_int_labels(&s, &want)?;
                            if col < 3 && n > 0 && seqs[i][n - 1] == 3 {
                                write_csv(&f, &text.replace("12", "x1"), *gz);
                                if open_int_csv(&f, col).is_ok() {
                                    return Err("text accepted as a label".into());
                                }
                            }
                            let _ = std::fs::remove_file(&f);
                            Ok(Seen { hash: h(&(&seqs[i], col, gz)), transitions: t })
                        },
                    );
                }
            }
        });
    }
}

pub fn write_csv(f: &std::path::Path, text: &str, gz: bool) {
    if gz {
        use std::io::Write;
        let mut e = flate2::write::GzEncoder::new(std::fs::File::create(f).unwrap(), flate2::Compression::default());
        e.write_all(text.as_bytes()).unwrap();
        e.finish().unwrap();
    } else {
        std::fs::write(f, text).unwrap();
    }
}
