//! C16: trackers and baselines against the list of the paths in the window.
use crate::distro::{close, dir_kl, posterior_without_own, Counts};
use crate::plugs::{attach, node_counts, Op};
use crate::run::{h, Run, Seen};
use crate::trees::*;
use goko::plugins::discrete::prelude::*;
use goko::*;
use pointcloud::PointCloud;
use std::collections::{BTreeMap, VecDeque};

pub type Path = Vec<(f32, NodeAddress)>;
type Tracker = BayesCategoricalTracker<Cloud>;

/// What a tracker is meant to hold.
#[derive(Clone, Debug, Default)]
struct Model {
    window: usize,
    paths: VecDeque<Path>,
}

impl Model {
    fn add(&mut self, p: &Path) {
        self.paths.push_back(p.clone());
        while self.window != 0 && self.paths.len() > self.window {
            self.paths.pop_front();
        }
    }
    fn evidence(&self) -> BTreeMap<NodeAddress, Counts> {
        let mut r: BTreeMap<NodeAddress, Counts> = BTreeMap::new();
        for p in &self.paths {
            for (i, (_, a)) in p.iter().enumerate() {
                *r.entry(*a).or_default().entry(p.get(i + 1).map(|x| x.1)).or_insert(0.0) += 1.0;
            }
        }
        r
    }
}

pub fn prior(s: &Snap, a: NodeAddress) -> Counts {
    let (kids, own) = node_counts(s, a);
    let mut c: Counts = kids.iter().map(|(k, v)| (Some(*k), *v)).collect();
    if own > 0.0 {
        c.insert(None, own);
    }
    c
}

/// The divergence of a node's prior to its posterior.
pub fn node_kl(prior: &Counts, ev: &Counts) -> f64 {
    if ev.contains_key(&None) && !prior.contains_key(&None) {
        // see the known finding of C15
        return posterior_without_own(prior, ev);
    }
    let post: Counts = prior.iter().map(|(k, a)| (*k, a + ev.get(k).unwrap_or(&0.0))).collect();
    dir_kl(prior, &post).max(0.0)
}

fn check_probs(what: &str, got: Option<(Vec<(NodeAddress, f64)>, f64)>, c: &Counts) -> Result<(), String> {
    let t: f64 = c.values().sum();
    let (v, s) = match got {
        None if t == 0.0 => return Ok(()),
        None => return Err(format!("{} missing, expected {:?}", what, c)),
        Some(x) => x,
    };
    let mut m: Counts = v.iter().map(|(k, p)| (Some(*k), *p)).collect();
    m.insert(None, s);
    for k in c.keys().chain(m.keys()) {
        let g = *m.get(k).unwrap_or(&0.0);
        let w = if t > 0.0 { c.get(k).unwrap_or(&0.0) / t } else { f64::NAN };
        if !close(g, w, 1e-9) {
            return Err(format!("{} gives {} at {:?}, expected {} of {:?}", what, g, k, w, c));
        }
    }
    Ok(())
}

struct Expect {
    stats: (f64, f64, u64, f64, f64),
}

fn expect_stats(kls: impl Iterator<Item = f64>) -> Expect {
    let (mut max, mut min, mut n, mut m1, mut m2) = (f64::MIN, f64::MAX, 0, 0.0, 0.0);
    for k in kls.filter(|k| *k > 1e-10) {
        max = f64::max(max, k);
        min = f64::min(min, k);
        n += 1;
        m1 += k;
        m2 += k * k;
    }
    Expect { stats: (max, min, n, m1, m2) }
}

fn check_tracker(t: &Tracker, m: &Model, s: &Snap, n: usize) -> Result<u64, String> {
    let ev = m.evidence();
    let zero = Counts::new();
    // the evidence itself
    for (a, c) in t.running_evidence() {
        let want = ev.get(a).unwrap_or(&zero);
        if !close(c.total(), want.values().sum(), 1e-12) {
            return Err(format!("evidence at {:?} counts {}, expected {:?}", a, c.total(), want));
        }
        check_probs("evidence", c.prob_vector(), want)?;
    }
    for (a, want) in &ev {
        if !t.running_evidence().contains_key(a) {
            return Err(format!("no evidence at {:?}, expected {:?}", a, want));
        }
    }
    if t.sequence_len() != m.paths.len() {
        return Err(format!("sequence length {}, expected {}", t.sequence_len(), m.paths.len()));
    }
    let mut kls: BTreeMap<NodeAddress, f64> = BTreeMap::new();
    for a in s.nodes.keys() {
        let e = ev.get(a).unwrap_or(&zero);
        let p = prior(s, *a);
        let mut post = p.clone();
        for (k, v) in e {
            *post.entry(*k).or_insert(0.0) += v;
        }
        check_probs("posterior", t.prob_vector(*a), &post)?;
        check_probs("evidence", t.evidence_prob_vector(*a), e)?;
        if !e.is_empty() {
            kls.insert(*a, node_kl(&p, e));
        }
    }
    for a in [(s.root.0, 1_000_000)].iter() {
        if t.prob_vector(*a).is_some() || t.evidence_prob_vector(*a).is_some() {
            return Err(format!("a probability vector for {:?}, which is no node", a));
        }
    }
    let all = t.all_node_kl();
    let mut seen = BTreeMap::new();
    for (k, a) in &all {
        if seen.insert(*a, *k).is_some() {
            return Err(format!("two divergences at {:?}", a));
        }
        let want = *kls.get(a).unwrap_or(&0.0);
        if !close(*k, want, 1e-8) {
            return Err(format!("divergence {} at {:?}, expected {}", k, a, want));
        }
    }
    if let Some(a) = kls.keys().find(|a| !seen.contains_key(a)) {
        return Err(format!("no divergence at {:?}", a));
    }
    let st = t.kl_div_stats();
    let e = expect_stats(kls.values().cloned()).stats;
    let ok = close(st.moment1_nz, e.3, 1e-8)
        && close(st.moment2_nz, e.4, 1e-8)
        && st.nz_count == e.2
        && st.sequence_len == m.paths.len()
        && (e.2 == 0 || close(st.max, e.0, 1e-8) && close(st.min, e.1, 1e-8));
    if !ok {
        return Err(format!("statistics {:?}, expected {:?} of {} paths", st, e, m.paths.len()));
    }
    // the whole tree: where the points ended
    let mut pr = Counts::new();
    let mut po = Counts::new();
    for (a, nd) in &s.nodes {
        let own = nd.singles.len() as f64 + if nd.leaf { 1.0 } else { 0.0 };
        pr.insert(Some(*a), own + 1.0);
        po.insert(Some(*a), own + 1.0 + ev.get(a).and_then(|e| e.get(&None)).unwrap_or(&0.0));
    }
    assert_eq!(pr.values().sum::<f64>() as usize, n + s.nodes.len());
    let want = dir_kl(&po, &pr).max(0.0);
    if !close(t.kl_div(), want, 1e-8) {
        return Err(format!("whole-tree divergence {}, expected {}", t.kl_div(), want));
    }
    // dimensions
    let f = t.fractal_dim_stats();
    let pars = t.reader().parameters();
    let len = t.reader().len();
    let mut totals = vec![0u64; len];
    let mut cover: Vec<Vec<usize>> = vec![vec![]; len];
    for a in kls.keys() {
        let i = pars.internal_index(a.0);
        totals[i] += 1;
        cover[i].push(s.covered(*a).len());
    }
    let weighted: Vec<f32> = cover
        .iter()
        .map(|c| {
            let m = *c.iter().max().unwrap_or(&1) as f32;
            c.iter().map(|x| *x as f32 / m).sum()
        })
        .collect();
    let same = f.weighted_layer_totals.len() == len && f.weighted_layer_totals.iter().zip(&weighted).all(|(a, b)| (a - b).abs() < 1e-4);
    if f.sequence_len != m.paths.len() || f.layer_totals != totals || !same {
        return Err(format!("layer counts {:?}, expected {:?} {:?} of {} paths", f, totals, weighted, m.paths.len()));
    }
    Ok(s.nodes.len() as u64)
}

fn trees(run: &Run) -> Vec<(Data, Params)> {
    let mut v = vec![];
    let datas = [
        Data::d1(&[0.0, 1.0, 3.5]),
        Data::d1(&[0.0, 0.2, 1.0, 1.1, 4.0]),
        Data::d1(&[2.0, 2.0, 2.0, 5.0, 5.5]),
        Data::d1(&[7.0]),
        Data { dim: 2, pts: vec![vec![0.0, 0.0], vec![1.0, 0.0], vec![0.0, 1.0], vec![4.0, 4.0], vec![4.0, 4.25], vec![0.5, 0.5]] },
        Data::d1(&[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0]),
    ];
    for (i, d) in datas.iter().enumerate() {
        for (cutoff, singles) in [(0, true), (1, false), (3, true)].iter() {
            if !run.thorough && i == 5 && *cutoff == 1 {
                continue;
            }
            v.push((d.clone(), Params { base: 2.0, cutoff: *cutoff, min_res: -6, singles: *singles, first: i % 2 == 1, seed: 0 }));
        }
    }
    // forty children under one node, and a path of dozens of nodes
    let wide: Vec<f32> = (0..80).map(|i| ((i / 2 * 77) % 40) as f32 * 2.0 + (i % 2) as f32 * 0.5).collect();
    v.push((Data::d1(&wide), Params { base: 160.0, cutoff: 0, min_res: -1, singles: false, first: false, seed: 0 }));
    v.push((deep160(), Params { base: 1.1, cutoff: 0, min_res: -100, singles: true, first: true, seed: 0 }));
    v
}

/// The different paths queries take in this tree.
pub fn alphabet<D: PointCloud>(r: &CoverTreeReader<D>) -> Vec<Path> {
    let mut v: Vec<Path> = vec![];
    for i in r.point_cloud().reference_indexes() {
        let p = r.known_path(i).unwrap();
        if !v.iter().any(|q| q.iter().map(|x| x.1).eq(p.iter().map(|x| x.1))) {
            v.push(p);
        }
    }
    // and the ways to stop early
    for i in 0..v.len() {
        for k in 1..v[i].len() {
            let p = v[i][..k].to_vec();
            if !v.iter().any(|q| q.iter().map(|x| x.1).eq(p.iter().map(|x| x.1))) {
                v.push(p);
            }
        }
    }
    v
}

fn seqs(k: usize, n: usize) -> Vec<Vec<usize>> {
    (0..k.pow(n as u32))
        .map(|mut c| {
            (0..n)
                .map(|_| {
                    let v = c % k;
                    c /= k;
                    v
                })
                .collect()
        })
        .collect()
}

pub fn c16(run: &'static Run) {
    let depth = if run.thorough { 6 } else { 5 };
    let cap = if run.thorough { 40_000 } else { 4_000 };
    let windows = [0usize, 1, 2, 3, 4];
    run.bound(format!("all sequences of up to {} paths (as many as {} sequences per tree allow) over every path of the tree, complete or stopping early, windows {:?}", depth, cap, windows));
    run.bound("streams of 2.5 windows, five orders of the paths, windows 5, 8, 16, 33, 100, checked after every path; streams of 2300-3700 paths, windows 0, 700, 1500, checked every 256 paths; 10100 to 140003 paths, windows 0, 5000, 70000, on two trees");
    run.bound("all pairs of sequences of up to 2 paths appended, then up to 2 more paths, windows 0-2");
    let ts = trees(run);
    for (t_index, (d, p)) in ts.iter().enumerate() {
        let mut w = build(d, p).unwrap();
        attach(&mut w, Op::Dir);
        let r = w.reader();
        let s = snap(&r).unwrap();
        let al = alphabet(&r);
        run.bound(format!("a tree of {} points: {} nodes, {} paths of up to {} nodes", d.n(), s.nodes.len(), al.len(), al.iter().map(|p| p.len()).max().unwrap_or(0)));
        let big = s.nodes.len() > 60;
        let cap = if big { cap.min(200) } else { cap };
        let mut all: Vec<Vec<usize>> = vec![];
        for n in 0..=depth {
            if al.len().pow(n as u32) <= cap {
                all.extend(seqs(al.len(), n));
            } else {
                // every sequence over the longest and shortest paths and one in between
                let mut by_len: Vec<usize> = (0..al.len()).collect();
                by_len.sort_by_key(|i| al[*i].len());
                let few = [by_len[0], by_len[al.len() / 2], by_len[al.len() - 1]];
                all.extend(seqs(3, n).into_iter().map(|s| s.into_iter().map(|i| few[i]).collect()));
            }
        }
        let shared = std::sync::Mutex::new(r.clone());
        run.par(all.len(), |i| {
            let r = shared.lock().unwrap().clone();
            for win in &windows {
                run.case(
                    || format!("{:?} {:?} window {} sequence {:?}", d.pts, p, win, all[i]),
                    || {
                        let mut t = Tracker::new(*win, r.clone());
                        let mut m = Model { window: *win, paths: VecDeque::new() };
                        for k in &all[i] {
                            t.add_path(al[*k].clone());
                            m.add(&al[*k]);
                        }
                        let n = check_tracker(&t, &m, &s, d.n())?;
                        Ok(Seen { hash: h(&(win, &all[i], s.hash())), transitions: n + all[i].len() as u64 })
                    },
                );
            }
        });
        // long streams through wider windows, looked at after every path
        let wide = [5usize, 8, 16, 33, 100];
        let strides = [1usize, 2, 3, 5, 7];
        run.par(wide.len() * strides.len(), |i| {
            let r = shared.lock().unwrap().clone();
            let (win, stride) = (wide[i / strides.len()], strides[i % strides.len()]);
            run.case(
                || format!("{:?} {:?} window {} every {}th path", d.pts, p, win, stride),
                || {
                    let mut t = Tracker::new(win, r.clone());
                    let mut m = Model { window: win, paths: VecDeque::new() };
                    let mut n = 0;
                    for k in 0..2 * win + win / 2 {
                        let path = &al[(k * stride + k / 7) % al.len()];
                        t.add_path(path.clone());
                        m.add(path);
                        if !big || k % 8 == 7 || k % win < 2 {
                            n += check_tracker(&t, &m, &s, d.n()).map_err(|e| format!("after {} paths: {}", k + 1, e))?;
                        }
                    }
                    Ok(Seen { hash: h(&(win, stride, s.hash())), transitions: n })
                },
            );
        });
        // much longer ones, looked at now and then
        let mut long = vec![(0usize, 2500usize), (700, 2300), (1500, 3700)];
        if t_index < 2 {
            long.extend(vec![(0, 70_003), (5000, 10_100), (70_000, 140_003)]);
        }
        run.par(long.len(), |i| {
            let r = shared.lock().unwrap().clone();
            let (win, total) = long[i];
            run.case(
                || format!("{:?} {:?} window {}, {} paths", d.pts, p, win, total),
                || {
                    let mut t = Tracker::new(win, r.clone());
                    let mut m = Model { window: win, paths: VecDeque::new() };
                    let mut n = 0;
                    for k in 0..total {
                        let path = &al[(k * k + k / 3) % al.len()];
                        t.add_path(path.clone());
                        m.add(path);
                        if (total < 5000 && k % 256 == 255) || k % 30_011 == 30_010 || k + 1 == total || k + 1 == win || k == win {
                            n += check_tracker(&t, &m, &s, d.n()).map_err(|e| format!("after {} paths: {}", k + 1, e))?;
                        }
                    }
                    Ok(Seen { hash: h(&(win, total, s.hash())), transitions: n })
                },
            );
        });
        // appending
        let few: Vec<usize> = if al.len() <= 3 { (0..al.len()).collect() } else { vec![0, al.len() / 2, al.len() - 1] };
        let short: Vec<Vec<usize>> = (0..=2).flat_map(|n| seqs(few.len(), n)).map(|v| v.into_iter().map(|i| few[i]).collect()).collect();
        run.par(short.len(), |i| {
            let r = shared.lock().unwrap().clone();
            for b in &short {
                for c in &short {
                    // an unbounded tracker does not keep its paths, so what a window tracker takes from it cannot expire
                    for (w1, w2) in [(0, 0), (0, 1), (0, 2), (1, 1), (2, 2), (2, 1), (1, 2)].iter() {
                        let a = &short[i];
                        run.case(
                            || format!("{:?} {:?} windows {} {} {:?} append {:?} then {:?}", d.pts, p, w1, w2, a, b, c),
                            || {
                                let make = |w: usize, seq: &[usize]| {
                                    let mut t = Tracker::new(w, r.clone());
                                    let mut m = Model { window: w, paths: VecDeque::new() };
                                    for k in seq {
                                        t.add_path(al[*k].clone());
                                        m.add(&al[*k]);
                                    }
                                    (t, m)
                                };
                                let (t1, mut m) = make(*w1, a);
                                let (t2, m2) = make(*w2, b);
                                let mut t = t1.append(&t2);
                                m.paths.extend(m2.paths.iter().cloned());
                                let mut n = check_tracker(&t, &m, &s, d.n()).map_err(|e| format!("after append: {}", e))?;
                                check_tracker(&t2, &m2, &s, d.n()).map_err(|e| format!("the appended one: {}", e))?;
                                for k in c {
                                    t.add_path(al[*k].clone());
                                    m.add(&al[*k]);
                                }
                                if !c.is_empty() {
                                    n += check_tracker(&t, &m, &s, d.n())?;
                                }
                                Ok(Seen { hash: h(&(w1, w2, a, b, c, s.hash())), transitions: n })
                            },
                        );
                    }
                }
            }
        });
    }
    baseline(run);
}

type Pair = (f64, f64);
fn five(s: &KLDivergenceBaselineStats) -> [Pair; 5] {
    [s.max, s.min, s.nz_count, s.moment1_nz, s.moment2_nz]
}

fn baseline(run: &'static Run) {
    // interpolation
    let lens: Vec<Vec<usize>> = vec![vec![1], vec![2], vec![1, 2], vec![1, 4], vec![2, 5, 6], vec![1, 3, 9], vec![1, 2, 3, 4]];
    run.bound(format!("baseline interpolation: lengths {:?}, 1-3 sequences with distinct values per field that rise, fall and alternate, every length 0-12; 30 samples every 100, 1-200 sequences, lengths up to 3100", lens));
    let long: Vec<usize> = (0..30).map(|k| 1 + 100 * k).collect();
    let mut shapes: Vec<(&Vec<usize>, usize, usize, usize)> = vec![];
    for shape in 0..4 {
        for l in &lens {
            (1..=3).for_each(|ns| (0..=12).for_each(|i| shapes.push((l, ns, i, shape))));
        }
        for ns in [1usize, 8, 100, 200].iter() {
            [0usize, 1, 2, 50, 100, 101, 102, 1000, 1001, 1500, 2801, 2802, 2900, 2901, 2902, 3100].iter().for_each(|i| shapes.push((&long, *ns, *i, shape)));
        }
    }
    {
        {
            for (l, ns, i, shape) in shapes {
                run.case(
                    || format!("baseline over {:?} with {} sequences at {}, shape {}", l, ns, i, shape),
                    || {
                        // value of field f of sequence q at sample k
                        let val = |k: usize, f: usize, q: usize| {
                            let k = match shape {
                                0 => k,
                                1 => l.len() - k,
                                2 => (k + f) % 2 * 3 + (k + f) / 2 % 2,
                                _ => (k * 7 + f * 3) % 5,
                            };
                            ((k + 1) * (f + 2)) as f64 + (q * (f + 1 + k * k)) as f64 * 0.5
                        };
                        let mv = |k: usize, f: usize| -> Pair {
                            let m = (0..ns).map(|q| val(k, f, q)).sum::<f64>() / ns as f64;
                            (m, (0..ns).map(|q| (val(k, f, q) - m).powi(2)).sum::<f64>() / ns as f64)
                        };
                        let raw = |k: usize, f: usize| -> Pair { ((0..ns).map(|q| val(k, f, q)).sum(), (0..ns).map(|q| val(k, f, q).powi(2)).sum()) };
                        let b = KLDivergenceBaseline {
                            num_sequences: ns,
                            sequence_len: l.clone(),
                            stats: (0..l.len())
                                .map(|k| KLDivergenceBaselineStats { max: raw(k, 0), min: raw(k, 1), nz_count: raw(k, 2), moment1_nz: raw(k, 3), moment2_nz: raw(k, 4) })
                                .collect(),
                        };
                        let got = five(&b.stats(i));
                        for f in 0..5 {
                            let want = if i < l[0] {
                                (0.0, 0.0)
                            } else if l.len() == 1 {
                                mv(0, f)
                            } else {
                                let j = l.iter().position(|x| *x >= i).unwrap_or(l.len() - 1).max(1);
                                let w = (i - l[j - 1]) as f64 / (l[j] - l[j - 1]) as f64;
                                let (a, b) = (mv(j - 1, f), mv(j, f));
                                (a.0 + w * (b.0 - a.0), a.1 + w * (b.1 - a.1))
                            };
                            if !close(got[f].0, want.0, 1e-9) || !close(got[f].1, want.1, 1e-9) {
                                return Err(format!("field {}: {:?}, expected {:?}", f, got[f], want));
                            }
                        }
                        Ok(Seen { hash: h(&(l, ns, i, shape)), transitions: 5 })
                    },
                );
            }
        }
    }
    // training: one sequence must be the statistics of some order of the points, and a sequence of
    // all points has one possible outcome
    let d = Data::d1(&[0.0, 1.0, 3.5, 3.75]);
    let p = Params { base: 2.0, cutoff: 0, min_res: -6, singles: true, first: false, seed: 0 };
    let mut w = build(&d, &p).unwrap();
    attach(&mut w, Op::Dir);
    let r = w.reader();
    let s = snap(&r).unwrap();
    let stats_of = |set: usize| {
        let mut m = Model { window: 0, paths: VecDeque::new() };
        for i in 0..d.n() {
            if set >> i & 1 == 1 {
                m.add(&r.known_path(i).unwrap());
            }
        }
        expect_stats(m.evidence().iter().map(|(a, e)| node_kl(&prior(&s, *a), e))).stats
    };
    let by_set: Vec<_> = (0..16).map(stats_of).collect();
    run.bound("baseline training: sequence lengths 0-4, sampling every 1-3, 1-3 sequences over 4 points: statistics belong to some order of the points, and to exactly one for whole sequences");
    for rep in 0..if run.thorough { 64 } else { 8 } {
        for len in 0..=4usize {
            for rate in 1..=3usize {
                for ns in 1..=3usize {
                    run.case(
                        || format!("baseline training {} length {} rate {} sequences {}", rep, len, rate, ns),
                        || {
                            let mut b = DirichletBaseline::default();
                            b.set_sequence_len(len);
                            b.set_sample_rate(rate);
                            b.set_num_sequences(ns);
                            let k = b.train(r.clone()).map_err(|e| format!("{:?}", e))?;
                            let full = if len == 0 { 4 } else { len };
                            let want: Vec<usize> = (0..full).filter(|i| i % rate == 0).map(|i| i + 1).collect();
                            if k.sequence_len != want || k.num_sequences != ns || k.stats.len() != want.len() {
                                return Err(format!("lengths {:?} of {} sequences, expected {:?} of {}", k.sequence_len, k.num_sequences, want, ns));
                            }
                            let mut last: Vec<usize> = vec![0];
                            for (i, st) in k.stats.iter().enumerate() {
                                let got = five(st);
                                let fits = |e: &(f64, f64, u64, f64, f64)| {
                                    let e = [e.0, e.1, e.2 as f64, e.3, e.4];
                                    (0..5).all(|f| close(got[f].0, ns as f64 * e[f], 1e-8) && close(got[f].1, ns as f64 * e[f] * e[f], 1e-8))
                                };
                                if ns == 1 {
                                    let next: Vec<usize> = (0..16usize)
                                        .filter(|x| x.count_ones() as usize == want[i] && last.iter().any(|l| l & x == *l) && fits(&by_set[*x]))
                                        .collect();
                                    if next.is_empty() {
                                        return Err(format!("statistics {:?} after {} paths belong to no order of the points", st, want[i]));
                                    }
                                    last = next;
                                } else {
                                    let lo = |f: usize| (0..16usize).filter(|x| x.count_ones() as usize == want[i]).map(|x| [by_set[x].0, by_set[x].1, by_set[x].2 as f64, by_set[x].3, by_set[x].4][f]).collect::<Vec<f64>>();
                                    for f in 0..5 {
                                        let (mn, mx) = (lo(f).into_iter().fold(f64::MAX, f64::min), lo(f).into_iter().fold(f64::MIN, f64::max));
                                        let m = got[f].0 / ns as f64;
                                        if m < mn - 1e-8 || m > mx + 1e-8 {
                                            return Err(format!("field {} mean {} after {} paths, outside {}..{}", f, m, want[i], mn, mx));
                                        }
                                    }
                                    if want[i] == 4 && !fits(&by_set[15]) {
                                        return Err(format!("statistics {:?} after all points, expected {:?} each", st, by_set[15]));
                                    }
                                }
                            }
                            Ok(Seen { hash: h(&(len, rate, ns)), transitions: want.len() as u64 })
                        },
                    );
                }
            }
        }
    }
    // long sequences: one point apart from many equal ones, so that only its presence matters
    let sizes: [(usize, Vec<usize>, Vec<usize>); 2] = [(300, vec![129, 200, 299, 0], vec![1, 50, 128]), (5000, vec![1500, 4999, 0], vec![300, 1001, 4096])];
    for (n, lens, rates) in sizes.iter() {
    let n = *n;
    let d = Data::d1(&(0..n).map(|i| if i == 17 { 6.0 } else { 1.0 }).collect::<Vec<_>>());
    let mut w = build(&d, &p).unwrap();
    attach(&mut w, Op::Dir);
    let r = w.reader();
    let s = snap(&r).unwrap();
    run.bound(format!("baseline training on {} points of which one is different, sequences of {:?} (0: all) points, sampled every {:?}", n, lens, rates));
    for rep in 0..if run.thorough { 16 } else { 2 } {
        for len in lens.iter() {
            for rate in rates.iter() {
                run.case(
                    || format!("baseline training {} length {} of {} rate {}", rep, len, n, rate),
                    || {
                        let mut b = DirichletBaseline::default();
                        b.set_sequence_len(*len);
                        b.set_sample_rate(*rate);
                        b.set_num_sequences(1);
                        let k = b.train(r.clone()).map_err(|e| format!("{:?}", e))?;
                        let full = if *len == 0 { n } else { *len };
                        let want: Vec<usize> = (0..full).filter(|i| i % rate == 0).map(|i| i + 1).collect();
                        if k.sequence_len != want || k.num_sequences != 1 || k.stats.len() != want.len() {
                            return Err(format!("lengths {:?} of {} sequences, expected {:?}", k.sequence_len, k.num_sequences, want));
                        }
                        let mut seen = false;
                        for (i, st) in k.stats.iter().enumerate() {
                            let got = five(st);
                            let fits = |odd: usize| {
                                let mut m = Model { window: 0, paths: VecDeque::new() };
                                (0..want[i] - odd).for_each(|_| m.add(&r.known_path(0).unwrap()));
                                (0..odd).for_each(|_| m.add(&r.known_path(17).unwrap()));
                                let e = expect_stats(m.evidence().iter().map(|(a, e)| node_kl(&prior(&s, *a), e))).stats;
                                let e = [e.0, e.1, e.2 as f64, e.3, e.4];
                                (0..5).all(|f| close(got[f].0, e[f], 1e-8) && close(got[f].1, e[f] * e[f], 1e-8))
                            };
                            let (with, without) = (fits(1), want[i] < n && !seen && fits(0));
                            if !with && !without {
                                return Err(format!("statistics {:?} after {} paths belong to no order of the points", st, want[i]));
                            }
                            seen |= !without;
                        }
                        Ok(Seen { hash: h(&(n, len, rate)), transitions: want.len() as u64 })
                    },
                );
            }
        }
    }
    }
    run.assume("baseline training draws its sequences from the thread's random source, which is not controlled: the check accepts exactly the outcomes some order of the points explains");
    run.assume("a window tracker combined with an unbounded one is left out: the unbounded one has no list of paths to expire");
}
