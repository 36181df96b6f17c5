//! C15: probabilities, log-densities, divergences and sampling against their definitions.
use crate::plugs::{attach, Op};
use crate::run::{h, Run, Seen};
use crate::trees::*;
use goko::plugins::discrete::prelude::*;
use goko::plugins::gaussians::*;
use goko::*;
use rand::RngCore;
use std::collections::BTreeMap;

/// ln Gamma by recurrence and Stirling's series.
pub fn lng(mut x: f64) -> f64 {
    let mut s = 0.0;
    while x < 40.0 {
        s -= x.ln();
        x += 1.0;
    }
    let i = 1.0 / x;
    s + (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + i / 12.0 - i.powi(3) / 360.0 + i.powi(5) / 1260.0
}
/// Digamma likewise.
pub fn psi(mut x: f64) -> f64 {
    let mut s = 0.0;
    while x < 40.0 {
        s -= 1.0 / x;
        x += 1.0;
    }
    let i2 = 1.0 / (x * x);
    s + x.ln() - 0.5 / x - i2 / 12.0 + i2 * i2 / 120.0 - i2 * i2 * i2 / 252.0
}

pub type Counts = BTreeMap<Option<NodeAddress>, f64>;

fn support(c: &Counts) -> Vec<Option<NodeAddress>> {
    c.iter().filter(|(_, v)| **v > 0.0).map(|(k, _)| *k).collect()
}
fn sum(c: &Counts) -> f64 {
    c.values().sum()
}

/// KL(Dir(a) || Dir(b)) for equal supports.
pub fn dir_kl(a: &Counts, b: &Counts) -> f64 {
    let (ta, tb) = (sum(a), sum(b));
    let mut r = lng(ta) - lng(tb);
    for k in support(a) {
        let (x, y) = (a[&k], b[&k]);
        r += lng(y) - lng(x) + (x - y) * (psi(x) - psi(ta));
    }
    r
}

/// What the library reports for evidence of own points where the prior has none: the formula of
/// the posterior divergence with the own points left out except in the total, and not below zero.
pub fn posterior_without_own(prior: &Counts, ev: &Counts) -> f64 {
    let (t, n) = (sum(prior), sum(ev));
    let mut r = lng(t) - lng(t + n);
    for k in support(prior) {
        let e = *ev.get(&k).unwrap_or(&0.0);
        r += lng(prior[&k] + e) - lng(prior[&k]) - e * (psi(prior[&k]) - psi(t));
    }
    r.max(0.0)
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

pub const LOCS: [Option<NodeAddress>; 4] = [None, Some((-1, 0)), Some((-1, 2)), Some((-3, 1))];

fn vectors(vals: &[usize], n: usize) -> Vec<Vec<usize>> {
    let k = vals.len();
    (0..k.pow(n as u32))
        .map(|mut c| {
            (0..n)
                .map(|_| {
                    let v = vals[c % k];
                    c /= k;
                    v
                })
                .collect()
        })
        .collect()
}

/// Observations in an order that exercises insertion before and after existing entries.
fn dirichlet(v: &[usize], w: f64, rev: bool) -> (Dirichlet, Counts) {
    let mut d = Dirichlet::new();
    let mut c = Counts::new();
    let order: Vec<usize> = if rev { (0..v.len()).rev().collect() } else { (0..v.len()).collect() };
    for i in order {
        for _ in 0..v[i] {
            d.add_observation(LOCS[i]);
            *c.entry(LOCS[i]).or_insert(0.0) += 1.0;
        }
    }
    if w != 1.0 {
        d.weight(w);
        c.values_mut().for_each(|x| *x *= w);
    }
    (d, c)
}

/// A categorical with these counts, the way a tracker makes one. `forgotten` adds and expires one more path there.
fn categorical(t: &CoverTreeReader<Cloud>, v: &[usize], forgotten: Option<usize>) -> (Categorical, Counts) {
    let at = (5, 9);
    let n: usize = v.iter().sum();
    let mut tr = BayesCategoricalTracker::new(if forgotten.is_some() { n } else { 0 }, t.clone());
    let mut c = Counts::new();
    let mut go = |i: usize| {
        tr.add_path(match LOCS[i] {
            None => vec![(0.0, at)],
            Some(k) => vec![(0.0, at), (0.0, k)],
        })
    };
    if let Some(f) = forgotten {
        go(f)
    }
    for i in (0..v.len()).rev() {
        for _ in 0..v[i] {
            go(i);
            *c.entry(LOCS[i]).or_insert(0.0) += 1.0;
        }
    }
    (tr.running_evidence().get(&at).cloned().unwrap_or_default(), c)
}

type Probs = Option<(Vec<(NodeAddress, f64)>, f64)>;

fn check_vector(what: &str, p: Probs, c: &Counts, ln: bool) -> Result<(), String> {
    let t = sum(c);
    if t == 0.0 {
        return if p.is_some() && !ln { Err(format!("{} of an empty distribution: {:?}", what, p)) } else { Ok(()) };
    }
    let (v, s) = p.ok_or(format!("{} missing for {:?}", what, c))?;
    let f = |x: f64| if ln { x.exp() } else { x };
    let mut total = f(s);
    let mut m: Counts = v.iter().map(|(k, p)| (Some(*k), f(*p))).collect();
    if m.len() != v.len() {
        return Err(format!("{} lists an address twice: {:?}", what, v));
    }
    m.insert(None, f(s));
    for (_, p) in &v {
        total += f(*p);
    }
    for k in c.keys().chain(m.keys()) {
        let got = *m.get(k).unwrap_or(&0.0);
        let want = c.get(k).unwrap_or(&0.0) / t;
        if !(got >= 0.0) || !close(got, want, 1e-9) {
            return Err(format!("{} gives {} at {:?} for {:?}", what, got, k, c));
        }
        // no mass is minus infinity, not merely a small number
        if ln && want == 0.0 && got != 0.0 {
            return Err(format!("{} gives {} at {:?} for {:?}", what, got.ln(), k, c));
        }
    }
    if !close(total, 1.0, 1e-9) {
        return Err(format!("{} sums to {} for {:?}", what, total, c));
    }
    Ok(())
}

fn check_ln_pdf(what: &str, f: &dyn Fn(Option<&NodeAddress>) -> Option<f64>, c: &Counts) -> Result<(), String> {
    let t = sum(c);
    for k in LOCS.iter().chain(&[Some((77, 7))]).chain(c.keys()) {
        let got = f(k.as_ref());
        if t == 0.0 {
            if got.is_some() {
                return Err(format!("{} of an empty distribution is {:?}", what, got));
            }
            continue;
        }
        let want = (c.get(k).unwrap_or(&0.0) / t).ln();
        match got {
            Some(g) if g == want || close(g, want, 1e-9) => {}
            _ => return Err(format!("{} at {:?} is {:?}, expected {} for {:?}", what, k, got, want, c)),
        }
    }
    Ok(())
}

/// Gives one chosen draw, then others.
struct Draw(u64);
impl RngCore for Draw {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let r = self.0;
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        r
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Every equally likely draw must give every outcome its share.
fn check_sample(what: &str, f: &dyn Fn(&mut Draw) -> Option<NodeAddress>, c: &Counts) -> Result<u64, String> {
    let t = sum(c);
    if t == 0.0 {
        return Ok(0);
    }
    const M: u64 = 2520;
    let mut got = Counts::new();
    for j in 0..M {
        let v = ((2 * j + 1) as u128 * (1u128 << 64) / (2 * M as u128)) as u64;
        *got.entry(f(&mut Draw(v))).or_insert(0.0) += 1.0;
    }
    for k in c.keys().chain(got.keys()) {
        let want = c.get(k).unwrap_or(&0.0) / t * M as f64;
        let g = *got.get(k).unwrap_or(&0.0);
        if (g - want).abs() > 2.0 {
            return Err(format!("{}: {} of {} draws give {:?}, expected {} for {:?}", what, g, M, k, want, c));
        }
    }
    Ok(M)
}

fn check_kl(what: &str, got: Option<f64>, want: Option<f64>, ctx: &dyn std::fmt::Debug) -> Result<(), String> {
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), None) => g.is_infinite() && g > 0.0,
        (Some(g), Some(w)) => g >= -1e-9 && close(g, w, 1e-8),
        (None, Some(_)) => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} is {:?}, expected {:?} for {:?}", what, got, want, ctx))
    }
}

fn cat_kl(a: &Counts, b: &Counts) -> Option<f64> {
    let (ta, tb) = (sum(a), sum(b));
    if ta == 0.0 || tb == 0.0 {
        return None;
    }
    let mut r = 0.0;
    for k in support(a) {
        let (p, q) = (a[&k] / ta, b.get(&k).unwrap_or(&0.0) / tb);
        if q == 0.0 {
            return None;
        }
        r += p * (p / q).ln();
    }
    Some(r)
}

/// Distributions over more locations than the exhaustive part has, observed in several orders.
fn many_locations(run: &'static Run, r: &CoverTreeReader<Cloud>) {
    let sizes: &[usize] = &[5, 8, 9, 12, 17, 33, 40, 130];
    let orders = 6;
    run.bound(format!("distributions over {:?} locations, observed in {} orders, with and without expired ones, all ordered pairs", sizes, orders));
    let loc = |i: usize| if i == 0 { None } else { Some((-((i % 5) as i32), (i * 7) % 131)) };
    for n in sizes {
        let n = *n;
        let order = |o: usize| -> Vec<usize> {
            match o {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                2 => (0..n).step_by(2).chain((1..n).step_by(2).collect::<Vec<_>>().into_iter().rev()).collect(),
                3 => (n / 2..n).chain(0..n / 2).collect(),
                4 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
                _ => {
                    let mut v: Vec<usize> = (0..n).collect();
                    v.sort_by_key(|i| (i * 37) % 101);
                    v
                }
            }
        };
        // counts: everywhere, and with gaps; the second round of observations finds existing entries
        let count = |i: usize, c: usize| match c {
            0 => 1 + i % 3,
            1 => 2 + (i * i) % 5,
            2 => if i % 3 == 0 { 0 } else { 1 + i % 4 },
            _ => if i == 0 { 0 } else { 1 + i % 2 },
        };
        let mut all: Vec<((usize, usize), Categorical, Dirichlet, Counts)> = vec![];
        for o in 0..orders {
            for c in 0..4 {
                let mut obs: Vec<usize> = vec![];
                for round in 0..6 {
                    obs.extend(order(o).into_iter().filter(|i| count(*i, c) > round));
                }
                let mut d = Dirichlet::new();
                let mut want = Counts::new();
                // two more at either end that expire again
                let at = (5, 9);
                let mut t = BayesCategoricalTracker::new(obs.len(), r.clone());
                for (j, i) in [n - 1, 0].iter().chain(&obs).enumerate() {
                    t.add_path(match loc(*i) {
                        None => vec![(0.0, at)],
                        Some(k) => vec![(0.0, at), (0.0, k)],
                    });
                    if j >= 2 {
                        d.add_observation(loc(*i));
                        *want.entry(loc(*i)).or_insert(0.0) += 1.0;
                    }
                }
                all.push(((o, c), t.running_evidence()[&at].clone(), d, want));
            }
        }
        run.par(all.len(), |i| {
            let (id, cat, dir, want) = &all[i];
            run.case(
                || format!("{} locations, order and counts {:?}", n, id),
                || {
                    check_vector("probability vector", cat.prob_vector(), want, false)?;
                    check_ln_pdf("log probability", &|k| cat.ln_pdf(k), want)?;
                    check_vector("Dirichlet probability vector", dir.prob_vector(), want, false)?;
                    check_vector("Dirichlet log probability vector", dir.ln_prob_vector(), want, true)?;
                    check_ln_pdf("Dirichlet log probability", &|k| dir.ln_pdf(k), want)?;
                    if !close(dir.total(), sum(want), 1e-12) || !close(cat.total(), sum(want), 1e-12) {
                        return Err(format!("totals {} and {}", dir.total(), cat.total()));
                    }
                    let mut t = check_sample("sample", &|r| cat.sample(r), want)? + check_sample("Dirichlet sample", &|r| dir.sample(r), want)?;
                    for (id2, cat2, dir2, want2) in &all {
                        check_kl("categorical divergence", cat.kl_divergence(cat2), cat_kl(want, want2), &(id, id2))?;
                        let e = if support(want) == support(want2) { Some(dir_kl(want, want2)) } else { None };
                        check_kl("Dirichlet divergence", dir.kl_divergence(dir2), e, &(id, id2))?;
                        if support(want2).iter().all(|k| want.contains_key(k)) {
                            let post: Counts = want.iter().map(|(k, a)| (*k, a + want2.get(k).unwrap_or(&0.0))).collect();
                            check_kl("posterior divergence", dir.posterior_kl_divergence(cat2), Some(dir_kl(want, &post)), &(id, id2))?;
                            let mut y = dir.clone();
                            y.add_evidence(cat2);
                            check_vector("posterior", y.prob_vector(), &post, false)?;
                        }
                        t += 3;
                    }
                    run.add_execs(t);
                    Ok(Seen { hash: h(&(n, id)), transitions: t })
                },
            );
        });
    }
}

pub fn c15(run: &'static Run) {
    let d = Data::d1(&[0.0, 1.0, 3.5]);
    let p = Params { base: 2.0, cutoff: 0, min_res: -4, singles: true, first: false, seed: 0 };
    let mut w = build(&d, &p).unwrap();
    attach(&mut w, Op::Dir);
    // --- categorical
    let vals: &[usize] = if run.thorough { &[0, 1, 2, 3, 5] } else { &[0, 1, 3] };
    let large = [vec![300usize, 1, 40, 0], vec![299, 2, 41, 0], vec![120, 120, 120, 120], vec![1000, 1000, 1, 1], vec![0, 500, 17, 3]];
    run.bound(format!("and the larger counts {:?}, paired with everything", large));
    let vs: Vec<Vec<usize>> = vectors(vals, 4).into_iter().chain(large.iter().cloned()).collect();
    run.bound(format!("categoricals: all count vectors over {} locations with counts {:?}, with and without expired observations, all ordered pairs", LOCS.len(), vals));
    let r = w.reader();
    let mut cats: Vec<(Vec<usize>, Option<usize>, Categorical, Counts)> = vec![];
    for v in &vs {
        cats.push((v.clone(), None, categorical(&r, v, None).0, categorical(&r, v, None).1));
        if v.iter().sum::<usize>() > 0 {
            for f in 0..4 {
                if v[f] == 0 || f == 1 {
                    let (a, b) = categorical(&r, v, Some(f));
                    cats.push((v.clone(), Some(f), a, b));
                }
            }
        }
    }
    run.par(cats.len(), |i| {
        let (v, f, c, want) = &cats[i];
        run.case(
            || format!("categorical {:?} expired {:?}", v, f),
            || {
                check_vector("probability vector", c.prob_vector(), want, false)?;
                check_ln_pdf("log probability", &|k| c.ln_pdf(k), want)?;
                let mut n = 2;
                if sum(want) <= 10.0 {
                    n += check_sample("sample", &|r| c.sample(r), want)?;
                }
                for (v2, f2, c2, want2) in &cats {
                    check_kl("categorical divergence", c.kl_divergence(c2), cat_kl(want, want2), &(v, f, v2, f2))?;
                    n += 1;
                }
                run.add_execs(cats.len() as u64);
                Ok(Seen { hash: h(&(v, f)), transitions: n })
            },
        );
    });
    // --- dirichlet
    let vals: &[usize] = if run.thorough { &[0, 1, 2, 3, 7, 40] } else { &[0, 1, 2, 5] };
    let ws = [1.0, 0.5, 2.5];
    run.bound(format!("Dirichlets: all count vectors over {} locations with counts {:?} scaled by {:?}, all ordered pairs", LOCS.len(), vals, ws));
    let mut dirs = vec![];
    for v in vectors(vals, if run.thorough { 3 } else { 3 }).into_iter().chain(vectors(&[0, 1, 4], 4)).chain(large.iter().cloned()) {
        for (k, w) in ws.iter().enumerate() {
            let (x, c) = dirichlet(&v, *w, k % 2 == 1);
            dirs.push((v.clone(), *w, x, c));
        }
    }
    let small_cats: Vec<_> = cats.iter().filter(|c| c.0.iter().sum::<usize>() <= 6).collect();
    run.bound(format!("posterior divergences: every Dirichlet with every one of {} pieces of evidence", small_cats.len()));
    run.par(dirs.len(), |i| {
        let (v, wt, x, want) = &dirs[i];
        run.case(
            || format!("dirichlet {:?} weight {}", v, wt),
            || {
                if !close(x.total(), sum(want), 1e-12) {
                    return Err(format!("total {}", x.total()));
                }
                check_vector("probability vector", x.prob_vector(), want, false)?;
                check_vector("log probability vector", x.ln_prob_vector(), want, true)?;
                check_ln_pdf("log probability", &|k| x.ln_pdf(k), want)?;
                let mut n = 3;
                n += check_sample("sample", &|r| x.sample(r), want)?;
                if sum(want) == 0.0 {
                    return Ok(Seen { hash: 0, transitions: n });
                }
                for (v2, w2, y, want2) in &dirs {
                    if sum(want2) == 0.0 {
                        continue;
                    }
                    let e = if support(want) == support(want2) { Some(dir_kl(want, want2)) } else { None };
                    check_kl("Dirichlet divergence", x.kl_divergence(y), e, &(v, wt, v2, w2))?;
                    n += 1;
                }
                for (v2, f2, c, ev) in &small_cats {
                    let inside = support(ev).iter().all(|k| want.get(k).map_or(false, |a| *a > 0.0));
                    if inside {
                        let post: Counts = want.iter().map(|(k, a)| (*k, a + ev.get(k).unwrap_or(&0.0))).collect();
                        check_kl("posterior divergence", x.posterior_kl_divergence(c), Some(dir_kl(want, &post)), &(v, wt, v2, f2))?;
                        let mut y = x.clone();
                        y.add_evidence(c);
                        check_kl("divergence from the posterior", x.kl_divergence(&y), Some(dir_kl(want, &post)), &(v, wt, v2, f2))?;
                    } else if support(ev).iter().any(|k| k.is_some() && !want.get(k).map_or(false, |a| *a > 0.0)) {
                        check_kl("posterior divergence", x.posterior_kl_divergence(c), None, &(v, wt, v2, f2))?;
                    }
                    n += 1;
                }
                run.add_execs((dirs.len() + small_cats.len()) as u64);
                Ok(Seen { hash: h(&(v, wt.to_bits())), transitions: n })
            },
        );
    });
    // Known finding: such a divergence should be undefined or infinite. Whatever else it is, it
    // must be what the formula gives when the own points are left out of it.
    run.case(
        || "evidence of own points where the prior has none, value".into(),
        || {
            for (v, wt, x, want) in &dirs {
                for (v2, f2, c, ev) in &small_cats {
                    let outside = support(ev).iter().any(|k| k.is_some() && !want.get(k).map_or(false, |a| *a > 0.0));
                    if !outside && sum(want) > 0.0 && *want.get(&None).unwrap_or(&0.0) == 0.0 && *ev.get(&None).unwrap_or(&0.0) > 0.0 {
                        match x.posterior_kl_divergence(c) {
                            None => {}
                            Some(g) if g == f64::INFINITY || close(g, posterior_without_own(want, ev), 1e-8) => {}
                            g => return Err(format!("posterior divergence is {:?} for {:?}", g, (v, wt, v2, f2))),
                        }
                    }
                }
            }
            Ok(Seen { hash: 1, transitions: 1 })
        },
    );
    run.case(
        || "evidence of own points where the prior has none".into(),
        || {
            for (v, wt, x, want) in &dirs {
                for (v2, f2, c, ev) in &small_cats {
                    if sum(want) > 0.0 && *want.get(&None).unwrap_or(&0.0) == 0.0 && *ev.get(&None).unwrap_or(&0.0) > 0.0 {
                        check_kl("posterior divergence", x.posterior_kl_divergence(c), None, &(v, wt, v2, f2))?;
                    }
                }
            }
            Ok(Seen { hash: 1, transitions: 1 })
        },
    );
    many_locations(run, &r);
    // --- diagonal gaussians
    let grid = [-1.0f32, 0.0, 2.0, 3.0];
    let mut sets: Vec<Data> = (2..=3).flat_map(|n| sequences(&grid, n)).collect();
    if run.thorough {
        sets.extend(sequences(&grid, 4));
    }
    let two: Vec<Data> = vec![
        Data { dim: 2, pts: vec![vec![0.0, 1.0], vec![2.0, 5.0], vec![1.0, -1.0]] },
        Data { dim: 2, pts: vec![vec![0.5, 1.0], vec![-2.0, 0.0], vec![1.0, -1.0], vec![4.0, 4.0]] },
        Data { dim: 2, pts: vec![vec![10.0, 0.0], vec![-10.0, 0.25]] },
        Data { dim: 2, pts: vec![vec![0.0, 0.0], vec![0.25, 16.0]] },
    ];
    run.bound(format!("diagonal gaussians: all sets of 2-{} points over {:?} with positive variance, all ordered pairs, all densities on the grid; {} two-dimensional ones", if run.thorough { 4 } else { 3 }, grid, two.len()));
    // points in many coordinates
    let high: Vec<Vec<Data>> = [3usize, 8, 17, 65, 130, 300, 784]
        .iter()
        .map(|dim| {
            (0..4usize)
                .map(|q| Data { dim: *dim, pts: (0..3 + q).map(|i| (0..*dim).map(|k| ((i * (k + 3 + q) + i * i * 5 + k * q) % 13) as f32 * 0.5 - 3.0 + i as f32 * 0.25).collect()).collect() })
                .collect()
        })
        .collect();
    run.bound("gaussians in 3, 8, 17, 65, 130, 300 and 784 dimensions, all ordered pairs of four each");
    for fam in [sets, two].iter().chain(&high) {
        let gs: Vec<(Data, DiagGaussian, Vec<(f64, f64)>)> = fam
            .iter()
            .filter_map(|d| {
                let mut g = DiagGaussian::new(d.dim);
                d.pts.iter().for_each(|p| g.add_point(&&p[..]));
                let mv: Vec<(f64, f64)> = (0..d.dim)
                    .map(|k| {
                        let n = d.n() as f64;
                        let m = d.pts.iter().map(|p| p[k] as f64).sum::<f64>() / n;
                        (m, d.pts.iter().map(|p| (p[k] as f64 - m).powi(2)).sum::<f64>() / n)
                    })
                    .collect();
                if mv.iter().all(|x| x.1 > 0.0) {
                    Some((d.clone(), g, mv))
                } else {
                    None
                }
            })
            .collect();
        run.par(gs.len(), |i| {
            let (d, g, mv) = &gs[i];
            run.case(
                || format!("gaussian of {:?}", d.pts),
                || {
                    let mut n = 0;
                    let base = rand::rngs::StdRng::from_seed([7; 32]);
                    use rand::SeedableRng;
                    let z0 = {
                        // a gaussian with mean zero and variance one in every coordinate
                        let mut u = DiagGaussian::new(d.dim);
                        u.add_point(&&vec![1.0; d.dim][..]);
                        u.add_point(&&vec![-1.0; d.dim][..]);
                        u.sample(&mut base.clone())
                    };
                    let s = g.sample(&mut base.clone());
                    for k in 0..d.dim {
                        let want = mv[k].0 + mv[k].1.sqrt() * z0[k] as f64;
                        if s.len() != d.dim || !close(s[k] as f64, want, 1e-4) {
                            return Err(format!("sample {:?}: coordinate {} should be {} (standard draw {:?})", s, k, want, z0));
                        }
                    }
                    let queries = if d.dim <= 2 { vectors(&[0, 1, 2, 3], d.dim) } else { (0..9).map(|j| (0..d.dim).map(|k| if j < 4 { j } else { (k * j + k / 5) % 4 }).collect()).collect() };
                    for qs in queries {
                        let q: Vec<f32> = qs.iter().map(|i| grid[*i]).collect();
                        let want: f64 = -0.5 * mv.iter().zip(&q).map(|((m, v), x)| (*x as f64 - m).powi(2) / v + v.ln() + (2.0 * std::f64::consts::PI).ln()).sum::<f64>();
                        match g.ln_pdf(&&q[..]) {
                            Some(x) if close(x, want, 1e-4) => {}
                            x => return Err(format!("log density at {:?} is {:?}, expected {}", q, x, want)),
                        }
                        n += 1;
                    }
                    for (d2, g2, mv2) in &gs {
                        let want: f64 = 0.5
                            * mv.iter()
                                .zip(mv2)
                                .map(|((m, v), (m2, v2))| v / v2 + (m2 - m).powi(2) / v2 - 1.0 + (v2 / v).ln())
                                .sum::<f64>();
                        match g.kl_divergence(g2) {
                            Some(x) if close(x, want, 1e-4) && x >= -1e-4 => {}
                            x => return Err(format!("divergence from {:?} is {:?}, expected {}", d2.pts, x, want)),
                        }
                        n += 1;
                    }
                    run.add_execs(n);
                    Ok(Seen { hash: h(&format!("{:?}", d.pts)), transitions: n })
                },
            );
        });
    }
    run.assume("divergences are compared to 1e-8 relative (discrete, double precision) and 1e-4 (gaussian, single precision); gaussians with a zero variance have no density and are left out");
}
