//! C17: distances against the definition.
use crate::run::{h, Run, Seen};
use pointcloud::data_sources::DataRam;
use pointcloud::metrics::{L1, L2};
use pointcloud::points::{RawSparse, SparseRef};
use pointcloud::*;

/// The two definitions, in double precision.
fn def(l1: bool, d: impl Iterator<Item = f64>) -> f64 {
    if l1 {
        d.map(f64::abs).sum()
    } else {
        d.map(|x| x * x).sum::<f64>().sqrt()
    }
}

fn same(got: f32, want: f64, exact: bool) -> bool {
    if exact {
        got == want as f32
    } else {
        ((got as f64) - want).abs() <= 1e-5 * want
    }
}

fn dense_ok<T: Copy>(x: &[T], y: &[T], f: &dyn Fn(T) -> f64, exact: bool) -> Result<(), String>
where
    L1: Metric<[T]>,
    L2: Metric<[T]>,
{
    for l1 in [true, false].iter() {
        let d = |a: &[T], b: &[T]| if *l1 { L1::dist(a, b) } else { L2::dist(a, b) };
        let want = def(*l1, x.iter().zip(y).map(|(a, b)| f(*a) - f(*b)));
        let (g, r) = (d(x, y), d(y, x));
        if !same(g, want, exact) || g != r {
            let v = |s: &[T]| s.iter().map(|a| f(*a)).collect::<Vec<_>>();
            return Err(format!("L{} of {:?} and {:?}: {} and {}, expected {}", if *l1 { 1 } else { 2 }, v(x), v(y), g, r, want));
        }
        if d(x, x) != 0.0 {
            return Err(format!("distance {} to itself", d(x, x)));
        }
    }
    Ok(())
}

trait Index: Copy + std::convert::TryInto<usize> + std::fmt::Debug + Ord {
    fn at(i: usize) -> Self;
}
impl Index for u8 {
    fn at(i: usize) -> u8 {
        i as u8
    }
}
impl Index for u16 {
    fn at(i: usize) -> u16 {
        i as u16
    }
}
impl Index for u32 {
    fn at(i: usize) -> u32 {
        i as u32
    }
}

fn sparse_ok<T: Copy + std::fmt::Debug, S: Index>(dim: usize, x: &[(usize, T)], y: &[(usize, T)], f: &dyn Fn(T) -> f64, exact: bool) -> Result<(), String>
where
    L1: Metric<RawSparse<T, S>>,
    L2: Metric<RawSparse<T, S>>,
{
    let split = |p: &[(usize, T)]| -> (Vec<T>, Vec<S>) { (p.iter().map(|e| e.1).collect(), p.iter().map(|e| S::at(e.0)).collect()) };
    let ((xv, xi), (yv, yi)) = (split(x), split(y));
    let (sx, sy) = (SparseRef::<T, S>::new(dim, &xv, &xi), SparseRef::<T, S>::new(dim, &yv, &yi));
    let mut all = std::collections::BTreeMap::new();
    x.iter().for_each(|(i, v)| *all.entry(*i).or_insert(0.0) += f(*v));
    y.iter().for_each(|(i, v)| *all.entry(*i).or_insert(0.0) -= f(*v));
    for l1 in [true, false].iter() {
        let d = |a: &RawSparse<T, S>, b: &RawSparse<T, S>| if *l1 { L1::dist(a, b) } else { L2::dist(a, b) };
        let want = def(*l1, all.values().cloned());
        let (g, r) = (d(&sx, &sy), d(&sy, &sx));
        if !same(g, want, exact) || !same(r, want, exact) {
            return Err(format!("sparse L{} of {:?} and {:?}: {} and {}, expected {}", if *l1 { 1 } else { 2 }, x, y, g, r, want));
        }
        if d(&sx, &sx) != 0.0 {
            return Err(format!("distance {} to itself", d(&sx, &sx)));
        }
    }
    Ok(())
}

macro_rules! element {
    ($t:ident, $run:expr, $extremes:expr, $signed:expr) => {{
        let run = $run;
        let top = if run.thorough { 180 } else { 100 };
        let f = |v: $t| v as f64;
        let val = |k: usize| -> $t {
            let m = (k * 5 + k / 7) % 11;
            if $signed && k % 3 == 1 {
                (0 as $t).wrapping_less(m as $t)
            } else {
                m as $t
            }
        };
        run.par(top + 1, |n| {
            run.case(
                || format!("{} dense length {}", stringify!($t), n),
                || {
                    let mut t = 0u64;
                    let zero = vec![0 as $t; n];
                    let full: Vec<$t> = (0..n).map(|k| val(k)).collect();
                    let other: Vec<$t> = (0..n).map(|k| val(k * 2 + 3)).collect();
                    dense_ok(&full, &other, &f, true)?;
                    dense_ok(&full, &zero, &f, true)?;
                    for i in 0..n {
                        // one coordinate at a time
                        let mut one = zero.clone();
                        one[i] = 3 as $t;
                        dense_ok(&one, &zero, &f, true)?;
                        let mut diff = full.clone();
                        diff[i] = other[i].wrapping_more(20 as $t);
                        dense_ok(&diff, &full, &f, true)?;
                        dense_ok(&diff, &other, &f, true)?;
                        // extreme values
                        for a in $extremes.iter() {
                            for b in $extremes.iter() {
                                let (mut p, mut q) = (zero.clone(), zero.clone());
                                p[i] = *a;
                                q[i] = *b;
                                dense_ok(&p, &q, &f, false)?;
                                t += 1;
                            }
                        }
                        t += 3;
                    }
                    run.add_execs(t);
                    Ok(Seen { hash: h(&(stringify!($t), n)), transitions: t })
                },
            );
        });
        let long = [127usize, 128, 129, 160, 191, 255, 256, 257, 300, 511, 512, 513, 784, 1000, 1023, 1024, 1025, 4096];
        run.par(long.len(), |k| {
            let n = long[k];
            run.case(
                || format!("{} dense length {}", stringify!($t), n),
                || {
                    let mut t = 2u64;
                    let zero = vec![0 as $t; n];
                    let full: Vec<$t> = (0..n).map(|k| val(k)).collect();
                    let other: Vec<$t> = (0..n).map(|k| val(k * 2 + 3)).collect();
                    dense_ok(&full, &other, &f, true)?;
                    dense_ok(&full, &zero, &f, true)?;
                    for i in (0..n).filter(|i| n <= 300 || *i < 40 || *i + 40 >= n || i % 64 < 2 || i % 64 == 63) {
                        let mut one = zero.clone();
                        one[i] = 3 as $t;
                        dense_ok(&one, &zero, &f, true)?;
                        let mut diff = full.clone();
                        diff[i] = other[i].wrapping_more(20 as $t);
                        dense_ok(&diff, &full, &f, true)?;
                        t += 2;
                    }
                    run.add_execs(t);
                    Ok(Seen { hash: h(&(stringify!($t), n)), transitions: t })
                },
            );
        });
        let dim = if run.thorough { 8 } else { 7 };
        run.par(1 << dim, |xs| {
            run.case(
                || format!("{} sparse pattern {:b}", stringify!($t), xs),
                || {
                    let pick = |m: usize, z: bool, q: usize| -> Vec<(usize, $t)> {
                        (0..dim).filter(|i| m >> i & 1 == 1).map(|i| (i, if z && i % 2 == 0 { 0 as $t } else { val(i + q).wrapping_more(1 as $t) })).collect()
                    };
                    let mut t = 0u64;
                    for ys in 0..1 << dim {
                        for (zx, zy) in [(false, false), (true, false), (false, true)].iter() {
                            for same in 0..2 {
                                let (x, y) = (pick(xs, *zx, 0), pick(ys, *zy, same * 4));
                                sparse_ok::<$t, u8>(dim, &x, &y, &f, true)?;
                                sparse_ok::<$t, u16>(dim, &x, &y, &f, true)?;
                                sparse_ok::<$t, u32>(dim, &x, &y, &f, true)?;
                                t += 3;
                            }
                        }
                    }
                    run.add_execs(t);
                    Ok(Seen { hash: h(&(stringify!($t), "sparse", xs)), transitions: t })
                },
            );
        });
        // very many stored values
        let many = [1024usize, 5000, 9000];
        run.par(many.len(), |k| {
            let n = many[k];
            run.case(
                || format!("{} sparse with {} values", stringify!($t), n),
                || {
                    let full: Vec<(usize, $t)> = (0..n).map(|k| (k + k / 3, val(k))).collect();
                    let mut others: Vec<Vec<(usize, $t)>> = vec![vec![], full.clone()];
                    others.push(full.iter().map(|(i, v)| (i + 1, v.wrapping_more(1 as $t))).collect());
                    others.push(full.iter().map(|(i, v)| (i + 2 * n, *v)).collect());
                    others.push(full.iter().map(|(i, v)| (i + n, v.wrapping_more(2 as $t))).collect());
                    for m in [1usize, 7, n / 2, n - 1].iter() {
                        others.push(full.iter().take(*m).map(|(i, v)| (*i, v.wrapping_more(3 as $t))).collect());
                        others.push(full.iter().skip(n - *m).map(|(i, v)| (*i, v.wrapping_more(3 as $t))).collect());
                    }
                    for i in [0usize, 1, 2, 3, 16, n / 2, n, full[n - 1].0, full[n - 1].0 + 1].iter() {
                        others.push(vec![(*i, 4 as $t)]);
                    }
                    for y in &others {
                        sparse_ok::<$t, u16>(65_535, &full, y, &f, true).map_err(|e| e[..e.len().min(300)].to_string())?;
                        sparse_ok::<$t, u32>(1 << 31, &full, y, &f, true).map_err(|e| e[..e.len().min(300)].to_string())?;
                    }
                    run.add_execs(2 * others.len() as u64);
                    Ok(Seen { hash: h(&(stringify!($t), "many", n)), transitions: 2 * others.len() as u64 })
                },
            );
        });
        // many stored values: against nothing, against a few, against as many
        run.par(top + 1, |n| {
            run.case(
                || format!("{} sparse with {} values", stringify!($t), n),
                || {
                    let full: Vec<(usize, $t)> = (0..n).map(|k| (k + k / 3, val(k))).collect();
                    let mut t = 0u64;
                    let mut go = |y: &[(usize, $t)]| -> Result<(), String> {
                        t += 3;
                        sparse_ok::<$t, u8>(255, &full, y, &f, true)?;
                        sparse_ok::<$t, u16>(70000, &full, y, &f, true)?;
                        sparse_ok::<$t, u32>(1 << 31, &full, y, &f, true)
                    };
                    go(&[])?;
                    go(&full.iter().map(|(i, v)| (i + 1, v.wrapping_more(1 as $t))).collect::<Vec<_>>())?;
                    go(&full.iter().rev().take(n / 2).rev().cloned().collect::<Vec<_>>())?;
                    for i in 0..=(n + n / 3 + 1) {
                        go(&[(i, 4 as $t)])?;
                        go(&[(i, 4 as $t), (250, 1 as $t)])?;
                    }
                    for a in $extremes.iter() {
                        for b in $extremes.iter() {
                            let (x, y) = (vec![(3usize, *a)], vec![(3usize, *b)]);
                            sparse_ok::<$t, u8>(9, &x, &y, &f, false)?;
                            sparse_ok::<$t, u16>(9, &x, &[], &f, false)?;
                            sparse_ok::<$t, u32>(9, &x, &[(2, *b)], &f, false)?;
                            t += 3;
                        }
                    }
                    // large indexes do not collide
                    sparse_ok::<$t, u16>(70000, &[(65535, 2 as $t)], &[(255, 3 as $t)], &f, true)?;
                    sparse_ok::<$t, u32>(1 << 31, &[(70000, 2 as $t)], &[(70000 - 65536, 3 as $t)], &f, true)?;
                    sparse_ok::<$t, u32>(1 << 31, &[(u32::MAX as usize, 2 as $t)], &[(65535, 3 as $t)], &f, true)?;
                    run.add_execs(t);
                    Ok(Seen { hash: h(&(stringify!($t), "long", n)), transitions: t })
                },
            );
        });
    }};
}

trait Num: Copy {
    fn wrapping_more(self, b: Self) -> Self;
    fn wrapping_less(self, b: Self) -> Self;
}
macro_rules! num {
    ($($t:ident),*) => {$(impl Num for $t {
        fn wrapping_more(self, b: $t) -> $t { self.wrapping_add(b) }
        fn wrapping_less(self, b: $t) -> $t { self.wrapping_sub(b) }
    })*};
}
num!(i8, u8, i16, u16, i32, u32);
impl Num for f32 {
    fn wrapping_more(self, b: f32) -> f32 {
        self + b
    }
    fn wrapping_less(self, b: f32) -> f32 {
        self - b
    }
}

/// Dense forms of sparse points.
fn forms(run: &'static Run) {
    let dims = if run.thorough { 12 } else { 9 };
    run.bound(format!("dense forms of sparse points: all patterns of up to {} coordinates, three index types", dims));
    fn one<S>(dim: usize, v: &[f32], i: Vec<S>, want: &[f32]) -> Result<(), String>
    where
        S: std::convert::TryInto<usize> + Ord + std::convert::TryFrom<usize> + std::fmt::Debug + Copy + Send + Sync + 'static,
    {
        let s = SparseRef::<f32, S>::new(dim, v, &i);
        let it: Vec<f32> = s.dense_iter().take(4 * dim + 9).collect();
        if s.dense() != want || it != want {
            return Err(format!("dense {:?}, iterated {:?}, expected {:?}", s.dense(), it, want));
        }
        let again: Vec<f32> = s.dense_iter().take(4 * dim + 9).collect();
        if again != want || s.values() != v || s.indexes() != &i[..] || s.dim() != dim {
            return Err(format!("parts {:?} {:?} of {:?}", s.values(), s.indexes(), want));
        }
        Ok(())
    }
    for dim in 0..=dims {
        run.par(1usize << dim, |m| {
            run.case(
                || format!("dense form of pattern {:b} of {}", m, dim),
                || {
                    let at: Vec<usize> = (0..dim).filter(|i| m >> i & 1 == 1).collect();
                    let v: Vec<f32> = at.iter().map(|i| *i as f32 - 2.5).collect();
                    let mut want = vec![0.0; dim];
                    at.iter().zip(&v).for_each(|(i, x)| want[*i] = *x);
                    one(dim, &v, at.iter().map(|i| *i as u8).collect::<Vec<u8>>(), &want)?;
                    one(dim, &v, at.iter().map(|i| *i as u16).collect::<Vec<u16>>(), &want)?;
                    one(dim, &v, at.iter().map(|i| *i as u32).collect::<Vec<u32>>(), &want)?;
                    Ok(Seen { hash: h(&(dim, m)), transitions: 3 })
                },
            );
        });
    }
    macro_rules! dense_point {
        ($($t:ident),*) => {$(
            run.case(
                || format!("dense form of {} points", stringify!($t)),
                || {
                    for n in 0..40usize {
                        let v: Vec<$t> = (0..n).map(|k| if k % 5 == 4 { $t::MIN } else if k % 5 == 3 { $t::MAX } else { k as $t }).collect();
                        let want: Vec<f32> = v.iter().map(|x| *x as f32).collect();
                        let p = &v[..];
                        if p.dense() != want || p.dense_iter().collect::<Vec<f32>>() != want {
                            return Err(format!("{:?} becomes {:?}", v, p.dense()));
                        }
                    }
                    Ok(Seen { hash: h(stringify!($t)), transitions: 40 })
                },
            );
        )*};
    }
    dense_point!(i8, u8, i16, u16, i32, u32, f32);
}

fn batches<M: Metric<[f32]>>(run: &'static Run, l1: bool) {
    let dims: &[usize] = if run.thorough { &[1, 2, 17, 1000, 2999, 3000, 3001, 4000, 100_000, 150_000, 299_999, 300_000, 300_001, 400_000] } else { &[1, 3, 3001, 100_000, 300_000, 300_001] };
    run.bound(format!("batch distances in {:?} dimensions, batch sizes around the splits and up to 10007, forward, backward and repeating index lists, an index out of range at every position of the small ones", dims));
    run.par(dims.len(), |k| {
        let dim = dims[k];
        let n = if dim > 10_000 { 5 } else { 40 };
        let pts: Vec<Vec<f32>> = (0..n)
            .map(|i| {
                let mut p = vec![0.0; dim];
                p[0] = i as f32;
                p[dim / 2] += (i * i) as f32 * 0.5;
                p[dim - 1] += if i % 2 == 0 { -1.0 } else { 2.0 };
                p
            })
            .collect();
        let pc = DataRam::<M>::new(pts.concat(), dim).unwrap();
        let c = (300_000 / dim).min(100).max(1);
        let mut sizes: Vec<usize> = vec![0, 1, 2, 3, 4];
        for q in 1..=5 {
            for o in -1i64..=2 {
                sizes.push((c as i64 * q + o) as usize);
            }
        }
        if dim <= 3001 {
            sizes.extend(&[7 * c + 1, 10 * c, 16 * c + 1, 40 * c + 3]);
        }
        if dim <= 3 {
            sizes.push(10_007);
        }
        sizes.sort();
        sizes.dedup();
        // the one-by-one distances
        let coords = |i: usize| {
            let mut v: Vec<usize> = vec![0, dim / 2, dim - 1];
            v.sort();
            v.dedup();
            v.into_iter().map(|k| pts[i][k] as f64).collect::<Vec<_>>()
        };
        for sz in sizes {
            for order in 0..3 {
                let idx: Vec<usize> = (0..sz)
                    .map(|i| match order {
                        0 => i % n,
                        1 => (sz - 1 - i) % n,
                        _ => (i * 7 + i / 3) % n,
                    })
                    .collect();
                run.case(
                    || format!("L{} batch of {} in {} dimensions order {}", if l1 { 1 } else { 2 }, sz, dim, order),
                    || {
                        let a = pc.distances_to_point_index(2, &idx).map_err(|e| e.to_string())?;
                        let b = pc.distances_to_point(&&pts[2][..], &idx).map_err(|e| e.to_string())?;
                        if a.len() != sz || b.len() != sz {
                            return Err(format!("{} and {} distances", a.len(), b.len()));
                        }
                        for (j, i) in idx.iter().enumerate() {
                            let want = def(l1, coords(*i).iter().zip(coords(2)).map(|(x, y)| x - y));
                            if !same(a[j], want, false) || a[j] != b[j] || a[j] != M::dist(&pts[2], &pts[*i]) {
                                return Err(format!("entry {} (point {}): {} and {}, expected {}", j, i, a[j], b[j], want));
                            }
                        }
                        let mut t = sz as u64;
                        if order == 0 {
                            let stride = if sz <= 8 { 1 } else { sz / 8 };
                            for bad in (0..sz).step_by(stride).chain(if sz > 0 { Some(sz - 1) } else { None }) {
                                let mut ix = idx.clone();
                                ix[bad] = n;
                                if pc.distances_to_point_index(2, &ix).is_ok() || pc.distances_to_point(&&pts[2][..], &ix).is_ok() {
                                    return Err(format!("index out of range at {} accepted", bad));
                                }
                                t += 1;
                            }
                            if pc.distances_to_point_index(n, &idx).is_ok() {
                                return Err("distances to a point out of range".into());
                            }
                        }
                        run.add_execs(t);
                        Ok(Seen { hash: h(&(l1, dim, sz, order)), transitions: t })
                    },
                );
            }
        }
        run.case(
            || format!("L{} dense arrays and moments in {} dimensions", if l1 { 1 } else { 2 }, dim),
            || {
                for ix in vec![vec![], vec![0], vec![3, 1], vec![4, 4, 0], (0..n).collect::<Vec<usize>>()] {
                    let m = pc.points_dense_matrix(&ix).map_err(|e| e.to_string())?;
                    if m.shape() != [ix.len(), dim] || ix.iter().enumerate().any(|(r, i)| m.row(r).iter().ne(pts[*i].iter())) {
                        return Err(format!("matrix of {:?}", ix));
                    }
                    let m1 = pc.moment_1(&ix).map_err(|e| e.to_string())?;
                    let m2 = pc.moment_2(&ix).map_err(|e| e.to_string())?;
                    if m1.len() != dim || m2.len() != dim {
                        return Err("moment length".into());
                    }
                    for k in 0..dim {
                        let s1: f32 = ix.iter().map(|i| pts[*i][k]).sum();
                        let s2: f32 = ix.iter().map(|i| pts[*i][k] * pts[*i][k]).sum();
                        if (m1[k] - s1).abs() > 1e-4 * (1.0 + s1.abs()) || (m2[k] - s2).abs() > 1e-4 * (1.0 + s2) {
                            return Err(format!("moments of {:?} at {}: {} {}, expected {} {}", ix, k, m1[k], m2[k], s1, s2));
                        }
                    }
                }
                for i in 0..n {
                    if pc.point_dense_array(i).map_err(|e| e.to_string())?.iter().ne(pts[i].iter()) {
                        return Err(format!("dense array of {}", i));
                    }
                }
                if pc.point_dense_array(n).is_ok() || pc.points_dense_matrix(&[0, n]).is_ok() || pc.moment_1(&[n]).is_ok() || pc.moment_2(&[0, n]).is_ok() {
                    return Err("index out of range accepted".into());
                }
                Ok(Seen { hash: h(&(l1, dim)), transitions: 5 })
            },
        );
    });
}

pub fn c17(run: &'static Run) {
    run.bound(format!(
        "dense: every length 0-{} and selected ones up to 4096, every single coordinate differing, extreme values at every coordinate, seven element types, both metrics, both directions",
        if run.thorough { 180 } else { 100 }
    ));
    run.bound(format!("sparse: all pairs of patterns of {} coordinates with and without stored zeros, every number of stored values against none, one, two, half and shifted ones, three index types", if run.thorough { 8 } else { 7 }));
    element!(f32, run, [f32::MIN / 1e25, -1.5f32, 0.0, 1e-3, 1e12], true);
    element!(i8, run, [i8::MIN, -1i8, 0, 100, i8::MAX], true);
    element!(u8, run, [0u8, 1, 127, 128, u8::MAX], false);
    element!(i16, run, [i16::MIN, -1i16, 0, 300, i16::MAX], true);
    element!(u16, run, [0u16, 1, 32768, u16::MAX], false);
    element!(i32, run, [i32::MIN, -1i32, 0, 70000, i32::MAX], true);
    element!(u32, run, [0u32, 1, 1 << 31, u32::MAX], false);
    forms(run);
    batches::<L1>(run, true);
    batches::<L2>(run, false);
    run.assume("values are chosen so that the definition is exact in single precision, and compared exactly; extreme values are compared to 1e-5 relative");
}
