//! C20: configuration files.
use crate::data::write_csv;
use crate::inline::inline;
use crate::run::{h, Run, Seen};
use crate::trees::*;
use goko::utils::{cover_tree_from_labeled_yaml, cover_tree_from_yaml};
use goko::*;
use pointcloud::loaders::{labeled_ram_from_yaml, labels_from_yaml, ram_from_yaml, vec_labeled_ram_from_yaml};
use pointcloud::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

/// A setting as written in the file, and what it means; the first entry is "left out".
type Choice<T> = (&'static str, T);

static BASES: [Choice<f32>; 7] = [("", 2.0), ("1.3", 1.3), ("2", 2.0), ("3", 3.0), ("2.5", 2.5), ("1.5e0", 1.5), ("4.0", 4.0)];
static CUTOFFS: [Choice<usize>; 4] = [("", 1), ("0", 0), ("1", 1), ("5", 5)];
static MIN_RES: [Choice<i32>; 5] = [("", -10), ("-10", -10), ("-3", -3), ("0", 0), ("2", 2)];
static SINGLES: [Choice<bool>; 3] = [("", true), ("true", true), ("false", false)];
static FIRST: [Choice<bool>; 3] = [("", false), ("nearest", false), ("first", true)];
static VERBOSITY: [Choice<Option<u32>>; 4] = [("", None), ("0", Some(0)), ("1", Some(1)), ("3", Some(3))];
static SEEDS: [Choice<Option<u64>>; 5] = [("", None), ("0", Some(0)), ("1", Some(1)), ("12345", Some(12345)), ("9223372036854775807", Some(i64::MAX as u64))];

#[derive(Clone, Debug)]
struct Want {
    base: f32,
    cutoff: usize,
    min_res: i32,
    singles: bool,
    first: bool,
    verbosity: Option<u32>,
    seed: Option<u64>,
}

fn same_settings<D: PointCloud>(p: &CoverTreeParameters<D>, w: &Want) -> Result<(), String> {
    let first = match p.partition_type {
        PartitionType::First => true,
        PartitionType::Nearest => false,
    };
    let got = (p.scale_base, p.leaf_cutoff, p.min_res_index, p.use_singletons, first, p.rng_seed);
    let want = (w.base, w.cutoff, w.min_res, w.singles, w.first, w.seed);
    if got != want {
        return Err(format!("(base, cutoff, minimum scale, singletons, first, seed) are {:?}, the file says {:?}", got, want));
    }
    match w.verbosity {
        Some(v) if v != p.verbosity => Err(format!("verbosity {}, the file says {}", p.verbosity, v)),
        _ => Ok(()),
    }
}

/// A scratch directory of its own for every case.
fn fresh_dir(tag: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = scratch().join(format!("{}{}", tag, N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn dat(f: &Path, v: &[f32]) {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_ne_bytes().to_vec()).collect();
    std::fs::write(f, b).unwrap();
}

/// Line, plane and clusters: every setting changes the tree of this data.
fn sample_data() -> Data {
    let mut pts = vec![];
    for (x, y) in [(0.0f32, 0.0f32), (1.0, 0.0), (2.0, 0.5), (2.25, 0.5), (2.5, 0.75), (8.0, 1.0), (8.0, 1.0), (8.125, 1.25), (-4.0, 3.0), (-4.5, 3.5), (0.5, 0.25), (16.0, -7.0)].iter() {
        pts.push(vec![*x, *y]);
    }
    Data { dim: 2, pts }
}

fn settings(run: &'static Run) {
    let n = BASES.len() * CUTOFFS.len() * MIN_RES.len() * SINGLES.len() * FIRST.len() * VERBOSITY.len() * SEEDS.len();
    run.bound(format!("settings: all {} combinations of {:?} x {:?} x {:?} x {:?} x {:?} x {:?} x {:?} (empty: left out), keys in two orders, against the settings the tree reports and the tree built with the same settings given directly", n,
        BASES.iter().map(|c| c.0).collect::<Vec<_>>(), CUTOFFS.iter().map(|c| c.0).collect::<Vec<_>>(), MIN_RES.iter().map(|c| c.0).collect::<Vec<_>>(),
        SINGLES.iter().map(|c| c.0).collect::<Vec<_>>(), FIRST.iter().map(|c| c.0).collect::<Vec<_>>(), VERBOSITY.iter().map(|c| c.0).collect::<Vec<_>>(), SEEDS.iter().map(|c| c.0).collect::<Vec<_>>()));
    let dir = fresh_dir("settings");
    let data = sample_data();
    dat(&dir.join("points.dat"), &data.flat());
    run.par(n, |i| {
        let mut k = i;
        let mut pick = |len: usize| {
            let r = k % len;
            k /= len;
            r
        };
        let set = (&BASES[pick(7)], &CUTOFFS[pick(4)], &MIN_RES[pick(5)], &SINGLES[pick(3)], &FIRST[pick(3)], &VERBOSITY[pick(4)], &SEEDS[pick(5)]);
        one_setting(run, &dir, &data, i, set);
    });
    // values that need more room
    static FAR_BASES: [Choice<f32>; 4] = [("", 2.0), ("1.01", 1.01), ("100.5", 100.5), ("70000", 70000.0)];
    static FAR_CUTOFFS: [Choice<usize>; 5] = [("", 1), ("200", 200), ("300", 300), ("70000", 70000), ("5000000000", 5000000000)];
    static FAR_MIN_RES: [Choice<i32>; 4] = [("", -10), ("-200", -200), ("-2000", -2000), ("3", 3)];
    static FAR_VERBOSITY: [Choice<Option<u32>>; 3] = [("", None), ("300", Some(300)), ("70000", Some(70000))];
    static FAR_SEEDS: [Choice<Option<u64>>; 5] = [("", None), ("255", Some(255)), ("65536", Some(65536)), ("4294967296", Some(4294967296)), ("4294967297", Some(4294967297))];
    let far = FAR_BASES.len() * FAR_CUTOFFS.len() * FAR_MIN_RES.len() * FAR_VERBOSITY.len() * FAR_SEEDS.len();
    run.bound(format!("settings: all {} combinations of large values", far));
    run.par(far, |i| {
        let mut k = i;
        let mut pick = |len: usize| {
            let r = k % len;
            k /= len;
            r
        };
        let (b, c, m, v, r) = (&FAR_BASES[pick(4)], &FAR_CUTOFFS[pick(5)], &FAR_MIN_RES[pick(4)], &FAR_VERBOSITY[pick(3)], &FAR_SEEDS[pick(5)]);
        one_setting(run, &dir, &data, n + i, (b, c, m, &SINGLES[i % 3], &FIRST[(i / 3) % 3], v, r));
    });
}

/// One choice of every setting.
type Chosen<'a> = (&'a Choice<f32>, &'a Choice<usize>, &'a Choice<i32>, &'a Choice<bool>, &'a Choice<bool>, &'a Choice<Option<u32>>, &'a Choice<Option<u64>>);

fn one_setting(run: &'static Run, dir: &Path, data: &Data, i: usize, (b, c, m, s, f, v, r): Chosen) {
    let want = Want { base: b.1, cutoff: c.1, min_res: m.1, singles: s.1, first: f.1, verbosity: v.1, seed: r.1 };
    let lines: Vec<String> = [("scale_base", b.0), ("leaf_cutoff", c.0), ("min_res_index", m.0), ("use_singletons", s.0), ("partition_type", f.0), ("verbosity", v.0), ("rng_seed", r.0)]
        .iter()
        .filter(|l| l.1 != "")
        .map(|l| format!("{}: {}", l.0, l.1))
        .collect();
    run.case(
        || format!("settings {:?}", lines),
        || {
            let mut lines = lines.clone();
            lines.push("data_path: points.dat".into());
            lines.push("data_dim: 2".into());
            if i % 2 == 1 {
                lines.reverse();
            }
            let file = dir.join(format!("{}.yml", i));
            std::fs::write(&file, format!("---\n{}\n", lines.join("\n"))).unwrap();
            let cloud = data.cloud();
            let t = inline(|| CoverTreeBuilder::from_yaml(&file).build(cloud)).map_err(|e| e.to_string())?;
            same_settings(t.reader().parameters(), &want)?;
            let got = snap(&t.reader())?;
            let p = Params { base: want.base, cutoff: want.cutoff, min_res: want.min_res, singles: want.singles, first: want.first, seed: want.seed.unwrap_or(0) };
            let dist = |a: usize, b: usize| data.dist(a, b);
            let mut steps = check_settings(&got, &p, &dist)?;
            steps += check_geometry(&got, &p, &dist)?;
            if want.seed.is_some() {
                let direct = snap(&build(&data, &p)?.reader())?;
                if direct != got {
                    return Err("the tree differs from the one built with the same settings given directly".into());
                }
            }
            // and through the function that loads the data as well
            if i % 7 == 0 {
                let t = inline(|| cover_tree_from_yaml(&file)).map_err(|e| e.to_string())?;
                same_settings(t.reader().parameters(), &want)?;
                let s = snap(&t.reader())?;
                steps += check_settings(&s, &p, &dist)?;
                if want.seed.is_some() && s != got {
                    return Err("loading data and settings from one file gives another tree".into());
                }
            }
            let _ = std::fs::remove_file(&file);
            Ok(Seen { hash: got.hash(), transitions: steps })
        },
    );
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Labels {
    Csv(usize, &'static str),
    Gz(usize, &'static str),
    OneHot(usize, &'static str),
    Binary,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Beside,
    Absolute,
    Sub,
    Up,
}

fn label_of(i: usize, l: Labels) -> Option<i64> {
    match l {
        // no such column
        Labels::Csv(c, _) | Labels::Gz(c, _) if c == 4 => None,
        // every fifth point is unlabelled
        Labels::Csv(..) | Labels::Gz(..) => {
            if i % 5 == 4 {
                None
            } else {
                // some of them large
                Some((i * 7 % 11) as i64 + [0i64, 1 << 31, 1 << 40][i % 3])
            }
        }
        Labels::OneHot(d, _) => {
            if i % 5 == 4 {
                None
            } else {
                Some((i % d) as i64)
            }
        }
        Labels::Binary => Some((i % 3 == 1) as i64),
    }
}

fn write_labels(dir: &Path, part: &str, range: std::ops::Range<usize>, l: Labels) {
    match l {
        Labels::Csv(col, _) | Labels::Gz(col, _) => {
            let wide = if col > 4 { col + 2 } else { 4 };
            let mut text = (0..wide).map(|c| format!("c{}", c)).collect::<Vec<_>>().join(",") + "\n";
            for i in range {
                // the other columns are anything a csv file may hold
                let other = |c: usize| match (i + c) % 4 {
                    0 => (100 + c).to_string(),
                    1 => format!("\"a, {}\"", i),
                    2 => String::new(),
                    _ => format!("\"two\nlines {}\"", c),
                };
                let row: Vec<String> = (0..wide).map(|c| if c == col { label_of(i, l).unwrap_or(-1).to_string() } else { other(c) }).collect();
                text += &(row.join(",") + if i % 2 == 0 { "\n" } else { "\r\n" });
            }
            let gz = matches!(l, Labels::Gz(..));
            write_csv(&dir.join(format!("labels_{}.{}", part, if gz { "csv.gz" } else { "csv" })), &text, gz);
        }
        Labels::OneHot(d, _) => {
            let v: Vec<f32> = range.flat_map(|i| (0..d).map(move |c| if label_of(i, l) == Some(c as i64) { 1.0 } else { 0.0 })).collect();
            dat(&dir.join(format!("labels_{}.dat", part)), &v);
        }
        Labels::Binary => {
            let v: Vec<f32> = range.map(|i| label_of(i, l).unwrap() as f32).collect();
            dat(&dir.join(format!("labels_{}.dat", part)), &v);
        }
    }
}

fn same_points<D: PointCloud<Point = [f32]>>(c: &D, want: &Data) -> Result<u64, String> {
    if c.len() != want.n() || c.dim() != want.dim {
        return Err(format!("{} points of dimension {}, expected {} of dimension {}", c.len(), c.dim(), want.n(), want.dim));
    }
    for i in 0..want.n() {
        let p = c.point(i).map_err(|e| e.to_string())?;
        if p.dense() != want.pts[i] {
            return Err(format!("point {} is {:?}, expected {:?}", i, p.dense(), want.pts[i]));
        }
    }
    Ok(want.n() as u64)
}

fn files(run: &'static Run) {
    let kinds: Vec<Option<Labels>> = vec![
        None,
        Some(Labels::Csv(0, "labels_index")),
        Some(Labels::Csv(2, "labels_index")),
        Some(Labels::Csv(3, "label_csv_index")),
        Some(Labels::Csv(4, "labels_index")),
        Some(Labels::Csv(40, "labels_index")),
        Some(Labels::Gz(1, "labels_index")),
        Some(Labels::Gz(2, "label_csv_index")),
        Some(Labels::OneHot(3, "labels_dim")),
        Some(Labels::OneHot(2, "label_dim")),
        Some(Labels::OneHot(300, "labels_dim")),
        Some(Labels::Binary),
    ];
    let splits: Vec<Vec<usize>> = {
        let mut v = vec![];
        let most = if run.thorough { 4 } else { 3 };
        for n in 1..=most {
            for t in crate::data::tuples(&[0, 1, 2], n) {
                v.push(t.iter().map(|k| [1usize, 2, 5][*k]).collect());
            }
        }
        // enough files for names of different length, and enough points to matter
        v.push(vec![1; 12]);
        v.push(vec![1; 130]);
        v.push(vec![97]);
        v.push(vec![130, 3]);
        v
    };
    let places = [Where::Beside, Where::Absolute, Where::Sub, Where::Up];
    let dims = [1usize, 2, 3, 7];
    let n = kinds.len() * splits.len() * places.len() * dims.len();
    run.bound(format!("data files: {} splits into up to 130 files x dimensions {:?} x {:?} x labels {:?}, count given, left out and wrong", splits.len(), dims, places, kinds));
    run.par(n, |i| {
        let mut k = i;
        let mut pick = |len: usize| {
            let r = k % len;
            k /= len;
            r
        };
        let (dim, place, kind, split) = (dims[pick(dims.len())], places[pick(4)], kinds[pick(kinds.len())], splits[pick(splits.len())].clone());
        run.case(
            || format!("files of {:?} points, dimension {}, {:?}, labels {:?}", split, dim, place, kind),
            || {
                let top = fresh_dir("files");
                let r = one_set(&top, &split, dim, place, kind);
                let _ = std::fs::remove_dir_all(&top);
                r
            },
        );
    });
}

fn one_set(top: &Path, split: &[usize], dim: usize, place: Where, kind: Option<Labels>) -> Result<Seen, String> {
    let (conf_dir, data_dir, prefix) = match place {
        Where::Beside => (top.to_path_buf(), top.to_path_buf(), String::new()),
        Where::Absolute => (top.join("conf"), top.join("data"), format!("{}/", top.join("data").display())),
        Where::Sub => (top.to_path_buf(), top.join("data"), "data/".into()),
        Where::Up => (top.join("conf"), top.join("data"), "../data/".into()),
    };
    std::fs::create_dir_all(&conf_dir).unwrap();
    std::fs::create_dir_all(&data_dir).unwrap();
    // something that must not be picked up
    dat(&data_dir.join("other.dat"), &vec![9.0; dim]);
    std::fs::write(data_dir.join("points_000.txt"), "no data").unwrap();
    let total: usize = split.iter().sum();
    let want = Data { dim, pts: (0..total).map(|i| (0..dim).map(|c| ((i * 13 + c * 5) % 64) as f32 * 0.25 + i as f32).collect()).collect() };
    let mut at = 0;
    for (j, m) in split.iter().enumerate() {
        let part = format!("{:03}", j);
        dat(&data_dir.join(format!("points_{}.dat", part)), &want.pts[at..at + m].concat());
        if let Some(l) = kind {
            write_labels(&data_dir, &part, at..at + m, l);
        }
        at += m;
    }
    let one = split.len() == 1;
    let mut conf = format!("---\nverbosity: 0\nrng_seed: 7\nleaf_cutoff: 2\ndata_path: {}points_{}.dat\ndata_dim: {}\n", prefix, if one { "000" } else { "*" }, dim);
    if let Some(l) = kind {
        let (ext, key) = match l {
            Labels::Csv(c, key) => ("csv", format!("{}: {}", key, c)),
            Labels::Gz(c, key) => ("csv.gz", format!("{}: {}", key, c)),
            Labels::OneHot(d, key) => ("dat", format!("{}: {}", key, d)),
            Labels::Binary => ("dat", "labels_dim: 1".into()),
        };
        conf += &format!("labels_path: {}labels_{}.{}\n{}\n", prefix, if one { "000" } else { "*" }, ext, key);
    }
    let file = conf_dir.join("conf.yml");
    let p = Params { base: 2.0, cutoff: 2, min_res: -10, singles: true, first: false, seed: 7 };
    let direct = snap(&build(&want, &p)?.reader())?;
    let mut steps = 0;
    for count in [Some(total), None].iter() {
        let mut conf = format!("{}{}", conf, count.map(|c| format!("count: {}\n", c)).unwrap_or_default());
        if count.is_none() {
            // a setting for the other kind of label file is of no concern
            match kind {
                Some(Labels::Csv(..)) | Some(Labels::Gz(..)) => conf += "labels_dim: 3\n",
                Some(_) => conf += "labels_index: 1\n",
                None => {}
            }
        }
        std::fs::write(&file, &conf).unwrap();
        steps += same_points(&ram_from_yaml::<_, L2>(&file).map_err(|e| e.to_string())?, &want)?;
        if !one && kind.is_none() {
            // patterns do not tell upper from lower case
            std::fs::write(&file, &conf.replace("points_*.dat", "Points_*.DAT")).unwrap();
            steps += same_points(&ram_from_yaml::<_, L2>(&file).map_err(|e| format!("other case: {}", e))?, &want)?;
            std::fs::write(&file, &conf).unwrap();
        }
        let t = inline(|| cover_tree_from_yaml(&file)).map_err(|e| e.to_string())?;
        steps += same_points(&**t.reader().point_cloud(), &want)?;
        if snap(&t.reader())? != direct {
            return Err("the tree of the files differs from the tree of their points".into());
        }
        if let Some(l) = kind {
            let check = |got: PointCloudResultOf, i: usize| -> Result<(), String> {
                if got != label_of(i, l) {
                    return Err(format!("label of point {} is {:?}, expected {:?}", i, got, label_of(i, l)));
                }
                Ok(())
            };
            let set = labels_from_yaml(&file).map_err(|e| e.to_string())?;
            if set.len() != total {
                return Err(format!("{} labels for {} points", set.len(), total));
            }
            let cloud = labeled_ram_from_yaml::<_, L2>(&file).map_err(|e| e.to_string())?;
            steps += same_points(&cloud, &want)?;
            let t = inline(|| cover_tree_from_labeled_yaml(&file)).map_err(|e| e.to_string())?;
            let reader = t.reader();
            let tc = Arc::clone(reader.point_cloud());
            steps += same_points(&*tc, &want)?;
            if snap(&reader)? != direct {
                return Err("the labelled tree of the files differs from the tree of their points".into());
            }
            for i in 0..total {
                check(set.label(i).map_err(|e| e.to_string())?.map(|x| *x as i64), i)?;
                check(cloud.label(i).map_err(|e| e.to_string())?.map(|x| *x as i64), i)?;
                check(tc.label(i).map_err(|e| e.to_string())?.map(|x| *x as i64), i)?;
            }
            let d = match l {
                Labels::OneHot(d, _) => d,
                Labels::Binary => 1,
                _ => 0,
            };
            if d > 0 {
                let c = vec_labeled_ram_from_yaml::<_, L2>(&file).map_err(|e| e.to_string())?;
                steps += same_points(&c, &want)?;
                for i in 0..total {
                    let got = c.label(i).map_err(|e| e.to_string())?.map(|x| x.to_vec());
                    let e: Vec<f32> = match l {
                        Labels::Binary => vec![label_of(i, l).unwrap() as f32],
                        _ => (0..d).map(|c| if label_of(i, l) == Some(c as i64) { 1.0 } else { 0.0 }).collect(),
                    };
                    if got != Some(e.clone()) {
                        return Err(format!("vector label of point {} is {:?}, expected {:?}", i, got, e));
                    }
                }
            }
        }
    }
    // a count that is not the number of points is refused
    for wrong in [total + 1, total - 1].iter() {
        std::fs::write(&file, format!("{}count: {}\n", conf, wrong)).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inline(|| cover_tree_from_yaml(&file)).is_ok()));
        crate::run::last_panic();
        if let Ok(true) = r {
            return Err(format!("a tree of {} points although the file says {}", total, wrong));
        }
    }
    Ok(Seen { hash: h(&(total, dim, direct.hash())), transitions: steps })
}

type PointCloudResultOf = Option<i64>;

/// A configuration file named without any directory.
fn bare_name(run: &'static Run) {
    run.bound("a configuration file named relative to the working directory");
    run.case(
        || "configuration file in the working directory".into(),
        || {
            let d = fresh_dir("cwd");
            let old = std::env::current_dir().unwrap();
            dat(&d.join("p.dat"), &[0.0, 1.0, 2.0, 5.0]);
            std::fs::write(d.join("conf.yml"), "---\ndata_path: p.dat\ndata_dim: 2\nscale_base: 1.5\nverbosity: 0\n").unwrap();
            std::env::set_current_dir(&d).unwrap();
            let r = std::panic::catch_unwind(|| inline(|| cover_tree_from_yaml("conf.yml")).map_err(|e| e.to_string()));
            std::env::set_current_dir(&old).unwrap();
            let t = r.map_err(|_| format!("panicked: {}", crate::run::last_panic()))??;
            same_points(&**t.reader().point_cloud(), &Data { dim: 2, pts: vec![vec![0.0, 1.0], vec![2.0, 5.0]] })?;
            if t.reader().parameters().scale_base != 1.5 {
                return Err(format!("scale base {}", t.reader().parameters().scale_base));
            }
            Ok(Seen { hash: 1, transitions: 1 })
        },
    );
}

pub fn c20(run: &'static Run) {
    run.assume("a setting written with a type other than the documented one (text for a number, a seed of 2^63 or more) is outside the property");
    settings(run);
    files(run);
    bare_name(run);
}
