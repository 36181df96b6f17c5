//! C10 and C11: tree files.
use crate::faulty::Faulty;
use crate::fsfault::{self, Fault};
use crate::run::{h, Run, Seen};
use crate::trees::*;
use goko::utils::{load_tree, save_tree};
use goko::*;
use pointcloud::*;
use protobuf::{Clear, Message};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// Everything a user can ask a tree.
fn answers<D: PointCloud>(r: &CoverTreeReader<D>, idx: &[usize], ask: &dyn Fn(&CoverTreeReader<D>) -> String) -> Result<(Snap, String), String> {
    let s = snap(r)?;
    let p = r.parameters();
    let mut a = format!(
        "{:?} {} {} {:?} {} {} {:?} {}",
        p.scale_base, p.leaf_cutoff, p.min_res_index, p.partition_type, p.use_singletons, r.node_count(), r.scale_range(), r.len()
    );
    for i in idx.iter().chain(&[usize::MAX]) {
        a += &format!(" {:?}", r.known_path(*i));
    }
    a += &ask(r);
    Ok((s, a))
}

fn ask_dense<D: PointCloud<Point = [f32]>>(pts: &[Vec<f32>]) -> impl Fn(&CoverTreeReader<D>) -> String + '_ {
    move |r| {
        let mut a = String::new();
        for (i, q) in pts.iter().enumerate().take(12) {
            let q: Vec<f32> = q.iter().map(|x| x + (i % 3) as f32 * 0.25).collect();
            for k in [1usize, 3].iter() {
                a += &format!(" {:?} {:?}", r.knn(&&q[..], *k), r.routing_knn(&&q[..], *k));
            }
            a += &format!(" {:?}", r.path(&&q[..]));
        }
        a
    }
}

fn round_trip<D: PointCloud>(
    make: &dyn Fn() -> Result<CoverTreeWriter<D>, String>,
    cloud: Arc<D>,
    idx: &[usize],
    ask: &dyn Fn(&CoverTreeReader<D>) -> String,
) -> Result<Seen, String> {
    let t = make()?;
    let (s, a) = answers(&t.reader(), idx, ask)?;
    // the content of a tree file up to the order of its unordered parts
    let parse = |f: &Path| -> Result<String, String> {
        let b = std::fs::read(f).map_err(|e| e.to_string())?;
        let mut c = t.save();
        c.clear();
        c.merge_from_bytes(&b).map_err(|e| format!("{:?}", e))?;
        let mut layers = c.take_layers().into_vec();
        for l in layers.iter_mut() {
            let mut n = l.take_nodes().into_vec();
            n.sort_by_key(|n| (n.get_scale_index(), n.get_center_index()));
            l.set_nodes(n.into());
        }
        let mut names: Vec<(String, u64)> = c.take_name_map().into_iter().collect();
        names.sort();
        Ok(format!("{:?} {:?} {:?}", c, layers, names))
    };
    let f = tmp("a.tree");
    let g = tmp("b.tree");
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&g);
    let fail = |e| format!("{:?}", e);
    save_tree(&f, &t).map_err(fail)?;
    let t2 = load_tree(&f, Arc::clone(&cloud)).map_err(fail)?;
    let (s2, a2) = answers(&t2.reader(), idx, ask)?;
    if s != s2 {
        return Err(format!("loaded tree differs: {:?} instead of {:?}", s2, s));
    }
    if a != a2 {
        return Err(format!("loaded tree answers {} instead of {}", a2, a));
    }
    save_tree(&g, &t2).map_err(fail)?;
    if parse(&f)? != parse(&g)? {
        return Err("saving the loaded tree gives another file".into());
    }
    // over an existing file, shorter or longer, and again over itself
    let len = std::fs::metadata(&g).map_err(|e| e.to_string())?.len() as usize;
    for old in [0usize, 1, len.saturating_sub(1), len, len + 1, 4 * len + 777].iter() {
        std::fs::write(&g, vec![0xffu8; *old]).unwrap();
        save_tree(&g, &t2).map_err(|e| format!("saving over an existing file of {} bytes: {:?}", old, e))?;
        if parse(&g).map_err(|e| format!("saved over {} bytes: {}", old, e))? != parse(&f)? {
            return Err(format!("saving over an existing file of {} bytes gives another tree", old));
        }
    }
    let t3 = load_tree(&g, cloud).map_err(fail)?;
    if answers(&t3.reader(), idx, ask)? != (s.clone(), a) {
        return Err("third generation differs".into());
    }
    Ok(Seen { hash: s.hash(), transitions: s.nodes.len() as u64 })
}

pub fn c10(run: &'static Run) {
    let mut sp = vec![];
    let mut add = |n: &str, ds: Vec<Data>, ps: Vec<Params>| {
        run.bound(format!("{}: {} data sets x {} settings", n, ds.len(), ps.len()));
        for d in ds.iter() {
            for p in ps.iter() {
                sp.push((d.clone(), *p));
            }
        }
    };
    let ps = params_grid(&[2.0, 1.3], &[0, 1, 3], &[-10, 0, 2], &[0]);
    add("1-d sequences of 1", sequences(&[0.0, 8.0], 1), ps.clone());
    add("1-d sequences of 3", sequences(&[0.0, 1.0, 3.5, 8.0], 3), params_grid(&[2.0], &[0, 1], &[-4, 1], &[0]));
    let st: Vec<Data> = structured().into_iter().filter(|x| x.1.n() < if run.thorough { 1000 } else { 100 }).map(|x| x.1).collect();
    add("large sets", structured().into_iter().filter(|x| x.1.n() >= 100).map(|x| x.1).collect(), params_grid(&[2.0], &[2], &[-2], &[0]));
    add("structured sets", st, if run.thorough { ps } else { params_grid(&[2.0, 1.3], &[0, 3], &[-6, 1], &[0]) });
    if run.thorough {
        add("1-d sequences of 4", sequences(&[0.0, 1.0, 3.5, 8.0], 4), params_grid(&[2.0, 3.0], &[0, 1], &[-4, 1], &[0, 1]));
    }
    add("4300 pairs of points on a line", vec![pairs8600()], pairs8600_params().into_iter().filter(|p| p.singles != p.first).collect());
    add("70001 points on a line", vec![line70001()], line70001_params());
    add("160 points, over a hundred levels", vec![deep160()], params_grid(&[1.1], &[0], &[-120], &[0]));
    let shape = [0.0f32, 1.0, 2.0, 3.5, 8.0, 8.5, 8.5, -5.0, -5.25, 17.0, 100.0, 101.0];
    let far: Vec<Data> = [50, -50].iter().map(|e| Data::d1(&shape.iter().map(|x| x * 2.0f32.powi(*e)).collect::<Vec<_>>())).collect();
    add("shapes scaled by 2^50, 2^-50, hundreds of scales", far, params_grid(&[1.1], &[0, 1], &[-700], &[0]));
    let odd_cutoffs = params_grid(&[1.7], &[1 << 20, 4294967296 + 5], &[i16::MIN as i32, -100, 40], &[0]);
    sp.extend(odd_cutoffs.iter().flat_map(|p| vec![(Data::d1(&[0.0, 1.0, 8.0]), *p), (Data::d1(&[1.0, 1.0]), *p)]));
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| format!("{:?} {:?}", d.pts, p), || {
            let c = d.cloud();
            round_trip(&|| build(d, p), Arc::clone(&c), &(0..d.n()).collect::<Vec<_>>(), &ask_dense(&d.pts))
        });
    });
    // clouds with other indexes, including ones beyond 32 bits
    let idxs: Vec<Vec<usize>> = vec![vec![7, 3, 11], vec![100, 0, 50], vec![1 << 33, 5, (1 << 40) + 1]];
    let ds = sequences(&[0.0, 1.0, 8.0], 3);
    run.bound(format!("{} re-indexed clouds", idxs.len() * ds.len()));
    run.par(ds.len() * idxs.len(), |k| {
        let (d, idx) = (&ds[k / idxs.len()], &idxs[k % idxs.len()]);
        for p in params_grid(&[2.0], &[0, 2], &[-4, 1], &[0]) {
            run.case(|| format!("indexes {:?} {:?} {:?}", idx, d.pts, p), || {
                let c = Arc::new(Faulty::new(d, idx.clone()));
                round_trip(&|| build_on(Arc::clone(&c), &p).map_err(|e| format!("{:?}", e)), Arc::clone(&c), idx, &ask_dense(&d.pts))
            });
        }
    });
    // a sequence of saves of different trees to one path: only the last one counts
    let trees: Vec<(Data, Params)> = [1usize, 3, 12, 27]
        .iter()
        .map(|n| (Data::d1(&(0..*n).map(|i| ((i * 5) % 29) as f32).collect::<Vec<_>>()), params_grid(&[2.0], &[*n % 3], &[-2], &[0])[n % 4]))
        .collect();
    run.bound("every sequence of 3 saves out of 4 trees to one path, loaded after each");
    run.par(64, |k| {
        run.case(|| format!("history {}", k), || {
            let f = tmp("hist.tree");
            let _ = std::fs::remove_file(&f);
            let mut acc = 0;
            for i in [k % 4, k / 4 % 4, k / 16].iter() {
                let (d, p) = &trees[*i];
                let t = build(d, p)?;
                let ask = ask_dense(&d.pts);
                let idx: Vec<usize> = (0..d.n()).collect();
                let want = answers(&t.reader(), &idx, &ask)?;
                save_tree(&f, &t).map_err(|e| format!("{:?}", e))?;
                let t2 = load_tree(&f, d.cloud()).map_err(|e| format!("{:?}", e))?;
                if answers(&t2.reader(), &idx, &ask)? != want {
                    return Err(format!("after saving tree {} another one is loaded", i));
                }
                acc ^= h(&want.1);
            }
            Ok(Seen { hash: acc, transitions: 3 })
        });
    });
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Copy, Debug, PartialEq)]
enum Now {
    Old,
    New,
    Nothing,
}

struct World {
    cloud: Arc<Cloud>,
    idx: Vec<usize>,
    pts: Vec<Vec<f32>>,
    old: Option<CoverTreeWriter<Cloud>>,
    new: CoverTreeWriter<Cloud>,
    old_is: Option<(Snap, String)>,
    new_is: (Snap, String),
    file: PathBuf,
}

impl World {
    /// Two different trees over one point cloud.
    fn new(n: usize, with_old: bool, swap: bool) -> Result<World, String> {
        let d = Data::d1(&(0..n).map(|i| if n < 100 { ((i * 5) % 13) as f32 } else { ((i * 5) % 997) as f32 }).collect::<Vec<_>>());
        let a = Params { base: 2.0, cutoff: 1, min_res: -1, singles: true, first: false, seed: 3 };
        let b = Params { base: 3.0, cutoff: 0, min_res: 0, singles: false, first: true, seed: 5 };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        let idx: Vec<usize> = (0..n).collect();
        let ask = ask_dense(&d.pts);
        let old = if with_old { Some(build(&d, &a)?) } else { None };
        let new = build(&d, &b)?;
        let old_is = match &old {
            Some(t) => Some(answers(&t.reader(), &idx, &ask)?),
            None => None,
        };
        let new_is = answers(&new.reader(), &idx, &ask)?;
        let dir = tmp("c11");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        drop(ask);
        Ok(World { cloud: d.cloud(), idx, pts: d.pts.clone(), old, new, old_is, new_is, file: dir.join("x.tree") })
    }
    fn reset(&self) -> Result<(), String> {
        let dir = self.file.parent().unwrap();
        for e in std::fs::read_dir(dir).unwrap() {
            let _ = std::fs::remove_file(e.unwrap().path());
        }
        if let Some(t) = &self.old {
            save_tree(&self.file, t).map_err(|e| format!("{:?}", e))?;
        }
        Ok(())
    }
    fn state(&self) -> Result<Now, String> {
        match load_tree(&self.file, Arc::clone(&self.cloud)) {
            Err(_) => Ok(Now::Nothing),
            Ok(t) => {
                let a = answers(&t.reader(), &self.idx, &ask_dense(&self.pts))?;
                if a == self.new_is {
                    Ok(Now::New)
                } else if Some(&a) == self.old_is.as_ref() {
                    Ok(Now::Old)
                } else {
                    Err("the path now holds a tree that was never saved".into())
                }
            }
        }
    }
    /// After an attempt that ended with `ok` (None: the process died), the path must hold a legal tree.
    fn judge(&self, what: &str, ok: Option<bool>) -> Result<Now, String> {
        let s = self.state().map_err(|e| format!("{}: {}", what, e))?;
        if ok == Some(true) && s != Now::New {
            return Err(format!("{}: saving reports success but the path holds {:?}", what, s));
        }
        if self.old.is_some() && s == Now::Nothing {
            return Err(format!("{}: the tree saved before is gone", what));
        }
        Ok(s)
    }
    fn save(&self, at: usize, f: Option<Fault>) -> (bool, Vec<fsfault::Call>, bool) {
        let (r, calls, fired) = fsfault::with(at, f, 0, || save_tree(&self.file, &self.new));
        (r.is_ok(), calls, fired)
    }
}

pub fn c11(run: &'static Run) {
    let sizes: Vec<usize> = if run.thorough { vec![1, 2, 5, 12, 40, 900] } else { vec![1, 2, 5, 12, 900] };
    let errs = [libc::EIO, libc::ENOSPC];
    run.bound(format!("trees of {:?} points, with and without a tree saved before; a fault at every file-system call of the save: failing (EIO, ENOSPC), failing after every byte count, process death before and after every call and after every byte count, power failure after every call with nothing or half of the unsynced data kept; then a second save, of the same and of the other tree; and every pair of deaths (the largest tree: the first, middle and last byte counts of every call, no pairs)", sizes));
    let jobs: Vec<(usize, bool, bool)> = sizes.iter().flat_map(|n| vec![(*n, false, false), (*n, true, false), (*n, true, true)]).filter(|(n, _, swap)| !swap || run.deep || [5, 900].contains(n)).collect();
    run.par(jobs.len(), |k| {
        let (n, with_old, swap) = jobs[k];
        let w = match World::new(n, with_old, swap) {
            Ok(w) => w,
            Err(e) => return run.violate("setup", &e),
        };
        let calls = match w.reset() {
            Ok(()) => w.save(usize::MAX, None).1,
            Err(e) => return run.violate("setup", &e),
        };
        run.extra(&format!("calls of a save, {} points, {}", n, if with_old { "over an old tree" } else { "no file before" }), format!("{:?}", calls));
        let mut faults: Vec<(usize, Fault)> = vec![];
        for (i, c) in calls.iter().enumerate() {
            for e in errs.iter() {
                faults.push((i, Fault::Fail(*e)));
            }
            faults.push((i, Fault::Crash(0)));
            faults.push((i, Fault::CrashAfter));
            faults.push((i, Fault::PowerAfter(0)));
            faults.push((i, Fault::PowerAfter(1)));
            if c.kind == "write" {
                for b in (1..c.len).filter(|b| c.len < 3000 || [1, c.len / 2, c.len - 1].contains(b)) {
                    faults.push((i, Fault::Crash(b)));
                    faults.push((i, Fault::FailAfter(b, libc::ENOSPC)));
                    faults.push((i, Fault::Short(b)));
                }
                faults.push((i, Fault::FailAfter(0, libc::ENOSPC)));
                faults.push((i, Fault::Fail(libc::EINTR)));
            }
        }
        for (i, f) in faults.iter() {
            run.case(|| format!("{} points, {}, call {} {:?}", n, if swap { "old tree (swapped)" } else if with_old { "old tree" } else { "no old tree" }, i, f), || {
                let what = format!("{:?} at call {} ({})", f, i, calls[*i].kind);
                w.reset()?;
                let (ok, _, fired) = w.save(*i, Some(*f));
                if !fired {
                    return Err("HARNESS: the fault was not reached".into());
                }
                let died = matches!(f, Fault::Crash(_) | Fault::CrashAfter | Fault::PowerAfter(_));
                let harmless = matches!(f, Fault::Short(_) | Fault::Fail(libc::EINTR));
                let s = w.judge(&what, if died { None } else { Some(ok) })?;
                if harmless && !ok {
                    return Err(format!("{}: a short write is not a failure, but saving failed", what));
                }
                // the next save works whatever was left behind, longer or shorter
                if let (Some(t), true) = (&w.old, died) {
                    if save_tree(&w.file, t).is_err() || w.state()? != Now::Old {
                        return Err(format!("{}: the next save of another tree does not work", what));
                    }
                    w.reset()?;
                    w.save(*i, Some(*f));
                }
                let (ok, _, _) = w.save(usize::MAX, None);
                if !ok || w.state()? != Now::New {
                    return Err(format!("{}: the next save does not work", what));
                }
                Ok(Seen { hash: h(&(format!("{:?} {:?} {}", f, s, calls[*i].kind), ok)), transitions: 2 })
            });
        }
        // two deaths in a row
        let points: Vec<(usize, Fault)> = faults.iter().filter(|(i, f)| match f {
            Fault::Crash(b) => *b == 0 || *b == calls[*i].len / 2,
            Fault::CrashAfter | Fault::PowerAfter(0) => true,
            _ => false,
        }).copied().collect();
        for (i, f) in points.iter().filter(|_| n < 100) {
            for (j, g) in points.iter() {
                run.case(|| format!("{} points, {} {}, call {} {:?} then call {} {:?}", n, with_old, swap, i, f, j, g), || {
                    w.reset()?;
                    w.save(*i, Some(*f));
                    let first = w.judge("first death", None)?;
                    w.save(*j, Some(*g));
                    let s = w.judge("second death", None)?;
                    if first == Now::New && s != Now::New {
                        return Err(format!("the new tree was there after the first death and is gone after the second: {:?}", s));
                    }
                    Ok(Seen { hash: h(&format!("{:?} {:?} {:?}", first, s, g)), transitions: 2 })
                });
            }
        }
    });
    // reading: short reads change nothing, failing reads are errors, truncated or foreign files are errors
    run.bound("every truncation of a tree file; every byte damaged in 4 ways; foreign files; every failing read; reads of 1, 2, 3, 7 bytes at a time");
    run.par(sizes.len(), |k| {
        let n = sizes[k];
        let w = match World::new(n, false, false) {
            Ok(w) => w,
            Err(e) => return run.violate("setup", &e),
        };
        let (ok, _, _) = w.save(usize::MAX, None);
        if !ok {
            return run.violate("setup", "save failed");
        }
        let bytes = std::fs::read(&w.file).unwrap();
        for lim in [1usize, 2, 3, 7, 4096].iter() {
            run.case(|| format!("{} points, reads of {}", n, lim), || {
                let (r, _, _) = fsfault::with(usize::MAX, None, *lim, || load_tree(&w.file, Arc::clone(&w.cloud)));
                let t = r.map_err(|e| format!("{:?}", e))?;
                if answers(&t.reader(), &w.idx, &ask_dense(&w.pts))? != w.new_is {
                    return Err("another tree".into());
                }
                Ok(Seen { hash: h(lim), transitions: 1 })
            });
        }
        let (_, calls, _) = fsfault::with(usize::MAX, None, 16, || load_tree(&w.file, Arc::clone(&w.cloud)));
        for i in 0..calls.len() {
            run.case(|| format!("{} points, read call {} fails", n, i), || {
                let (r, _, fired) = fsfault::with(i, Some(Fault::Fail(libc::EIO)), 16, || load_tree(&w.file, Arc::clone(&w.cloud)));
                if fired && r.is_ok() {
                    return Err(format!("{} failed but loading reports success", calls[i].kind));
                }
                Ok(Seen { hash: h(&("read", i)), transitions: 1 })
            });
        }
        let g = w.file.with_extension("cut");
        for len in (0..bytes.len()).filter(|l| n < 100 || *l < 200 || *l + 200 > bytes.len() || l % 97 == 0 || l % 4096 < 2) {
            run.case(|| format!("{} points, file cut to {} of {} bytes", n, len, bytes.len()), || {
                std::fs::write(&g, &bytes[..len]).unwrap();
                let ok = match load_tree(&g, Arc::clone(&w.cloud)) {
                    Err(_) => false,
                    Ok(t) => {
                        // nothing of the tree itself is at the end of the file, so this may be a complete tree
                        if answers(&t.reader(), &w.idx, &ask_dense(&w.pts))? != w.new_is {
                            return Err("loading a truncated file gives another tree".into());
                        }
                        true
                    }
                };
                Ok(Seen { hash: h(&("cut", ok)), transitions: 1 })
            });
        }
        for i in (0..bytes.len()).filter(|i| n < 100 || i % 997 == 0) {
            for x in [0x01u8, 0x80, 0xff, 0x07].iter() {
                run.case(|| format!("{} points, byte {} of {} damaged by {:x}", n, i, bytes.len(), x), || {
                    let mut b = bytes.clone();
                    b[i] ^= *x;
                    std::fs::write(&g, &b).unwrap();
                    // must come back; what it says about damage it cannot see is not specified
                    let ok = load_tree(&g, Arc::clone(&w.cloud)).is_ok();
                    Ok(Seen { hash: h(&("damage", ok)), transitions: 1 })
                });
            }
        }
        for (name, content) in [("empty", vec![]), ("zeros", vec![0u8; 64]), ("text", b"not a tree\n".to_vec()), ("ones", vec![0xff; 200]), ("length", vec![0x5a, 0xff, 0xff, 0xff, 0xff, 0x07])].iter() {
            run.case(|| format!("{} points, foreign file: {}", n, name), || {
                std::fs::write(&g, content).unwrap();
                if load_tree(&g, Arc::clone(&w.cloud)).is_ok() {
                    return Err("a file that is no tree was loaded".into());
                }
                Ok(Seen { hash: h(name), transitions: 1 })
            });
        }
        run.case(|| format!("{} points, missing file", n), || {
            let dir = w.file.parent().unwrap();
            for p in [dir.join("nothing.tree"), dir.join("no/such/dir.tree"), dir.to_path_buf()].iter() {
                if load_tree(p, Arc::clone(&w.cloud)).is_ok() {
                    return Err(format!("loaded {:?}", p));
                }
                if !p.ends_with("nothing.tree") && save_tree(p, &w.new).is_ok() {
                    return Err(format!("saved to {:?}", p));
                }
            }
            Ok(Seen { hash: h("missing"), transitions: 5 })
        });
    });
    run.assume("a process death leaves on disk exactly what the calls before it wrote; a power failure may besides lose what was appended to a file since it was last synced, but not a rename, a creation or a truncation before it");
}
