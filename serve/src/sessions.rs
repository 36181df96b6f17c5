//! C21: every history of requests gives the library's answers.
use crate::run::{h, Run, Seen};
use crate::server::*;
use goko::plugins::discrete::tracker::BayesCategoricalTracker;
use goko::NodeAddress;
use serde_json::{json, Value};
use serve_goko::api::*;
use serve_goko::{GokoRequest, GokoResponse};
use std::collections::BTreeMap;

type Name = Option<String>;
type Tracker = BayesCategoricalTracker<Cloud>;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add(Name, usize),
    Point(Name, Vec<f32>),
    Path(Name, Vec<f32>),
    Stats(Name, usize),
    Knn(Vec<f32>, usize),
}

/// What the trackers of a server are meant to hold, made of the library's own trackers.
struct Model<'a> {
    lib: &'a Library,
    names: BTreeMap<Name, BTreeMap<usize, Tracker>>,
}

impl<'a> Model<'a> {
    fn new(lib: &'a Library) -> Model<'a> {
        let mut names = BTreeMap::new();
        names.insert(None, BTreeMap::new());
        Model { lib, names }
    }
    fn track(&mut self, n: &Name, p: Vec<(f32, NodeAddress)>) -> Value {
        match self.names.get_mut(n) {
            None => json!({ "Unknown": [n, null] }),
            Some(t) => {
                for x in t.values_mut() {
                    x.add_path(p.clone());
                }
                json!({"TrackPath": {"success": !t.is_empty()}})
            }
        }
    }
    fn run(&mut self, op: &Op) -> Value {
        match op {
            Op::Add(n, w) => {
                let t = self.names.entry(n.clone()).or_default();
                let fresh = !t.contains_key(w);
                if fresh {
                    t.insert(*w, self.lib.tracker(*w));
                }
                json!({"AddTracker": {"success": fresh}})
            }
            Op::Point(n, q) | Op::Path(n, q) => {
                let p = self.lib.reader.path(&&q[..]).unwrap();
                self.track(n, p)
            }
            Op::Stats(n, w) => match self.names.get(n) {
                None => json!({ "Unknown": [n, null] }),
                Some(t) => match t.get(w) {
                    None => json!({ "Unknown": [n, w] }),
                    Some(t) => stats(t),
                },
            },
            Op::Knn(q, k) => self.lib.knn(q, *k),
        }
    }
}


fn named(n: &Name, first: &str) -> String {
    match (n, first) {
        (None, "") => String::new(),
        (None, f) => format!("?{}", f),
        (Some(n), "") => format!("?tracker_name={}", n),
        (Some(n), f) => format!("?{}&tracker_name={}", f, n),
    }
}

fn http(op: &Op) -> hyper::Request<hyper::Body> {
    match op {
        Op::Add(n, w) => req("POST", &format!("/track/add{}", named(n, &format!("window_size={}", w))), None),
        Op::Point(n, q) => req("POST", &format!("/track/point{}", named(n, "")), Some(q)),
        Op::Stats(n, w) => req("GET", &format!("/track/stats{}", named(n, &format!("window_size={}", w))), None),
        Op::Knn(q, k) => req("GET", &format!("/knn?k={}", k), Some(q)),
        Op::Path(..) => unreachable!(),
    }
}

fn check_all(server: &mut Server, model: &mut Model, conn: usize, names: &[Name], windows: &[usize]) -> Result<u64, String> {
    let mut n = 0;
    for name in names {
        for w in windows {
            let op = Op::Stats(name.clone(), *w);
            let want = model.run(&op);
            let got = server.ask(conn, http(&op));
            expect(&got, &want).map_err(|e| format!("{:?} on connection {}: {}", op, conn, e))?;
            n += 1;
        }
    }
    Ok(n)
}

/// Outside the whole tree, so that its path is the root alone.
fn far() -> Vec<f32> {
    vec![1.0e4, -2.0e4]
}

fn some(s: &str) -> Name {
    Some(s.to_string())
}

fn history(ops: &[Op], mask: usize, conns: usize, names: &[Name], windows: &[usize]) -> Result<Seen, String> {
    let lib = Library::new(SMALL);
    let mut server = Server::new(SMALL, conns);
    let mut model = Model::new(&lib);
    let mut t = 0;
    let mut seen = vec![];
    for (i, op) in ops.iter().enumerate() {
        let conn = (mask >> i) & 1;
        let want = model.run(op);
        let got = server.ask(conn, http(op));
        expect(&got, &want).map_err(|e| format!("step {} ({:?}) on connection {}: {}", i, op, conn, e))?;
        t += 1 + check_all(&mut server, &mut model, (conn + 1) % conns, names, windows).map_err(|e| format!("after step {} ({:?}): {}", i, op, e))?;
        seen.push(want.to_string());
    }
    Ok(Seen { hash: h(&seen), transitions: t })
}

fn alphabet(windows: &[usize]) -> Vec<Op> {
    let names = [None, some("a"), some("b")];
    let pts = [vec![0.25, 1.75], point(SMALL, 3)];
    let mut v = vec![];
    for n in &names {
        for w in windows {
            v.push(Op::Add(n.clone(), *w));
        }
        for p in &pts {
            v.push(Op::Point(n.clone(), p.clone()));
        }
    }
    v.push(Op::Knn(vec![1.0, 2.0], 3));
    v
}

fn pick(mut i: usize, base: usize, depth: usize) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..depth {
        v.push(i % base);
        i /= base;
    }
    v
}

fn histories(run: &Run) {
    let names = [None, some("a"), some("b"), some("c")];
    let mut go = |windows: &[usize], depth: usize, masks: Vec<usize>| {
        let al = alphabet(windows);
        let n = al.len().pow(depth as u32);
        let mut ws = windows.to_vec();
        ws.push(5);
        run.bound(format!("all {} histories of {} requests (windows {:?}, three names, two points) x connection choices {:?}, all stats read after every step", n, depth, windows, masks));
        run.par(n * masks.len(), |i| {
            let mask = masks[i % masks.len()];
            let ops: Vec<Op> = pick(i / masks.len(), al.len(), depth).iter().map(|j| al[*j].clone()).collect();
            run.case(|| format!("history mask={} {:?}", mask, ops), || history(&ops, mask, 2, &names, &ws))
        });
    };
    go(&[1, 0], 2, (0..4).collect());
    go(&[1, 0], 3, (0..8).collect());
    if run.thorough {
        go(&[2, 0], 4, (0..16).collect());
    } else {
        go(&[2, 0], 4, vec![0b0101]);
    }
}

/// Longer stretches addressed to one tracker between requests to others.
fn long(run: &Run) {
    let depth = if run.thorough { 7 } else { 6 };
    let pts: Vec<Vec<f32>> = (0..2).map(|i| point(SMALL, i * 3)).collect();
    let al = vec![Op::Point(some("a"), pts[0].clone()), Op::Point(some("a"), pts[1].clone()), Op::Point(some("b"), far()), Op::Add(some("a"), 3), Op::Add(some("b"), 2)];
    let names = [None, some("a"), some("b")];
    let n = al.len().pow(depth as u32);
    run.bound(format!("all {} continuations of {} requests to two existing trackers with two windows, one of them also told of a point outside the tree", n, depth));
    run.par(n, |i| {
        let mut ops = vec![Op::Add(some("a"), 2), Op::Add(some("b"), 0)];
        ops.extend(pick(i, al.len(), depth).iter().map(|j| al[*j].clone()));
        run.case(|| format!("long {:?}", ops), || history(&ops, 0b10110101, 2, &names, &[0, 2, 3]))
    });
}

/// Long mixed sessions over many trackers and connections.
fn marathons(run: &Run) {
    let names: Vec<Name> = vec![None, some("a"), some("b"), some("ab"), some("B"), some("tracker_with_a_long_name_0123456789")];
    let windows = [0usize, 1, 3, 10, 25];
    let len = 150;
    run.bound(format!("24 sessions of {} requests over {} names, windows {:?} and five connections", len, names.len(), windows));
    run.par(24, |j| {
        run.case(
            || format!("marathon {}", j),
            || {
                let lib = Library::new(SMALL);
                let mut server = Server::new(SMALL, 5);
                let mut model = Model::new(&lib);
                let mut t = 0;
                let mut seen = vec![];
                for i in 0..len {
                    let name = names[(i * (j % 5 + 1) + i / 6) % names.len()].clone();
                    let p = if i % 7 == 4 { far() } else if i % 3 == 0 { vec![(i % 8) as f32 * 0.75, (j % 7) as f32] } else { point(SMALL, (i * 2 + j) % 9) };
                    let op = match (i + j) % 6 {
                        0 if i < 60 || i % 4 == 0 => Op::Add(name, windows[(i / 6 + j) % windows.len()]),
                        1 => Op::Knn(p, i % 12),
                        _ => Op::Point(name, p),
                    };
                    let conn = (i * 7 + j) % 5;
                    let want = model.run(&op);
                    let got = server.ask(conn, http(&op));
                    expect(&got, &want).map_err(|e| format!("step {} ({:?}) on connection {}: {}", i, op, conn, e))?;
                    t += 1;
                    if i % 10 == 9 {
                        t += check_all(&mut server, &mut model, (conn + i / 10) % 5, &names, &windows).map_err(|e| format!("after step {} ({:?}): {}", i, op, e))?;
                    }
                    seen.push(want.to_string());
                }
                Ok(Seen { hash: h(&seen), transitions: t })
            },
        )
    });
}

/// Far more names, windows, points and neighbours, and far longer names, than the small sessions have.
fn large(run: &Run) {
    let step = |s: &mut Server, m: &mut Model, conn: usize, op: &Op| -> Result<(), String> {
        let want = m.run(op);
        expect(&s.ask(conn, http(op)), &want).map_err(|e| format!("{:?}: {}", op, e).chars().take(2000).collect())
    };
    let counts: Vec<usize> = if run.thorough { vec![10, 70, 130, 300, 1100, 5000] } else { vec![10, 70, 130, 300, 1100] };
    let lengths = [2usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025, 2050, 4100, 8200];
    let windows = [0usize, 1, 127, 128, 255, 256, 257, 511, 999, 1000, 1001, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 53) + 1];
    let long: Vec<(usize, usize)> = if run.thorough { vec![(300, 1), (1500, 1), (3000, 2), (20_000, 2)] } else { vec![(300, 1), (1500, 1), (3000, 2)] };
    run.bound(format!("{:?} tracker names on one server, every one read back; pairs of names of {:?} characters that differ in the first, middle or last one; {} windows up to 2^53+1 on one tracker, all of them and every pair; {:?} points tracked (and connections) on one tracker with seven windows", counts, lengths, windows.len(), long));
    run.par(counts.len(), |j| {
        let n = counts[j];
        run.case(
            || format!("{} names", n),
            || {
                let lib = Library::new(SMALL);
                let mut s = Server::new(SMALL, 3);
                let mut m = Model::new(&lib);
                let name = |i: usize| some(&format!("n{}", i));
                for i in 0..n {
                    step(&mut s, &mut m, i % 3, &Op::Add(name(i), i % 4))?;
                    for p in 0..i % 3 {
                        step(&mut s, &mut m, (i + p) % 3, &Op::Point(name(i), point(SMALL, (i + p) % 9)))?;
                    }
                }
                for i in 0..n + 1 {
                    for w in 0..4 {
                        step(&mut s, &mut m, (i + w) % 3, &Op::Stats(name(i), w))?;
                    }
                }
                step(&mut s, &mut m, 0, &Op::Point(name(0), point(SMALL, 5)))?;
                step(&mut s, &mut m, 1, &Op::Stats(name(0), 0))?;
                step(&mut s, &mut m, 2, &Op::Add(name(n), 0))?;
                step(&mut s, &mut m, 1, &Op::Stats(name(0), 0))?;
                Ok(Seen { hash: h(&n), transitions: 7 * n as u64 })
            },
        )
    });
    run.par(lengths.len() * 3, |j| {
        let (len, at) = (lengths[j / 3], [0, lengths[j / 3] / 2, lengths[j / 3] - 1][j % 3]);
        run.case(
            || format!("names of {} characters that differ at {}", len, at),
            || {
                let lib = Library::new(SMALL);
                let mut s = Server::new(SMALL, 2);
                let mut m = Model::new(&lib);
                let name = |c: u8| {
                    let mut v: Vec<u8> = (0..len).map(|i| b'a' + (i % 26) as u8).collect();
                    v[at] = c;
                    some(&String::from_utf8(v).unwrap())
                };
                let all = [name(b'X'), name(b'Y'), name(b'Z'), None];
                step(&mut s, &mut m, 0, &Op::Add(all[0].clone(), 3))?;
                step(&mut s, &mut m, 1, &Op::Point(all[1].clone(), point(SMALL, 2)))?;
                step(&mut s, &mut m, 1, &Op::Add(all[1].clone(), 3))?;
                step(&mut s, &mut m, 0, &Op::Point(all[0].clone(), point(SMALL, 2)))?;
                step(&mut s, &mut m, 0, &Op::Point(all[1].clone(), point(SMALL, 3)))?;
                step(&mut s, &mut m, 1, &Op::Point(all[1].clone(), point(SMALL, 7)))?;
                let mut t = check_all(&mut s, &mut m, 0, &all, &[0, 3])?;
                t += check_all(&mut s, &mut m, 1, &all, &[0, 3])?;
                Ok(Seen { hash: h(&(len, at)), transitions: t + 6 })
            },
        )
    });
    let nw = windows.len();
    run.par(nw * nw + 1, |j| {
        let ws: Vec<usize> = if j == nw * nw { windows.to_vec() } else { vec![windows[j / nw], windows[j % nw]] };
        run.case(
            || format!("windows {:?}", ws),
            || {
                let lib = Library::new(SMALL);
                let mut s = Server::new(SMALL, 2);
                let mut m = Model::new(&lib);
                let names = [None, some("a")];
                let mut t = 0;
                for (i, w) in ws.iter().enumerate() {
                    step(&mut s, &mut m, i % 2, &Op::Add(some("a"), *w))?;
                    step(&mut s, &mut m, (i + 1) % 2, &Op::Point(some("a"), point(SMALL, i % 9)))?;
                    step(&mut s, &mut m, i % 2, &Op::Point(some("a"), vec![0.25, 1.75]))?;
                    if j < nw * nw || i + 1 == nw {
                        t += check_all(&mut s, &mut m, i % 2, &names, &windows)?;
                    } else {
                        t += check_all(&mut s, &mut m, i % 2, &names[1..], &windows[..=i])?;
                    }
                }
                Ok(Seen { hash: h(&ws), transitions: t })
            },
        )
    });
    run.par(long.len(), |j| {
        let (n, conns) = long[j];
        run.case(
            || format!("{} points tracked over {} connections", n, conns),
            || {
                let lib = Library::new(SMALL);
                let mut s = Server::new(SMALL, conns + 1);
                let mut m = Model::new(&lib);
                let names = [some("a"), None];
                let ws = [0usize, 1, 20, 129, 513, 1024, 70_000];
                for w in ws.iter() {
                    step(&mut s, &mut m, 0, &Op::Add(some("a"), *w))?;
                }
                step(&mut s, &mut m, 0, &Op::Add(None, 0))?;
                let mut t = 0;
                for i in 0..n {
                    let p = if i % 11 == 4 { far() } else if i % 5 == 2 { vec![(i % 17) as f32 * 0.45, (i % 13) as f32] } else { point(SMALL, (i * i / 7) % 9) };
                    step(&mut s, &mut m, i % conns, &Op::Point(some("a"), p))?;
                    t += 1;
                    if i % 150 == 149 || (i + 1).is_power_of_two() || i + 1 == n {
                        t += check_all(&mut s, &mut m, conns, &names, &ws).map_err(|e| format!("after {} points: {}", i + 1, e))?;
                    }
                }
                Ok(Seen { hash: h(&n), transitions: t })
            },
        )
    });
    let ks = [1usize, 2, 10, 11, 64, 65, 99, 100, 101, 127, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 2499, 2500, 2501, 4097, 70_000];
    run.bound(format!("{:?}: k of {:?}, 16 query points, knn and routing_knn, and the paths of all points", MANY, ks));
    run.par(16, |j| {
        run.case(
            || format!("many points, query {}", j),
            || {
                let lib = Library::new(MANY);
                let mut s = Server::new(MANY, 1);
                let q = if j % 2 == 0 { point(MANY, j * 150 + 7) } else { vec![j as f32 * 1.618 - 2.0, (j * j % 11) as f32 * 3.141] };
                let mut t = 0;
                for k in ks.iter() {
                    for (uri, want) in vec![(format!("/knn?k={}", k), lib.knn(&q, *k)), (format!("/routing_knn?k={}", k), lib.routing_knn(&q, *k))] {
                        expect(&s.ask(0, req("GET", &uri, Some(&q))), &want).map_err(|e| format!("{}: {}", uri, e).chars().take(2000).collect::<String>())?;
                        t += 1;
                    }
                }
                for i in (j..MANY.points).step_by(16) {
                    let p = point(MANY, i);
                    expect(&s.ask(0, req("GET", "/path", Some(&p))), &lib.path(&p)).map_err(|e| format!("path of point {}: {}", i, e))?;
                    t += 1;
                }
                Ok(Seen { hash: h(&j), transitions: t })
            },
        )
    });
}

/// Requests that change nothing.
fn stateless(run: &Run) {
    let step = if run.thorough { 0.25 } else { 0.5 };
    for kind in [SMALL, WIDE, PLAIN].iter() {
        let mut qs: Vec<Vec<f32>> = (0..kind.points).map(|i| point(*kind, i)).collect();
        let m = (9.0 / step) as usize;
        for x in 0..m {
            for y in 0..m {
                let mut q: Vec<f32> = vec![0.75; kind.dim];
                q[0] = x as f32 * step;
                q[1] = y as f32 * step;
                if kind.dim > 2 && (x + y) % 2 == 0 {
                    q[kind.dim - 1] = 17.0;
                }
                qs.push(q);
            }
        }
        run.bound(format!("{:?}: {} query points x every k to past the point count, knn, routing_knn, path, parameters", kind, qs.len()));
        let chunk = 8;
        run.par((qs.len() + chunk - 1) / chunk, |c| {
            for q in qs.iter().skip(c * chunk).take(chunk) {
                run.case(
                    || format!("query {:?} {:?}", kind, q),
                    || {
                        let lib = Library::new(*kind);
                        let mut s = Server::new(*kind, 1);
                        let mut t = 0;
                        expect(&s.ask(0, req("GET", "/", None)), &lib.parameters()).map_err(|e| format!("parameters: {}", e))?;
                        let ks = (0..kind.points + 2).chain(vec![100, 1 << 40, usize::MAX]);
                        for k in ks {
                            for (uri, want) in vec![(format!("/knn?k={}", k), lib.knn(q, k)), (format!("/routing_knn?k={}", k), lib.routing_knn(q, k))] {
                                expect(&s.ask(0, req("GET", &uri, Some(q))), &want).map_err(|e| format!("{}: {}", uri, e))?;
                                t += 1;
                            }
                        }
                        for (uri, want) in vec![
                            ("/knn", lib.knn(q, 10)),
                            ("/routing_knn", lib.routing_knn(q, 10)),
                            ("/path", lib.path(q)),
                            ("/knn?rank=2&k=3", lib.knn(q, 3)),
                            ("/routing_knn?rank=2&k=3", lib.routing_knn(q, 3)),
                            ("/knn?k=4&x=1", lib.knn(q, 4)),
                        ] {
                            expect(&s.ask(0, req("GET", uri, Some(q))), &want).map_err(|e| format!("{}: {}", uri, e))?;
                            t += 1;
                        }
                        Ok(Seen { hash: h(&lib.path(q).to_string()), transitions: t })
                    },
                )
            }
        });
    }
}

/// Different names are different trackers, however they look.
fn names(run: &Run) {
    let all = ["a", "A", "aa", "a-b", "a-c", "a.b", "a%20b", "a%20c", "a+b", "1", "10", "k", "window_size", "tracker_name", "stats", "a=b", "_", "~", "a/b", "a?b"];
    run.bound(format!("all ordered pairs of {} names, both parameter orders, one ignored parameter", all.len()));
    run.par(all.len() * all.len(), |i| {
        let (x, y) = (all[i / all.len()], all[i % all.len()]);
        if x == y {
            return;
        }
        run.case(
            || format!("names {:?} {:?}", x, y),
            || {
                let lib = Library::new(SMALL);
                let mut s = Server::new(SMALL, 2);
                let mut model = Model::new(&lib);
                let ns = [None, some(x), some(y)];
                let p = point(SMALL, 3);
                let q = vec![0.25, 1.75];
                let ops = [Op::Add(some(x), 3), Op::Point(some(x), p.clone()), Op::Point(some(y), p.clone()), Op::Add(some(y), 3), Op::Point(some(y), q.clone()), Op::Point(some(y), p), Op::Point(some(x), q)];
                for (i, op) in ops.iter().enumerate() {
                    let want = model.run(op);
                    let r = match op {
                        Op::Add(n, w) => req("POST", &format!("/track/add?tracker_name={}&window_size={}", n.as_ref().unwrap(), w), None),
                        Op::Point(n, q) => req("POST", &format!("/track/point?old_tracker_name=zz&tracker_name={}", n.as_ref().unwrap()), Some(q)),
                        _ => unreachable!(),
                    };
                    expect(&s.ask(i % 2, r), &want).map_err(|e| format!("step {} ({:?}): {}", i, op, e))?;
                    check_all(&mut s, &mut model, (i + 1) % 2, &ns, &[3, 4]).map_err(|e| format!("after step {} ({:?}): {}", i, op, e))?;
                }
                Ok(Seen { hash: h(&(x, y)), transitions: 7 * 7 })
            },
        )
    });
}

fn inner(r: GokoResponse<<Cloud as pointcloud::PointCloud>::LabelSummary>) -> Value {
    let text = match r {
        GokoResponse::Parameters(p) => serde_json::to_string(&p),
        GokoResponse::Knn(p) => serde_json::to_string(&p),
        GokoResponse::RoutingKnn(p) => serde_json::to_string(&p),
        GokoResponse::Path(p) => serde_json::to_string(&p),
        GokoResponse::Tracking(p) => serde_json::to_string(&p),
        GokoResponse::Unknown(s, n) => Ok(json!([s, n]).to_string()),
    };
    serde_json::from_str(&text.unwrap()).unwrap()
}

/// The same through the request types, which can also carry ready-made paths.
fn direct(run: &Run) {
    let names = [None, some("a")];
    let pts = [vec![0.25, 1.75], point(SMALL, 3)];
    let mut al = vec![];
    for n in &names {
        al.push(Op::Add(n.clone(), 1));
        al.push(Op::Add(n.clone(), 2));
        for p in &pts {
            al.push(Op::Point(n.clone(), p.clone()));
            al.push(Op::Path(n.clone(), p.clone()));
        }
        al.push(Op::Stats(n.clone(), 2));
    }
    let depth = if run.thorough { 4 } else { 3 };
    let n = al.len().pow(depth);
    run.bound(format!("all {} sequences of {} requests through the request types, ready-made paths included", n, depth));
    run.par(n, |i| {
        let ops: Vec<Op> = pick(i, al.len(), depth as usize).iter().map(|j| al[*j].clone()).collect();
        run.case(
            || format!("direct {:?}", ops),
            || {
                let lib = Library::new(SMALL);
                let s = Server::new(SMALL, 0);
                let mut model = Model::new(&lib);
                let mut reader = {
                    let _in = s.rt.enter();
                    s.core.reader()
                };
                let mut ops = ops.clone();
                for n in &names {
                    for w in 1..4 {
                        ops.push(Op::Stats(n.clone(), w));
                    }
                }
                let mut seen = vec![];
                for (i, op) in ops.iter().enumerate() {
                    let want = model.run(op);
                    let (tracker_name, request) = match op {
                        Op::Add(n, w) => (n.clone(), TrackingRequestChoice::AddTracker(AddTrackerRequest { window_size: *w })),
                        Op::Point(n, q) => (n.clone(), TrackingRequestChoice::TrackPoint(TrackPointRequest { point: q.clone() })),
                        Op::Path(n, q) => (n.clone(), TrackingRequestChoice::TrackPath(TrackPathRequest { path: lib.reader.path(&&q[..]).unwrap() })),
                        Op::Stats(n, w) => (n.clone(), TrackingRequestChoice::CurrentStats(CurrentStatsRequest { window_size: *w })),
                        Op::Knn(..) => unreachable!(),
                    };
                    let got = s.rt.block_on(reader.process(GokoRequest::Tracking(TrackingRequest { tracker_name, request })));
                    let got = inner(got.map_err(|e| format!("step {} ({:?}): {}", i, op, e))?);
                    if !close(&got, &want) {
                        return Err(format!("step {} ({:?}): answer {}, the library gives {}", i, op, got, want));
                    }
                    seen.push(got.to_string());
                }
                Ok(Seen { hash: h(&seen), transitions: ops.len() as u64 })
            },
        )
    });
}

/// All merges of two sequences of the given lengths: which one goes next.
fn merges(a: usize, b: usize) -> Vec<Vec<bool>> {
    if a == 0 && b == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    if a > 0 {
        for mut m in merges(a - 1, b) {
            m.insert(0, false);
            r.push(m);
        }
    }
    if b > 0 {
        for mut m in merges(a, b - 1) {
            m.insert(0, true);
            r.push(m);
        }
    }
    r
}

/// Requests outstanding at the same time on two connections: the answers are those of some order.
fn concurrent(run: &Run) {
    let p = [vec![0.25, 1.75], point(SMALL, 3)];
    let al = vec![
        Op::Add(some("a"), 1),
        Op::Add(some("b"), 1),
        Op::Point(some("a"), p[0].clone()),
        Op::Point(some("a"), p[1].clone()),
        Op::Stats(some("a"), 1),
        Op::Point(None, p[0].clone()),
    ];
    let (la, lb) = if run.thorough { (3, 2) } else { (2, 2) };
    let ms = merges(la, lb);
    let na = al.len().pow(la as u32);
    let nb = al.len().pow(lb as u32);
    let gaps = [0usize, 1, 2, 40];
    run.bound(format!("all pairs of programs of {} and {} requests on two connections x all submission orders x {} paces of the workers", la, lb, gaps.len()));
    run.par(na * nb, |i| {
        let a: Vec<Op> = pick(i / nb, al.len(), la).iter().map(|j| al[*j].clone()).collect();
        let b: Vec<Op> = pick(i % nb, al.len(), lb).iter().map(|j| al[*j].clone()).collect();
        for m in &ms {
            for gap in &gaps {
                run.case(
                    || format!("concurrent gap={} order={:?} {:?} {:?}", gap, m, a, b),
                    || {
                        let lib = Library::new(SMALL);
                        let mut s = Server::new(SMALL, 2);
                        // the default tracker is always there with a window, "a" and "b" come and go
                        let mut pending = [vec![], vec![]];
                        let mut next = [0, 0];
                        for second in m {
                            let c = *second as usize;
                            let op = if c == 0 { &a[next[0]] } else { &b[next[1]] };
                            next[c] += 1;
                            let f = s.submit(c, http(op))?;
                            pending[c].push(f);
                            s.steps(*gap);
                        }
                        let mut got: Vec<Vec<Value>> = vec![];
                        for p in pending.iter_mut() {
                            let mut g = vec![];
                            for f in p.drain(..) {
                                let r = s.rt.block_on(async { text(f.await.map_err(|e| e.to_string())?).await })?;
                                g.push(serde_json::from_str(&r.1).map_err(|e| format!("{:?}: {}", r, e))?);
                            }
                            got.push(g);
                        }
                        let fin = Op::Stats(some("a"), 1);
                        let last: Value = serde_json::from_str(&s.ask(0, http(&fin))?.1).map_err(|e| e.to_string())?;

                        for l in &ms {
                            let mut model = Model::new(&lib);
                            let mut next = [0, 0];
                            let mut ok = true;
                            for second in l {
                                let c = *second as usize;
                                let op = if c == 0 { &a[next[0]] } else { &b[next[1]] };
                                let w = model.run(op);
                                ok &= close(&got[c][next[c]], &w);
                                next[c] += 1;
                            }
                            ok &= close(&last, &model.run(&fin));
                            if ok {
                                return Ok(Seen { hash: h(&format!("{:?}{}", got, last)), transitions: 5 });
                            }
                        }
                        Err(format!("the answers {:?}, then {}, are those of no order of the requests", got, last))
                    },
                )
            }
        }
    });
}

pub fn c21(run: &'static Run) {
    stateless(run);
    names(run);
    direct(run);
    histories(run);
    long(run);
    marathons(run);
    large(run);
    concurrent(run);
    run.assume("a single-threaded runtime: workers run in every order their queues allow, not in parallel");
}
